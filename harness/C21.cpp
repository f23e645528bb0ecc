// C21: isolines are the level sets of the bilinear grid edges.
#include "gen.hpp"
#include <array>
#include "XField.hpp"
#include "XIsoline.hpp"
using namespace pbt;
class F: public XField { public: using XField::XField; using XField::map; using XField::evaluated; using XField::gaps; };
typedef std::pair<int, int> Key; // edge, level
struct P { double x, y; };
static void prop(Src& s) {
    int nx = s.sized(2, s.draw(30) ? 9 : 40), ny = s.sized(2, s.draw(30) ? 9 : 40); double x0, y0, d;
    if (s.flip()) { d = 1; x0 = y0 = 0; } else { d = (float)s.logreal(1e-3, 100); x0 = (float)(s.fine(-20, 20)*d); y0 = (float)(s.fine(-20, 20)*d); }
    F f(x0, y0, d, nx, ny); int kind = (int)s.draw(5); double a = s.fine(-3, 3), b = s.fine(-3, 3), sc = s.pick({1.0, 100.0, 0.01});
    auto raw = [&](int i, int j) -> double { switch (kind) {
        case 0: return s.fine(-1, 1);
        case 1: return a*i + b*j + 0.1*s.fine(-1, 1);
        case 2: return (i-nx/2.+a)*(j-ny/2.+b);
        case 3: return hypot(i-nx/2.+a*0.3, j-ny/2.+b*0.3);
        default: return s.range(-2, 2); } };
    double lo = 1e300, hi = -1e300;
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { float v = raw(i, j)*sc; f.map[j*nx+i] = v; lo = std::min(lo, (double)v); hi = std::max(hi, (double)v); }
    f.evaluated = true;
    double span = hi-lo; if (span == 0) span = 1;
    double vmin = lo + span*s.fine(-0.3, 1.1), dv = span*s.pick({0.05, 0.2, 1.0, s.fine(0.01, 2)}), vmax = s.draw(3) == 0 ? vmin : vmin + span*s.fine(0, 1.2);
    std::vector<float> lev; for (double v = vmin; v <= vmax; v += dv) lev.push_back((float)v);
    s.describe(fmt("%dx%d from (%g,%g) by %g, field %d in [%g,%g], levels %g..%g by %g (%zu)", nx, ny, x0, y0, d, kind, lo, hi, vmin, vmax, dv, lev.size()));
    // expected crossings; edge numbers: horizontal edge (i,j)-(i+1,j): 2*(j*nx+i), vertical: +1
    double tol = 3e-6*(nx+ny) + 4e-7*(fabs(x0)+fabs(y0))/d; std::map<Key, P> cross;
    auto z = [&](int i, int j) { return (double)f.at(i, j); };
    for (size_t k = 0; k < lev.size(); k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        double c = lev[k]; if (z(i, j) == c) return; // exact coincidence: nothing is promised
        if (i+1 < nx && (z(i, j) < c) != (z(i+1, j) < c)) cross[Key(2*(j*nx+i), k)] = P{i + (c-z(i, j))/(z(i+1, j)-z(i, j)), (double)j};
        if (j+1 < ny && (z(i, j) < c) != (z(i, j+1) < c)) cross[Key(2*(j*nx+i)+1, k)] = P{(double)i, j + (c-z(i, j))/(z(i, j+1)-z(i, j))};
    }
    for (auto& c: cross) { // different levels must be told apart, and crossings from nodes
        double q = c.first.first % 2 ? c.second.y : c.second.x; if (fabs(q-std::round(q)) < 3*tol) return;
        auto n = cross.upper_bound(c.first); if (n != cross.end() && n->first.first == c.first.first && hypot(n->second.x-c.second.x, n->second.y-c.second.y) < 4*tol) return; }
    std::stringstream o; o << XIsoline(f, vmin, vmax, dv); std::string str = o.str(); CHECK(str.size() % 8 == 0, "format", "%zu bytes", str.size());
    const float* q = (const float*)str.data(); size_t n = str.size()/8; s.nontrivial(cross.size() > 2); if (lev.size() > 1) s.label("several levels");
    typedef std::pair<Key, Key> Seg; std::map<Seg, int> segs; std::map<Key, int> seen; long lines = 0, closed = 0, saddles = 0;
    auto boundary = [&](Key k) { int e = k.first/2, i = e % nx, j = e / nx; return k.first % 2 ? (i == 0 || i == nx-1) : (j == 0 || j == ny-1); };
    for (size_t i = 0; i < n; ) {
        std::vector<Key> l;
        for (; i < n && !(q[2*i] != q[2*i]); i++) {
            double X = (q[2*i]-x0)/d, Y = (q[2*i+1]-y0)/d; int ix = (int)std::round(X), iy = (int)std::round(Y); Key best(-1, -1);
            bool vert = fabs(X-ix) <= tol, hor = fabs(Y-iy) <= tol; CHECK(vert || hor, "off_grid", "a line has the point (%g,%g) (in cells) off the grid lines", X, Y);
            for (int t = 0; t < 2 && best.first < 0; t++) { if (!(t ? hor : vert)) continue;
                int e = t ? 2*(iy*nx+(int)floor(X)) : 2*((int)floor(Y)*nx+ix)+1;
                for (auto c = cross.lower_bound(Key(e, -1)); c != cross.end() && c->first.first == e; ++c) if (hypot(c->second.x-X, c->second.y-Y) <= tol) best = c->first; }
            CHECK(best.first >= 0, "no_crossing", "a line passes (%g,%g) (in cells) where no level is reached", X, Y);
            if (l.empty() || l.back() != best) l.push_back(best);
        }
        CHECK(i < n, "format", "the last line is not ended"); i++; if (l.empty()) continue;
        lines++; CHECK(l.size() > 1, "point", "a line of a single point");
        for (auto& k: l) CHECK(k.second == l[0].second, "mixed", "a line joins the levels %g and %g", lev[k.second], lev[l[0].second]);
        bool ring = l.front() == l.back(); closed += ring; if (ring) CHECK(l.size() > 3, "ring", "a closed line of %zu points", l.size());
        if (!ring) CHECK(boundary(l.front()) && boundary(l.back()), "ends", "a line of level %g ends inside the grid", lev[l[0].second]);
        for (size_t k = 0; k < l.size(); k++) if (!ring || k) seen[l[k]]++;
        for (size_t k = 0; k+1 < l.size(); k++) { segs[std::minmax(l[k], l[k+1])]++; }
    }
    for (auto& c: cross) CHECK(seen[c.first] == 1, "cover", "the crossing of level %g at (%g,%g) (in cells) is passed %d times", lev[c.first.second], c.second.x, c.second.y, seen[c.first]);
    CHECK(seen.size() == cross.size(), "cover", "more points than crossings");
    // every cell: the crossings of its edges are joined in pairs
    std::map<Seg, int> want; long total = 0;
    for (size_t k = 0; k < lev.size(); k++) for (int j = 0; j+1 < ny; j++) for (int i = 0; i+1 < nx; i++) {
        int e[4] = {2*(j*nx+i)+1, 2*((j+1)*nx+i), 2*(j*nx+i+1)+1, 2*(j*nx+i)}; std::vector<Key> c; // left, top, right, bottom
        for (int t: e) if (cross.count(Key(t, k))) c.push_back(Key(t, k));
        if (c.size() == 2) { total++; CHECK(segs[std::minmax(c[0], c[1])] == 1, "segment", "cell (%d,%d): the two crossings of level %g are not joined once", i, j, lev[k]); }
        if (c.size() == 4) { total += 2; saddles++; int A = segs[std::minmax(c[0], c[1])], B = segs[std::minmax(c[2], c[3])], C = segs[std::minmax(c[1], c[2])], D = segs[std::minmax(c[3], c[0])];
            CHECK((A == 1 && B == 1 && !C && !D) || (C == 1 && D == 1 && !A && !B), "saddle", "cell (%d,%d): the four crossings of level %g are joined %d %d %d %d", i, j, lev[k], A, B, C, D); }
    }
    long have = 0; for (auto& g: segs) have += g.second; CHECK(have == total, "extra", "%ld segments instead of %ld", have, total);
    if (closed) s.label("closed lines"); if (saddles) s.label("saddles"); if (lines > 1) s.label("several lines");
}
// node values exactly at a level (a node at the level counts as above it): lines still join and end on the boundary only
static void prop_exact(Src& s) {
    int nx = s.sized(2, s.draw(6) ? 6 : 14), ny = s.sized(2, s.draw(6) ? 6 : 14), m = s.range(1, 3), kind = (int)s.draw(4);
    double x0 = s.range(-4, 4), y0 = s.range(-4, 4), d = s.pick({1.0, 0.5, 2.0}); F f(x0, y0, d, nx, ny); int a = s.range(-2, 2), b = s.range(-2, 2);
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) f.map[j*nx+i] = kind == 0 ? s.range(-m, m) : kind == 1 ? a*(i-nx/2)+b*(j-ny/2) : kind == 2 ? (i-nx/2)*(j-ny/2) : (s.draw(3) ? 0 : s.range(-m, m));
    f.evaluated = true; int c0 = s.range(-2, 2), n = s.range(1, 3); double dv = s.pick({1.0, 0.5});
    s.describe(fmt("%dx%d, field %d, levels %d.. %d by %g", nx, ny, kind, c0, n, dv)); 
    typedef std::pair<float, float> Q; typedef std::pair<Q, Q> S; std::map<S, int> got;
    std::stringstream o; o << XIsoline(f, c0, c0+(n-1)*dv, dv); std::string str = o.str(); const float* q = (const float*)str.data(); size_t N = str.size()/8;
    auto bound = [&](Q p) { return p.first == 0 || p.second == 0 || p.first == nx-1 || p.second == ny-1; }; long lines = 0;
    for (size_t i = 0; i < N; i++) { std::vector<Q> l; for (; i < N && !(q[2*i] != q[2*i]); i++) l.push_back(Q((q[2*i]-x0)/d, (q[2*i+1]-y0)/d));
        CHECK(i < N && l.size() > 1, "format", "a line of %zu points", l.size()); if (l.front() != l.back()) CHECK(bound(l.front()) && bound(l.back()), "ends", "a line from (%g,%g) to (%g,%g) ends inside the grid", l.front().first, l.front().second, l.back().first, l.back().second);
        for (size_t k = 0; k+1 < l.size(); k++) if (l[k] != l[k+1]) got[std::minmax(l[k], l[k+1])]++; lines++; }
    s.nontrivial(got.size() > 2); bool hit = false;
    auto join = [&](Q a, Q b) { if (a != b) got[std::minmax(a, b)]--; };
    std::vector<std::array<Q, 4>> open;
    for (int k = 0; k < n; k++) { double c = c0+k*dv; for (int j = 0; j+1 < ny; j++) for (int i = 0; i+1 < nx; i++) {
        double z[4] = {f.at(i, j), f.at(i, j+1), f.at(i+1, j+1), f.at(i+1, j)}; std::vector<Q> p; float X = i, Y = j;
        for (double t: z) hit = hit || t == c;
        if ((z[0] < c) != (z[1] < c)) p.push_back(Q(X, Y+(float)((c-z[0])/(z[1]-z[0]))));
        if ((z[1] < c) != (z[2] < c)) p.push_back(Q(X+(float)((c-z[1])/(z[2]-z[1])), Y+1));
        if ((z[2] < c) != (z[3] < c)) p.push_back(Q(X+1, Y+(float)((c-z[3])/(z[2]-z[3]))));
        if ((z[3] < c) != (z[0] < c)) p.push_back(Q(X+(float)((c-z[0])/(z[3]-z[0])), Y));
        if (p.size() == 2) join(p[0], p[1]); else if (p.size() == 4) open.push_back({p[0], p[1], p[2], p[3]}); } }
    // points are binary fractions of thirds at worst: match what is left up to rounding
    std::vector<std::pair<S, int>> rest; auto near = [](Q a, Q b) { return fabs(a.first-b.first)+fabs(a.second-b.second) < 1e-4; };
    for (auto& g: got) if (g.second) { bool f = false; for (auto& r: rest) if (near(r.first.first, g.first.first) && near(r.first.second, g.first.second)) { r.second += g.second; f = true; } if (!f) rest.push_back(g); }
    for (auto& p: open) { bool f = false; for (int w = 0; w < 2 && !f; w++) { int e[2] = {-1, -1}; int need = 0;
            for (int h = 0; h < 2; h++) { Q a = p[w ? 1+h*2 : h*2], b = p[w ? (2+h*2)%4 : 1+h*2]; S t = std::minmax(a, b); if (near(a, b)) continue; need++; for (size_t k = 0; k < rest.size(); k++) if (rest[k].second > 0 && near(rest[k].first.first, t.first) && near(rest[k].first.second, t.second)) e[h] = k; if (e[h] >= 0) need--; }
            if (!need) { f = true; for (int h: e) if (h >= 0) rest[h].second--; } }
        CHECK(f, "saddle", "four crossings of a cell at (%g,%g).. are not joined in pairs", p[0].first, p[0].second); s.label("saddles"); }
    for (auto& r: rest) CHECK(!r.second, "segment", "the segment (%g,%g)-(%g,%g) is drawn %d times too often", r.first.first.first, r.first.first.second, r.first.second.first, r.first.second.second, r.second);
    if (hit) s.label("nodes at the level"); if (lines > 1) s.label("several lines");
}
// a field with cuts (a value is added to the nodes of a row left of a point, seen from above) has the lines of its parts
static void prop_gaps(Src& s) {
    int nx = s.sized(2, 10), ny = s.sized(2, 10); F f(0, 0, 1, nx, ny); for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) f.map[j*nx+i] = s.fine(-1, 1);
    int n = s.range(1, 4), k = s.range(1, 3); double lo = s.fine(-1.5, 0.5), dv = s.fine(0.2, 1);
    for (int t = 0; t < n; t++) f.gaps.emplace_back(s.range(0, nx), s.range(0, ny-1), s.fine(-2, 2)); f.evaluated = true;
    s.describe(fmt("%dx%d with %d cuts", nx, ny, n)); typedef std::pair<float, float> Q; std::map<std::pair<Q, Q>, int> got;
    auto count = [&](const F& f, int sign) { std::stringstream o; o << XIsoline(f, lo, lo+(k-1)*dv, dv); std::string str = o.str(); const float* q = (const float*)str.data(); size_t N = str.size()/8;
        for (size_t i = 0; i+1 < N; i++) { Q a(q[2*i], q[2*i+1]), b(q[2*i+2], q[2*i+3]); if (a.first != a.first || b.first != b.first) continue; if (a != b) got[std::minmax(a, b)] += sign; } };
    count(f, 1); s.nontrivial(got.size() > 2);
    for (int j = 0; j+1 < ny; j++) for (int i = 0; i+1 < nx; i++) {
        F p(i, j, 1, 2, 2); float z[5] = {f.at(i, j), f.at(i, j+1), f.at(i+1, j+1), f.at(i+1, j), f.at(i, j)}; bool end = false;
        for (auto& g: f.gaps) if (g.yj == j) { if (i <= g.xi) z[0] += g.gap; if (i < g.xi) { z[3] += g.gap; z[4] += g.gap; } end = end || i == g.xi; }
        if (!end) { p.map[0] = z[0]; p.map[2] = z[1]; p.map[3] = z[2]; p.map[1] = z[3]; p.evaluated = true; count(p, -1); continue; }
        // the cut ends in this cell: its left side belongs to the cell on the left, its bottom to the cell below; lines of an odd count end here
        s.label("end of a cut");
        for (int t = 0; t < k; t++) { float c = lo; { double v = lo; for (int u = 0; u < t; u++) v += dv; c = v; if (v > lo+(k-1)*dv) continue; } std::vector<Q> e; float X = i, Y = j; auto has = [&](int a) { return (z[a] < c) != (z[a+1] < c); };
            if (has(0)) e.push_back(Q(X, Y+(c-z[0])/(z[1]-z[0]))); if (has(1)) e.push_back(Q(X+(c-z[1])/(z[2]-z[1]), Y+1));
            if (has(2)) e.push_back(Q(X+1, Y+(c-z[3])/(z[2]-z[3]))); if (has(3)) e.push_back(Q(X+(c-z[4])/(z[3]-z[4]), Y));
            if (e.size() == 2) got[std::minmax(e[0], e[1])]--;
            else { int most = e.size() == 4 ? 2 : 1, n = 0; for (size_t a = 0; a < e.size(); a++) for (size_t b = a+1; b < e.size(); b++) { auto q = got.find(std::minmax(e[a], e[b])); if (q != got.end() && q->second > 0 && n < most) { q->second--; n++; } }
                if (e.size() == 4) CHECK(n == 2, "gap", "cell (%d,%d) where a cut ends: four crossings, %d segments", i, j, n); } } }
    for (auto& g: got) CHECK(!g.second, "gap", "the segment (%g,%g)-(%g,%g) is drawn %d times too often", g.first.first.first, g.first.first.second, g.first.second.first, g.first.second.second, g.second);
}
static void prop_refused(Src& s) {
    F f(0, 0, 1, 3, 3); for (int i = 0; i < 9; i++) f.map[i] = i; double inf = INFINITY, nan = NAN; s.nontrivial();
    int k = (int)s.draw(9); s.describe(fmt("%d", k)); f.evaluated = k != 0; bool r = false;
    static const double c[][3] = {{0, 1, 1}, {0, inf, 1}, {0, nan, 1}, {1, 0, 1}, {nan, 1, 1}, {0, 1, 0}, {0, 1, -1}, {0, 1, nan}, {0, 1, 0.5}};
    try { XIsoline l(f, c[k][0], c[k][1], c[k][2]); } catch (const std::exception&) { r = true; }
    CHECK(r == (k != 8), "refused", "levels %g..%g by %g: %s", c[k][0], c[k][1], c[k][2], r ? "refused" : "accepted");
}
int main(int argc, char** argv) { return main_run(argc, argv, "C21", { {"levels", 40000, 1500000, prop, 0}, {"exact", 20000, 600000, prop_exact, 0}, {"gaps", 20000, 600000, prop_gaps, 0}, {"refused", 100, 100, prop_refused, 0} }); }
