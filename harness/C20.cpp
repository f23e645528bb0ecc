// C20: sampled fields: values, extremes, percentiles, file round trip, refusals.
#include "gen.hpp"
#include "XField.hpp"
using namespace pbt;
static const float INF = std::numeric_limits<float>::infinity();
class F: public XField { public: using XField::XField; using XField::xmin; using XField::ymin; using XField::dxdy; using XField::xres; using XField::yres; using XField::map; using XField::evaluated; };
static bool same(float a, float b) { return !memcmp(&a, &b, 4); }
static float number(Src& s, int kind) {
    switch (kind) {
        case 0: return (float)s.fine(-1, 1);
        case 1: return (float)s.range(-3, 3);
        case 2: return s.draw(3) ? 0.f : (float)s.fine(-1, 1);
        case 3: return s.pick({INF, -INF, 0.f, -0.f, 1.f, -1.f, 3e38f, -3e38f, 1e-45f, 2.5f});
        case 4: return (float)s.logreal(1e-30, 1e30)*(s.flip() ? -1 : 1);
        default: { uint32_t u = (uint32_t)s.draw(4294967296ULL); float f; memcpy(&f, &u, 4); return f; }
    }
}
struct G { float x0, y0, d; int nx, ny; std::vector<float> v; float at(int i, int j) const { return v[j*nx+i]; } };
static G grid(Src& s, bool nan) {
    G g; g.nx = s.sized(2, s.draw(20) ? 12 : 200); g.ny = s.sized(2, s.draw(20) ? 12 : 200);
    if (s.draw(60) == 1) { int a = s.range(2, 4), b = s.range(200, 6000); bool w = s.flip(); g.nx = w ? b : a; g.ny = w ? a : b; s.label("long grid"); }
    int k = (int)s.draw(3);
    if (k == 0) { g.d = s.pick({1.f, 0.25f, 2.f, 0.125f}); g.x0 = s.range(-8, 8)*g.d; g.y0 = s.range(-8, 8)*g.d; }
    else if (k == 1) { g.d = (float)s.logreal(1e-4, 10); g.x0 = (float)(s.fine(-100, 100)*g.d); g.y0 = (float)(s.fine(-100, 100)*g.d); }
    else { g.d = (float)s.logreal(1e-3, 1); g.x0 = (float)s.fine(-100, 100); g.y0 = (float)s.fine(-100, 100); }
    int kind = (int)s.draw(nan ? 6 : 5); g.v.resize((size_t)g.nx*g.ny); for (auto& f: g.v) f = number(s, kind);
    s.describe(fmt("%dx%d from (%g,%g) by %g, values of kind %d: %g %g %g...", g.nx, g.ny, g.x0, g.y0, g.d, kind, g.v[0], g.v[1], g.v[2])); s.label(fmt("values:%d", kind));
    s.nontrivial(g.v.size() > 4);
    return g;
}
static void fill(F& f, const G& g) { for (int j = 0; j < g.ny; j++) for (int i = 0; i < g.nx; i++) f.map[j*g.nx+i] = g.at(i, j); f.evaluated = true; }
template<class T> static bool refuses(T t) { try { t(); } catch (const std::exception&) { return true; } return false; }

static void statistics(const XField& f, const G& g, Src& s, const char* what) {
    for (int q = 0; q < 10; q++) { int i = (int)s.draw(g.nx), j = (int)s.draw(g.ny); CHECK(same(f.at(i, j), g.at(i, j)), "at", "%s: at(%d,%d) is %g instead of %g", what, i, j, f.at(i, j), g.at(i, j)); }
    for (float x: g.v) if (x != x) return;
    float lo = g.v[0], hi = g.v[0]; for (float x: g.v) { if (x < lo) lo = x; if (x > hi) hi = x; }
    CHECK(f.min() == lo, "min", "%s: min is %g instead of %g", what, f.min(), lo);
    CHECK(f.max() == hi, "max", "%s: max is %g instead of %g", what, f.max(), hi);
    std::vector<float> v; for (float x: g.v) if (x != 0) v.push_back(x);
    std::sort(v.begin(), v.end()); long n = v.size();
    for (int q = 0; q < 4; q++) {
        float p = s.pick({0.02f, 0.98f, 0.5f, 0.25f, 0.75f, (float)s.fine(0.001, 0.999), (float)s.fine(0.001, 0.999)});
        float got = f.percentile(p);
        if (!n) { CHECK(got == 0, "percentile", "%s: percentile(%g) of zeros is %g", what, p, got); continue; }
        // the share of values below (above) is the nearest whole number not over the share asked for, at least one value
        double r = p < 0.5 ? n*(double)p : n*(1-(double)p); long a = std::max(1L, (long)floor(r-1e-4*(1+r*1e-2))), b = std::min(n, std::max(1L, (long)floor(r+1e-4*(1+r*1e-2)))); bool ok = false;
        for (long k = a; k <= b; k++) ok = ok || got == (p < 0.5 ? v[k-1] : v[n-k]);
        CHECK(ok, "percentile", "%s: percentile(%g) of %ld values is %g instead of %g", what, p, n, got, p < 0.5 ? v[a-1] : v[n-a]);
    }
}
static void prop_roundtrip(Src& s) {
    G g = grid(s, true); F f(g.x0, g.y0, g.d, g.nx, g.ny);
    CHECK(refuses([&]{ f.min(); }) && refuses([&]{ f.max(); }) && refuses([&]{ f.percentile(0.3f); }) && refuses([&]{ std::stringstream o; o << f; }), "unevaluated", "a field that is not evaluated gives values");
    fill(f, g); statistics(f, g, s, "sampled");
    CHECK(refuses([&]{ f.percentile(s.pick({0.f, 1.f, -1.f, 2.f, NAN})); }), "percentile_range", "percentile outside (0,1) is accepted");
    std::stringstream o; o << f; std::string str = o.str(); const float* d = (const float*)str.data();
    CHECK(str.size() == 4*(size_t)(g.nx+1)*(g.ny+1), "size", "%zu bytes", str.size());
    CHECK(d[0] == g.nx, "header", "first number is %g", d[0]);
    double tx = 2e-7*(fabs(g.x0)+g.nx*g.d), ty = 2e-7*(fabs(g.y0)+g.ny*g.d);
    for (int i = 0; i < g.nx; i++) CHECK(fabs(d[1+i] - ((double)g.x0+i*(double)g.d)) <= tx, "x", "x[%d] is %.9g", i, d[1+i]);
    for (int j = 0; j < g.ny; j++) {
        const float* row = d + (size_t)(j+1)*(g.nx+1);
        CHECK(fabs(row[0] - ((double)g.y0+j*(double)g.d)) <= ty, "y", "y[%d] is %.9g", j, row[0]);
        for (int i = 0; i < g.nx; i++) CHECK(same(row[1+i], g.at(i, j)), "value", "value at %d,%d is %g instead of %g", i, j, row[1+i], g.at(i, j));
    }
    // read back
    double fine = std::max(tx, ty)/g.d;
    try {
        F r(str);
        CHECK(r.xres == g.nx && r.yres == g.ny, "read", "%dx%d is read as %dx%d", g.nx, g.ny, r.xres, r.yres);
        CHECK(same(r.xmin, g.x0) && same(r.ymin, g.y0) && fabs(r.dxdy-(double)g.d) <= 2*tx, "read", "grid from (%.9g,%.9g) by %.9g is read as from (%.9g,%.9g) by %.9g", g.x0, g.y0, g.d, r.xmin, r.ymin, r.dxdy);
        statistics(r, g, s, "read"); for (int j = 0; j < g.ny; j++) for (int i = 0; i < g.nx; i++) CHECK(same(r.at(i, j), g.at(i, j)), "read", "read value at %d,%d", i, j);
        std::stringstream o2; o2 << r; std::string s2 = o2.str(); CHECK(s2.size() == str.size(), "again", "written again: %zu bytes", s2.size());
        const float* e = (const float*)s2.data();
        bool exact = floorf(g.x0/g.d)*g.d == g.x0 && floorf(g.y0/g.d)*g.d == g.y0 && fabs(g.x0/g.d) < 1000 && fabs(g.y0/g.d) < 1000 && (g.d == 1 || g.d == 0.25f || g.d == 2 || g.d == 0.125f);
        if (exact) { s.label("exact grid"); CHECK(s2 == str, "again", "written again: differs"); }
        for (int j = 0; j < g.ny; j++) for (int i = 0; i < g.nx; i++) CHECK(same(e[(size_t)(j+1)*(g.nx+1)+1+i], g.at(i, j)), "again", "written again: value at %d,%d", i, j);
    } catch (const Fail&) { throw; } catch (const std::exception& ex) { CHECK(fine > 1e-4, "refused", "a written field is refused: %s", ex.what()); s.label("too fine for floats"); }
}
static void prop_ctor(Src& s) {
    float d = s.pick({1.f, 0.f, -1.f, INF, -INF, (float)NAN, 1e-20f}); int nx = s.range(-2, 4), ny = s.range(-2, 4);
    bool bad = !(d > 0) || std::isinf(d) || nx < 2 || ny < 2; s.nontrivial(); s.describe(fmt("%dx%d by %g", nx, ny, d));
    bool r = refuses([&]{ F f(0, 0, d, nx, ny); }); CHECK(r == bad, "ctor", "a %dx%d grid by %g is %s", nx, ny, d, r ? "refused" : "accepted");
}
// strings that are no field
static void prop_malformed(Src& s) {
    G g; g.nx = s.range(2, 6); g.ny = s.range(2, 6); g.d = 1; g.x0 = s.range(-3, 3); g.y0 = s.range(-3, 3); g.v.assign((size_t)g.nx*g.ny, 1);
    F f(g.x0, g.y0, g.d, g.nx, g.ny); fill(f, g); std::stringstream o; o << f; std::string str = o.str();
    std::vector<float> d((float*)str.data(), (float*)(str.data()+str.size())); int how = (int)s.draw(9); bool bad = true; size_t cut = 0;
    switch (how) {
        case 0: cut = 1+s.draw(str.size()); break;
        case 1: d[0] = s.pick({0.f, 1.f, -1.f, INF, -INF, (float)NAN, 2.5f, 1e9f, 3e9f, 1e30f, -3.f}); break;
        case 2: d[0] = (float)s.range(2, 60); bad = false; break; // decided below
        case 3: d[2] += s.pick({0.5f, -0.5f, 0.01f, INF, (float)NAN}); break;
        case 4: d[2*(g.nx+1)] += s.pick({0.5f, -0.5f, 0.01f, INF, (float)NAN}); break;
        case 5: { d.resize(2*(g.nx+1)); break; }                                    // a single row
        case 6: for (int i = 0; i < g.nx; i++) d[1+i] = g.x0; for (int j = 0; j < g.ny; j++) d[(j+1)*(g.nx+1)] = g.y0; break;   // no spacing
        case 7: for (int i = 0; i < g.nx; i++) d[1+i] = -d[1+i]; for (int j = 0; j < g.ny; j++) d[(j+1)*(g.nx+1)] *= -1; break; // downwards
        default: d.insert(d.begin()+s.draw(d.size()), s.range(1, 3), 1.f); bad = false; break;
    }
    std::string t((char*)d.data(), d.size()*4); if (cut) t.resize(t.size()-cut);
    auto valid = [&]() { // a table with a uniform positive spacing
        if (t.size() % 4 || t.size() < 36) return false; const float* q = (const float*)t.data(); size_t n = t.size()/4; float N = q[0];
        if (!(N >= 2 && N < 1e6 && N == floorf(N))) return false; size_t c = (size_t)N+1; if (n % c) return false; size_t r = n/c; if (r < 3) return false;
        float dx = q[2]-q[1], dy = q[2*c]-q[c]; return dx > 0 && dy > 0 && std::isfinite(dx) && std::isfinite(dy) && fabs(dx-dy) <= std::min(dx, dy)/1000; };
    bool v = valid(); s.describe(fmt("%dx%d damaged in way %d, %s", g.nx, g.ny, how, v ? "still a field" : "no field")); s.nontrivial(); (void)bad;
    bool r = refuses([&]{ F x(t); x.min(); });
    CHECK(r == !v, "malformed", "a string of %zu bytes (way %d) is %s", t.size(), how, r ? "refused" : "accepted");
}
int main(int argc, char** argv) { return main_run(argc, argv, "C20", { {"roundtrip", 60000, 2000000, prop_roundtrip, 0}, {"ctor", 3000, 3000, prop_ctor, 0}, {"malformed", 20000, 500000, prop_malformed, 0} }); }
