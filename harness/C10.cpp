// C10: the spatial tree partitions space and covers every interaction once.
#include "gen.hpp"
#include "TSortedTree.hpp"
using namespace pbt; using gen::cloud; using gen::body_of;

typedef std::vector<TObj> L;
static bool less(const TObj& a, const TObj& b) { return memcmp(&a, &b, sizeof(TObj)) < 0; }
static bool equal_sets(L a, L b) { if (a.size() != b.size()) return false; std::sort(a.begin(), a.end(), less); std::sort(b.begin(), b.end(), less); return a.empty() || !memcmp(a.data(), b.data(), a.size()*sizeof(TObj)); }
struct Scene { Space S; int far; double mn, mx; };

static void gen_scene(Src& s, Scene& c) {
    int nmax = s.thorough ? 3000 : 800;
    double size = s.pick({1.0, 0.01, 100.0, 1e6});
    c.S.VortexList = cloud(s, nmax, size); c.S.HeatList = cloud(s, s.draw(3) ? 40 : nmax, size); c.S.StreakList = cloud(s, s.draw(3) ? 40 : nmax, size);
    int nb = (int)s.draw(4);
    for (int i = 0; i < nb; i++) { gen::Poly p = gen::polygon(s, 3, 200); gen::transform(p, TVec(s.real(-size, size), s.real(-size, size)), s.fine(0, 7)); c.S.BodyList.push_back(body_of(p)); }
    c.S.EnumerateBodies();
    c.far = s.pick({8, 1, 2, 20, 100, 3});
    c.mn = size*s.pick({0.01, 0.1, 0.001, 1.0, 5.0});
    c.mx = s.pick({(double)INFINITY, 1.7976931348623157e308, 20*c.mn, 1.01*c.mn, 2*size});
    if (c.mx < c.mn) c.mx = c.mn*2;
    s.describe(fmt("%zu vortices, %zu heat, %zu ink, %d bodies, size %g, criterion %d, nodes %g..%g", c.S.VortexList.size(), c.S.HeatList.size(), c.S.StreakList.size(), nb, size, c.far, c.mn, c.mx));
}
static void leaves_of(const snode* n, std::vector<const snode*>& out) { if (n->ch1) { leaves_of(n->ch1, out); leaves_of(n->ch2, out); } else out.push_back(n); }

static void check_tree(Src& s, Scene& c, stree& t, bool v, bool b, bool h) {
    auto& leaves = t.getBottomNodes();
    CHECK(!leaves.empty(), "leaves", "a built tree has no leaves");
    std::map<const TObj*, const snode*> owner;
    std::set<const snode*> leafset(leaves.begin(), leaves.end());
    CHECK(leafset.size() == leaves.size(), "leaves", "a leaf is listed twice");
    auto own = [&](const TObj* o, const snode* n, const char* what) {
        CHECK(!owner.count(o), "twice", "a %s belongs to two leaves", what);
        owner[o] = n;
        double e = 1e-13*(fabs(n->x) + fabs(n->y) + n->w + n->h);
        CHECK(fabs(o->r.x-n->x) <= n->w/2+e && fabs(o->r.y-n->y) <= n->h/2+e, "encloses", "a %s at (%.17g,%.17g) is outside its leaf at (%.17g,%.17g) w %g h %g", what, o->r.x, o->r.y, n->x, n->y, n->w, n->h);
    };
    std::vector<const TAtt*> segs; for (auto& body: c.S.BodyList) for (auto& a: body->alist) segs.push_back(&a);
    for (auto n: leaves) {
        CHECK(!n->ch1 && !n->ch2 && n->NearNodes && n->FarNodes, "leaf", "a leaf has children or no interaction lists");
        CHECK(!(std::max(n->h, n->w) >= c.mx), "max_size", "a leaf of size %g x %g is over the largest size %g", n->w, n->h, c.mx);
        for (TObj* o = n->vRange.first; o < n->vRange.last; o++) own(o, n, "vortex");
        for (TObj* o = n->hRange.first; o < n->hRange.last; o++) own(o, n, "heat particle");
        for (TObj* o = n->sRange.first; o < n->sRange.last; o++) own(o, n, "ink particle");
        for (TObj* o: n->bllist) own(o, n, "segment");
        double gp = 0, gm = 0; TVec rp, rm;
        for (TObj* o = n->vRange.first; o < n->vRange.last; o++) { if (o->g > 0) { gp += o->g; rp += o->r*o->g; } else { gm += o->g; rm += o->r*o->g; } }
        double e = 1e-11*(fabs(n->x) + fabs(n->y) + n->w + n->h);
        CHECK(fabs(n->CMp.g-gp) <= 1e-12*gp && fabs(n->CMm.g-gm) <= -1e-12*gm, "strength", "a leaf has strengths %g %g instead of %g %g", n->CMp.g, n->CMm.g, gp, gm);
        if (gp > 0) CHECK((n->CMp.r-rp/gp).abs() <= e, "centre", "positive centre of a leaf is off by %g", (n->CMp.r-rp/gp).abs());
        if (gm < 0) CHECK((n->CMm.r-rm/gm).abs() <= e, "centre", "negative centre of a leaf is off by %g", (n->CMm.r-rm/gm).abs());
        CHECK(!(1/n->CMp._1_eps > 0) && !(1/n->CMm._1_eps > 0), "core", "the centre of a leaf has a core size");
    }
    size_t nv = v ? c.S.VortexList.size() : 0, nh = h ? c.S.HeatList.size() : 0, ns = c.S.StreakList.size(), nb = b ? segs.size() : 0;
    CHECK(owner.size() == nv+nh+ns+nb, "count", "the leaves hold %zu elements instead of %zu", owner.size(), nv+nh+ns+nb);
    if (v) for (auto& o: c.S.VortexList) CHECK(owner.count(&o), "lost", "a vortex is in no leaf");
    if (h) for (auto& o: c.S.HeatList) CHECK(owner.count(&o), "lost", "a heat particle is in no leaf");
    for (auto& o: c.S.StreakList) CHECK(owner.count(&o), "lost", "an ink particle is in no leaf");
    if (b) for (auto o: segs) CHECK(owner.count(o), "lost", "a segment is in no leaf");
    for (auto& o: owner) CHECK(t.findNode(o.first->r) == o.second, "find", "looking up (%.17g,%.17g) gives another leaf than the one that holds it", o.first->r.x, o.first->r.y);
    for (int i = 0; i < 20; i++) CHECK(leafset.count(t.findNode(TVec(s.anydouble(), s.anydouble()))), "find_any", "looking up a point gives no leaf");
    // interaction lists
    for (size_t q = 0; q < leaves.size(); q++) {
        const snode* n = leaves[q];
        if (leaves.size() > 300 && q % (leaves.size()/150) != 0) continue;
        std::map<const snode*, int> cover;
        for (auto f: *n->FarNodes) {
            double d2 = (TVec(f->x, f->y)-TVec(n->x, n->y)).abs2(), p = f->h+f->w+n->h+n->w;
            CHECK(d2 > c.far*p*p*(1-1e-12), "separation", "a far node at distance^2 %g is closer than %d half perimeters^2 = %g", d2, c.far, c.far*p*p);
            std::vector<const snode*> l; leaves_of(f, l); for (auto x: l) cover[x]++;
            double gp = 0, gm = 0, ag = 0; TVec rp, rm; double ext = 0; // aggregates of an inner node
            for (auto x: l) for (TObj* o = x->vRange.first; o < x->vRange.last; o++) {
                if (o->g > 0) { gp += o->g; rp += o->r*o->g; } else { gm += o->g; rm += o->r*o->g; }
                ag += fabs(o->g); ext = std::max(ext, o->r.abs());
                double e = 1e-13*(fabs(f->x) + fabs(f->y) + f->w + f->h);
                CHECK(fabs(o->r.x-f->x) <= f->w/2+e && fabs(o->r.y-f->y) <= f->h/2+e, "encloses_inner", "a vortex is outside an inner node above it");
            }
            CHECK(fabs(f->CMp.g-gp) <= 1e-11*ag && fabs(f->CMm.g-gm) <= 1e-11*ag, "strength_inner", "an inner node has strengths %g %g instead of %g %g", f->CMp.g, f->CMm.g, gp, gm);
            if (gp > 0) CHECK((f->CMp.r-rp/gp).abs() <= 1e-10*ext, "centre_inner", "positive centre of an inner node is off by %g", (f->CMp.r-rp/gp).abs());
            if (gm < 0) CHECK((f->CMm.r-rm/gm).abs() <= 1e-10*ext, "centre_inner", "negative centre of an inner node is off by %g", (f->CMm.r-rm/gm).abs());
        }
        for (auto x: *n->NearNodes) { CHECK(leafset.count(x), "near_leaf", "a near node is not a leaf"); cover[x]++; }
        for (auto x: leaves) CHECK(cover[x] == 1, "cover", "a leaf is covered %d times by the near and far lists of another", cover[x]);
        CHECK(cover.size() == leaves.size(), "cover", "near and far lists lead to %zu leaves of %zu", cover.size(), leaves.size());
    }
    s.nontrivial(leaves.size() > 1); if (leaves.size() > 8) s.label("many leaves");
}
static void prop_tree(Src& s) {
    Scene c; gen_scene(s, c);
    stree t(&c.S, c.far, c.mn, c.mx);
    L v = c.S.VortexList, h = c.S.HeatList, k = c.S.StreakList, g = c.S.SourceList;
    std::vector<L> bodies; for (auto& b: c.S.BodyList) bodies.push_back(L(b->alist.begin(), b->alist.end()));
    int rounds = s.range(1, 3);
    for (int i = 0; i < rounds; i++) {
        bool iv = s.draw(4) != 3, ib = s.draw(4) != 3, ih = s.draw(4) != 3;
        if (iv && ib && ih) t.build(); else t.build(iv, ib, ih);
        s.describe(fmt("; build(%d,%d,%d)", iv, ib, ih));
        check_tree(s, c, t, iv, ib, ih);
        if (s.draw(4) == 0) { auto before = t.getBottomNodes(); t.build(); CHECK(before == t.getBottomNodes(), "rebuild", "building a built tree changes it"); }
        CHECK(equal_sets(v, c.S.VortexList) && equal_sets(h, c.S.HeatList) && equal_sets(k, c.S.StreakList), "altered", "building the tree alters the particles");
        for (size_t j = 0; j < bodies.size(); j++) { auto& al = c.S.BodyList[j]->alist; L now(al.begin(), al.end()); CHECK(now.size() == bodies[j].size() && !memcmp(now.data(), bodies[j].data(), now.size()*sizeof(TObj)), "altered_body", "building the tree alters a body"); }
        t.destroy();
        CHECK(t.getBottomNodes().empty(), "destroy", "a destroyed tree has leaves");
        bool threw = false; try { t.findNode(TVec()); } catch (const std::exception&) { threw = true; }
        CHECK(threw, "find_unbuilt", "looking up in a tree that is not built gives no error");
        if (i+1 < rounds && s.flip()) { // the flow moves on between builds
            for (auto& o: c.S.VortexList) o.r += TVec(s.fine(-1, 1), s.fine(-1, 1))*c.mn;
            if (c.S.VortexList.size()) c.S.VortexList.pop_back(); else c.S.VortexList.push_back(TObj(1, 1, 1));
            v = c.S.VortexList;
        }
        h = c.S.HeatList; k = c.S.StreakList;
    }
}
// a flow may run away: coordinates that are huge, infinite or no numbers
static void prop_runaway(Src& s) {
    Scene c; double size = 1; L* lists[] = {&c.S.VortexList, &c.S.HeatList, &c.S.StreakList};
    int worst = s.draw(4); // finite; up to the largest numbers; infinite; no numbers
    auto wild = [&]() -> double {
        int k = s.draw(6 + worst);
        if (k < 4) return s.fine(-size, size);
        if (k == 4) return s.fine(-1, 1)*exp(s.fine(-700, 700));
        if (k == 5) return s.pick({1e300, -1e300, 0.0, -0.0, 5e-324});
        if (k == 6) return s.pick({1.7976931348623157e308, -1.7976931348623157e308});
        if (k == 7) return s.pick({(double)INFINITY, -(double)INFINITY});
        return NAN;
    };
    for (L* l: lists) { int n = s.sized(0, 60); for (int i = 0; i < n; i++) l->push_back(TObj(wild(), wild(), s.fine(-1, 1))); }
    int nb = s.draw(3);
    for (int i = 0; i < nb; i++) { gen::Poly p = gen::polygon(s, 3, 30); gen::transform(p, TVec(3.0*i, 0), s.fine(0, 7)); c.S.BodyList.push_back(body_of(p)); }
    c.S.EnumerateBodies();
    c.mn = s.pick({0.01, 0.1}); c.mx = s.pick({(double)INFINITY, 1.7976931348623157e308, 20*c.mn}); c.far = 8;
    s.describe(fmt("%zu vortices, %zu heat, %zu ink, %d bodies, kind %d, nodes %g..%g", c.S.VortexList.size(), c.S.HeatList.size(), c.S.StreakList.size(), nb, worst, c.mn, c.mx));
    L v = c.S.VortexList, h = c.S.HeatList, k = c.S.StreakList;
    stree t(&c.S, c.far, c.mn, c.mx); t.build();
    std::set<const TObj*> seen;
    auto own = [&](const TObj* o) { CHECK(seen.insert(o).second, "twice", "an element at (%g,%g) belongs to two leaves", o->r.x, o->r.y); };
    auto& leaves = t.getBottomNodes();
    for (auto n: leaves) {
        for (TObj* o = n->vRange.first; o < n->vRange.last; o++) own(o);
        for (TObj* o = n->hRange.first; o < n->hRange.last; o++) own(o);
        for (TObj* o = n->sRange.first; o < n->sRange.last; o++) own(o);
        for (TObj* o: n->bllist) own(o);
    }
    size_t segs = 0; for (auto& b: c.S.BodyList) { segs += b->size(); for (auto& a: b->alist) CHECK(seen.count(&a), "lost", "a segment is in no leaf"); }
    for (L* l: lists) for (auto& o: *l) CHECK(seen.count(&o), "lost", "a particle at (%g,%g) is in no leaf", o.r.x, o.r.y);
    CHECK(seen.size() == v.size()+h.size()+k.size()+segs, "count", "the leaves hold %zu elements", seen.size());
    CHECK(equal_sets(v, c.S.VortexList) && equal_sets(h, c.S.HeatList) && equal_sets(k, c.S.StreakList), "altered", "building the tree alters the particles");
    for (auto n: leaves) { // every leaf is covered once
        std::map<const snode*, int> cover; 
        for (auto f: *n->FarNodes) { std::vector<const snode*> l; leaves_of(f, l); for (auto x: l) cover[x]++; }
        for (auto x: *n->NearNodes) cover[x]++;
        for (auto x: leaves) CHECK(cover[x] == 1, "cover", "a leaf is covered %d times by the near and far lists of another", cover[x]);
    }
    for (int i = 0; i < 10; i++) CHECK(t.findNode(TVec(wild(), wild())), "find_any", "looking up a point gives no leaf");
    s.label(worst == 0 ? "finite" : worst == 1 ? "largest numbers" : worst == 2 ? "infinite" : "no numbers");
    s.nontrivial(seen.size() > 1);
}
int main(int argc, char** argv) { return main_run(argc, argv, "C10", { {"tree", 12000, 400000, prop_tree, 0}, {"runaway", 4000, 100000, prop_runaway, 0} }); }
