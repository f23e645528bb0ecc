// C13: core sizes follow the neighbours; merging conserves circulation.
#include "gen.hpp"
#include "MEpsilonFast.hpp"
using namespace pbt; using gen::cloud; using gen::body_of;

struct Scene { Space S; double size, dl; };
static void gen_scene(Src& s, Scene& c, bool generic) {
    c.size = s.pick({1.0, 0.1, 20.0});
    c.S.VortexList = cloud(s, s.thorough ? 400 : 150, c.size, TVec(), 0); c.S.HeatList = cloud(s, 60, c.size);
    if (generic) for (auto* l: {&c.S.VortexList, &c.S.HeatList}) for (auto& o: *l) o.r += TVec(s.fine(-1, 1), s.fine(-1, 1))*(1e-3*c.size); // no ties
    if (c.S.VortexList.size() > 3 && s.draw(2)) { // pairs about as close as the merging limit
        int n = s.range(1, 6); for (int i = 0; i < n; i++) { auto& v = c.S.VortexList; size_t a = s.draw(v.size()), b = s.draw(v.size()); if (a != b) { double r = c.size*s.logreal(1e-3, 0.05), t = s.fine(0, 7); v[b].r = v[a].r + TVec(r*cos(t), r*sin(t)); if (s.flip()) v[b].g = -v[b].g; } }
        s.label("close pairs");
    }
    int nb = (int)s.draw(3);
    for (int i = 0; i < nb; i++) { gen::Poly p = gen::polygon(s, 8, 120); for (auto& v: p) v *= c.size*s.pick({0.3, 0.05}); gen::transform(p, TVec(s.fine(-1, 1), s.fine(-1, 1))*(c.size*s.pick({1.0, 3.0})), s.fine(0, 7)); c.S.BodyList.push_back(body_of(p)); }
    c.S.EnumerateBodies(); c.dl = c.S.average_segment_length();
    for (auto* l: {&c.S.VortexList, &c.S.HeatList}) for (auto& o: *l) { o.v = TVec(1, 2); o._1_eps = 5; }
    s.describe(fmt("%zu vortices %zu heat size %g, %d bodies", c.S.VortexList.size(), c.S.HeatList.size(), c.size, nb));
}
static void gen_tree(Src& s, Scene& c, double& mn, double& mx, int& far) {
    far = s.pick({8, 8, 3, 20});
    if (c.dl > 0 && s.flip()) { mn = 5*c.dl; mx = 100*c.dl; } else { mn = c.size*s.pick({0.02, 0.2, 0.005, 10.0}); mx = s.pick({(double)INFINITY, 20*mn}); }
    s.describe(fmt(" tree %d %g %g", far, mn, mx));
}
struct Lim { double dl_lo, dl_hi, m_lo, m_hi; bool none; }; // what the nearest surface may be
static Lim limits(const Scene& c, const snode* n) {
    Lim l = {0, 0, 0, 0, true}; TVec q(n->x, n->y); double best = INFINITY; const TObj* b = 0;
    for (auto k: *n->NearNodes) for (TObj* a: k->bllist) { double d = (a->r-q).abs2(); if (d < best) { best = d; b = a; } }
    auto lim = [&](const TAtt* a) { return 0.16*a->dl.abs2()*(1+(q-a->r).abs()); };
    if (b) { // ties of the nearest segment
        double lo = INFINITY, hi = 0, ml = INFINITY, mh = 0;
        for (auto k: *n->NearNodes) for (TObj* a: k->bllist) if ((a->r-q).abs2() <= best*(1+1e-12)) { const TAtt* t = static_cast<const TAtt*>(a); lo = std::min(lo, t->dl.abs()); hi = std::max(hi, t->dl.abs()); ml = std::min(ml, lim(t)); mh = std::max(mh, lim(t)); }
        return {lo/3, hi/3, ml*(1-1e-12), mh*(1+1e-12), false};
    }
    double lo = INFINITY, hi = 0, ml = INFINITY, mh = 0; // none near: the code takes roughly the nearest of all
    for (auto& B: c.S.BodyList) for (auto& a: B->alist) { lo = std::min(lo, a.dl.abs()); hi = std::max(hi, a.dl.abs()); ml = std::min(ml, lim(&a)); mh = std::max(mh, lim(&a)); }
    if (c.S.BodyList.empty()) return l;
    return {lo/3, hi/3, ml, mh, false};
}
struct Nb { const TObj *a = 0, *b = 0; double d1 = INFINITY, d2 = INFINITY, d3 = INFINITY; };
static Nb nearest(const std::vector<TObj*>& l, const TObj* o) {
    Nb n; for (const TObj* q: l) { if (q == o || !q->g) continue; double d = (q->r-o->r).abs2(); if (d < n.d1) { n.d3 = n.d2; n.d2 = n.d1; n.b = n.a; n.d1 = d; n.a = q; } else if (d < n.d2) { n.d3 = n.d2; n.d2 = d; n.b = q; } else if (d < n.d3) n.d3 = d; }
    return n;
}
static double sz(const Nb& n) { return !n.a ? 0 : sqrt(n.b ? n.d2 : n.d1); }
static void check_eps(const TObj& o, double want, const Lim& l, const char* key, const char* what) {
    double lo = std::max(want, l.none ? 0 : l.dl_lo), hi = std::max(want, l.none ? 0 : l.dl_hi), e = 1/o._1_eps;
    CHECK(e >= lo*(1-1e-12) && e <= hi*(1+1e-12)+1e-99, key, "core size of a %s at (%.10g,%.10g) is %.12g instead of %.12g..%.12g", what, o.r.x, o.r.y, e, lo, hi);
}
static void prop_eps(Src& s) { // no merging: nothing but the core sizes changes
    Scene c; gen_scene(s, c, false); double mn, mx; int far; gen_tree(s, c, mn, mx, far);
    stree t(&c.S, far, mn, mx); t.build();
    auto v = c.S.VortexList, h = c.S.HeatList;
    MEpsilonFast m(&c.S, &t); m.CalcEpsilonFast(false);
    CHECK(m.Merged() == 0, "merged", "%d particles are merged without merging", m.Merged());
    for (size_t i = 0; i < v.size(); i++) { auto &a = v[i], &b = c.S.VortexList[i]; CHECK(a.r.x == b.r.x && a.r.y == b.r.y && a.g == b.g && a.v.x == b.v.x && a.v.y == b.v.y, "touched", "computing core sizes changes a vortex"); if (!a.g) CHECK(a._1_eps == b._1_eps, "inert", "an inert vortex got a core size"); }
    for (size_t i = 0; i < h.size(); i++) { auto &a = h[i], &b = c.S.HeatList[i]; CHECK(a.r.x == b.r.x && a.r.y == b.r.y && a.g == b.g && a.v.x == b.v.x && a.v.y == b.v.y, "touched", "computing core sizes changes a heat particle"); if (!a.g) CHECK(a._1_eps == b._1_eps, "inert", "an inert heat particle got a core size"); }
    std::vector<TObj*> allv, allh; for (auto& o: c.S.VortexList) allv.push_back(&o); for (auto& o: c.S.HeatList) allh.push_back(&o);
    for (auto n: t.getBottomNodes()) {
        Lim l = limits(c, n); std::vector<TObj*> nv, nh;
        for (auto k: *n->NearNodes) { for (TObj* o = k->vRange.first; o < k->vRange.last; o++) nv.push_back(o); for (TObj* o = k->hRange.first; o < k->hRange.last; o++) nh.push_back(o); }
        int nzv = 0, nzh = 0; for (TObj* o = n->vRange.first; o < n->vRange.last; o++) nzv += o->g != 0; for (TObj* o = n->hRange.first; o < n->hRange.last; o++) nzh += o->g != 0;
        // with three in the leaf no neighbour that counts can be outside the near nodes, so all have to be searched
        for (TObj* o = n->vRange.first; o < n->vRange.last; o++) if (o->g) { check_eps(*o, sz(nearest(nzv >= 3 ? allv : nv, o)), l, "eps_vortex", "vortex"); s.nontrivial(); if (nzv >= 3) s.label("all searched"); }
        for (TObj* o = n->hRange.first; o < n->hRange.last; o++) if (o->g) { check_eps(*o, sz(nearest(nzh >= 3 ? allh : nh, o)), l, "eps_heat", "heat particle"); s.nontrivial(); }
    }
    // helpers for fields
    for (auto n: t.getBottomNodes()) for (int k = 0; k < 2; k++) {
        TVec p(n->x + s.fine(-1, 1)*(n->w+0.01*c.size), n->y + s.fine(-1, 1)*(n->h+0.01*c.size)); if (n->vRange.first < n->vRange.last && s.flip()) p = n->vRange.first->r;
        std::vector<double> d; double hb = INFINITY; for (auto q: *n->NearNodes) { for (TObj* o = q->vRange.first; o < q->vRange.last; o++) if ((o->r-p).abs2()) d.push_back((o->r-p).abs2()); for (TObj* a: q->bllist) hb = std::min(hb, (a->r-p).abs2()); }
        std::sort(d.begin(), d.end()); double got = MEpsilonFast::eps2h(*n, p);
        if (d.empty()) CHECK(got < 0, "eps2h", "no neighbour gives distance^2 %g", got);
        else CHECK(fabs(got-d[d.size() > 1]) <= 1e-12*got, "eps2h", "distance^2 to the second neighbour is %g instead of %g", got, d[d.size() > 1]);
        double gh = MEpsilonFast::h2(*n, p); CHECK(gh == hb || fabs(gh-hb) <= 1e-12*hb, "h2", "distance^2 to the surface is %g instead of %g", gh, hb);
    }
}
static int sg(double g) { return g > 0 ? 1 : g < 0 ? -1 : 0; }
static void absorb(TObj& a, TObj& b) {
    if (sg(a.g) == sg(b.g)) a.r = (a.r*a.g + b.r*b.g)/(a.g+b.g); else if (fabs(a.g) < fabs(b.g)) a.r = b.r;
    a.g += b.g; b.g = 0;
}
static void prop_merge(Src& s) { // model: particle by particle in the order of the tree
    Scene c; gen_scene(s, c, true); double mn, mx; int far; gen_tree(s, c, mn, mx, far);
    stree t(&c.S, far, mn, mx); t.build();
    std::vector<TObj> v = c.S.VortexList, h = c.S.HeatList; // the model's copy, same order
    std::map<const TObj*, TObj*> cp; for (size_t i = 0; i < v.size(); i++) cp[&c.S.VortexList[i]] = &v[i]; for (size_t i = 0; i < h.size(); i++) cp[&c.S.HeatList[i]] = &h[i];
    int merged = 0; bool unsure = false; std::map<const TObj*, std::pair<double, Lim>> want;
    for (auto n: t.getBottomNodes()) {
        Lim l = limits(c, n);
        for (int kind = 0; kind < 2; kind++) {
            std::vector<TObj*> near; for (auto k: *n->NearNodes) { auto& r = kind ? k->hRange : k->vRange; for (TObj* o = r.first; o < r.last; o++) near.push_back(cp[o]); }
            auto& r = kind ? n->hRange : n->vRange;
            for (TObj* q = r.first; q < r.last; q++) {
                TObj* o = cp[q]; if (!o->g) continue;
                Nb b = nearest(near, o);
                if (b.a && b.d2 < b.d1*(1+1e-9)) unsure = true; if (b.b && b.d3 < b.d2*(1+1e-9)) unsure = true;
                if (b.a && b.b) {
                    bool close = !l.none && b.d1 < l.m_lo, maybe = !l.none && b.d1 < l.m_hi*(1+1e-9) && b.d1 >= l.m_lo*(1-1e-9);
                    bool alone = !kind && sg(b.a->g) == sg(b.b->g) && sg(b.a->g) != sg(o->g);
                    if (maybe && !alone) unsure = true;
                    if (close || alone) { absorb(*o, *const_cast<TObj*>(b.a)); merged++; b = nearest(near, o); }
                }
                want[q] = {sz(b), l};
                if (unsure) break;
            }
            if (unsure) break;
        }
        if (unsure) break;
    }
    double G = 0, A = 0, H = 0, AH = 0; for (auto& o: c.S.VortexList) { G += o.g; A += fabs(o.g); } for (auto& o: c.S.HeatList) { H += o.g; AH += fabs(o.g); }
    size_t nv = c.S.VortexList.size();
    MEpsilonFast m(&c.S, &t); m.CalcEpsilonFast(true);
    double G2 = 0, H2 = 0; for (auto& o: c.S.VortexList) G2 += o.g; for (auto& o: c.S.HeatList) H2 += o.g;
    CHECK(fabs(G-G2) <= 1e-13*A && fabs(H-H2) <= 1e-13*AH, "conserve", "merging changes the total strength by %g (heat %g)", G2-G, H2-H);
    CHECK(c.S.VortexList.size() == nv, "lost", "merging changes the number of particles in the list");
    if (unsure) { s.label("tie: conservation only"); return; }
    CHECK(m.Merged() == merged, "merges", "%d mergers instead of %d", m.Merged(), merged);
    if (merged) { s.nontrivial(); s.label("merged"); }
    for (auto& q: cp) {
        const TObj &o = *q.first, &w = *q.second; double e = 1e-13*(w.r.abs()+c.size);
        CHECK(fabs(o.g-w.g) <= 1e-14*A+1e-300 && (o.r-w.r).abs() <= e, "result", "a particle ends at (%.12g,%.12g) with strength %.12g instead of (%.12g,%.12g) with %.12g", o.r.x, o.r.y, o.g, w.r.x, w.r.y, w.g);
    }
    for (auto& q: want) { double lo = std::max(q.second.first, q.second.second.none ? 0 : q.second.second.dl_lo), hi = std::max(q.second.first, q.second.second.none ? 0 : q.second.second.dl_hi), e = 1/q.first->_1_eps; CHECK(e >= lo*(1-1e-9) && e <= hi*(1+1e-9)+1e-99, "eps_merge", "core size after merging is %.12g instead of %.12g..%.12g", e, lo, hi); }
}
int main(int argc, char** argv) { return main_run(argc, argv, "C13", { {"eps", 8000, 300000, prop_eps, 0}, {"merge", 20000, 600000, prop_merge, 0} }); }
