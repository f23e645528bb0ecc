// C12: the diffusive velocity equals its defining sums.
#include "gen.hpp"
#include "MEpsilonFast.hpp"
#include "MDiffusiveFast.hpp"
#include "MConvectiveFast.hpp"
using namespace pbt; using gen::cloud; using gen::body_of;
typedef long double ld;
struct V { ld x = 0, y = 0; V() {} V(ld x, ld y): x(x), y(y) {} V(TVec v): x(v.x), y(v.y) {} ld abs() const { return hypotl(x, y); } };
static V operator*(V v, ld k) { return V(v.x*k, v.y*k); }
struct Acc { V s2, s3; ld s1 = 0, s0 = 0, m2 = 0, m3 = 0, m0 = 0; bool edge = false; };
static void add(V& a, V b, ld& m) { a.x += b.x; a.y += b.y; m += b.abs(); }
static void prop(Src& s) {
    Space S; double size = s.pick({1.0, 0.1, 20.0});
    S.VortexList = cloud(s, s.thorough ? 300 : 120, size); S.HeatList = cloud(s, 80, size);
    S.re = s.pick({1.0, 100.0, 1e5, 0.01}); S.pr = s.pick({1.0, 0.7, 10.0});
    int nb = (int)s.draw(3);
    for (int i = 0; i < nb; i++) { gen::Poly p = gen::polygon(s, 6, 80); for (auto& v: p) v *= size*s.pick({0.3, 0.05, 1.0}); gen::transform(p, TVec(s.fine(-1, 1), s.fine(-1, 1))*size, s.fine(0, 7)); S.BodyList.push_back(body_of(p)); }
    S.EnumerateBodies(); double dl = S.average_segment_length();
    if (nb && s.flip()) for (auto* l: {&S.VortexList, &S.HeatList}) for (auto& o: *l) if (s.flip()) { // close to a surface
        auto& b = S.BodyList[s.draw(nb)]; auto& a = b->alist[s.draw(b->alist.size())]; o.r = a.corner + a.dl*s.unit() + rotl(a.dl)*s.fine(0.0001, 2); }
    double mn, mx; int far = s.pick({8, 3, 20});
    if (dl > 0 && s.flip()) { mn = 5*dl; mx = 100*dl; } else { mn = size*s.pick({0.02, 0.2, 0.005, 10.0}); mx = s.pick({(double)INFINITY, 20*mn}); }
    stree t(&S, far, mn, mx); t.build();
    bool real = s.flip(0.7), merge = s.flip();
    if (real) { MEpsilonFast m(&S, &t); m.CalcEpsilonFast(merge); s.label(merge ? "merged" : "computed cores"); }
    else for (auto* l: {&S.VortexList, &S.HeatList}) for (auto& o: *l) o._1_eps = 1/(size*s.logreal(1e-3, 3));
    bool zero = s.flip();
    for (auto* l: {&S.VortexList, &S.HeatList}) for (auto& o: *l) o.v = zero ? TVec() : TVec(s.fine(-1, 1), s.fine(-1, 1));
    std::map<TAtt*, ld> fric, fmag; std::set<TAtt*> fedge;
    for (auto& b: S.BodyList) for (auto& a: b->alist) { a.fric = zero ? 0 : s.fine(-1, 1); fric[&a] = a.fric; fmag[&a] = fabs(a.fric); }
    s.describe(fmt("%zu vortices %zu heat size %g re %g pr %g, %d bodies, tree %d %g %g", S.VortexList.size(), S.HeatList.size(), size, S.re, S.pr, nb, far, mn, mx));
    auto v0 = S.VortexList, h0 = S.HeatList; std::vector<std::pair<TObj*, std::pair<V, ld>>> want; std::set<TObj*> skip;
    for (int kind = 0; kind < 2; kind++) for (auto n: t.getBottomNodes()) {
        auto& r = kind ? n->hRange : n->vRange;
        for (TObj* o = r.first; o < r.last; o++) {
            if (!o->g) { want.push_back({o, {V(o->v), 0}}); continue; }
            Acc c; ld ie = o->_1_eps; int same = 0, segs = 0;
            for (auto k: *n->NearNodes) {
                auto& q = kind ? k->hRange : k->vRange;
                for (TObj* j = q.first; j < q.last; j++) {
                    if (j == o || !j->g || (j->g > 0) != (o->g > 0)) continue;
                    V d((ld)o->r.x-j->r.x, (ld)o->r.y-j->r.y); ld a = d.abs(); if (fabsl(d.x)+fabsl(d.y) < 1e-10L) continue; // one place
                    ld ex = a*ie; if (fabsl(ex-8) < 1e-9) c.edge = true; if (ex > 8) continue;
                    ld w = j->g*expl(-ex); add(c.s2, d*(w/a), c.m2); c.s1 += w; same++;
                }
                for (TObj* jo: k->bllist) {
                    TAtt* j = static_cast<TAtt*>(jo); V d((ld)o->r.x-j->r.x, (ld)o->r.y-j->r.y); ld a = d.abs();
                    if (a < 1e-9*size) { c.edge = true; fedge.insert(j); continue; }
                    ld ex = a*ie; if (fabsl(ex-8) < 1e-9) { c.edge = true; fedge.insert(j); } if (ex > 8) continue;
                    V nS(-j->dl.y, j->dl.x); ld e = expl(-ex); add(c.s3, nS*e, c.m3); ld q0 = (ex+1)/(a*a)*(d.x*nS.x+d.y*nS.y)*e; c.s0 += q0; c.m0 += fabsl(q0); segs++;
                    if (!kind) { ld f = ie*ie*o->g*e*nS.abs(); fric[j] += f; fmag[j] += fabsl(f); }
                }
            }
            ld m = fabsl(o->v.x)+fabsl(o->v.y); V w(o->v);
            if (same && segs) s.label("vortices and surface"); if (same || segs) s.nontrivial();
            if (fabsl(fabsl(c.s1) - fabsl(0.1L*o->g)) < 1e-9L*fabsl(o->g)) c.edge = true;
            if (fabsl(c.s1) < fabsl(0.1L*o->g)) { c.s1 = 0.1L*o->g; s.label("weak neighbours"); }
            if (!kind) {
                if (c.s0 > M_PIl) { c.s0 = M_PIl; s.label("corner limit"); }
                ld re = S.re, den = re*(2*M_PIl-c.s0), k1 = ie/(re*c.s1), k3 = ie*ie/den;
                w.x += k1*c.s2.x + k3*c.s3.x; w.y += k1*c.s2.y + k3*c.s3.y; m += fabsl(k1)*c.m2 + fabsl(k3)*c.m3*(1+c.m0/fabsl(2*M_PIl-c.s0));
            } else {
                ld den = c.s1 + c.s0/(ie*ie), cond = (fabsl(c.s1)+c.m0/(ie*ie))/fabsl(den); if (!(cond < 1e6)) c.edge = true;
                ld k = 1/den/((ld)S.pr*S.re); w.x += k*(ie*c.s2.x+c.s3.x); w.y += k*(ie*c.s2.y+c.s3.y); m += fabsl(k)*(ie*c.m2+c.m3)*(1+cond);
            }
            if (c.edge) { skip.insert(o); s.label("edge"); } else want.push_back({o, {w, m}});
        }
    }
    MDiffusiveFast d(&S, &t); d.process_vort_list();
    for (size_t i = 0; i < h0.size(); i++) { auto &a = h0[i], &b = S.HeatList[i]; CHECK(a.v.x == b.v.x && a.v.y == b.v.y, "cross", "diffusion of vortices moves heat"); }
    auto f1 = fric; for (auto& b: S.BodyList) for (auto& a: b->alist) {
        f1[&a] = a.fric; if (fedge.count(&a)) continue;
        CHECK(fabsl(a.fric-fric[&a]) <= 1e-11L*fmag[&a], "friction", "friction of a segment is %.12g instead of %.12Lg", a.fric, fric[&a]);
    }
    auto v1 = S.VortexList;
    d.process_heat_list();
    for (size_t i = 0; i < v1.size(); i++) { auto &a = v1[i], &b = S.VortexList[i]; CHECK(a.v.x == b.v.x && a.v.y == b.v.y, "cross", "diffusion of heat moves vortices"); }
    for (auto& b: S.BodyList) for (auto& a: b->alist) CHECK(a.fric == (double)f1[&a], "cross", "diffusion of heat rubs a surface");
    for (auto& w: want) { V g(w.first->v), e = w.second.first; ld err = hypotl(g.x-e.x, g.y-e.y);
        CHECK(err <= 1e-11L*w.second.second, w.first >= S.HeatList.data() && w.first < S.HeatList.data()+S.HeatList.size() ? "heat" : "vortex", "diffusive velocity (%.12Lg,%.12Lg) instead of (%.12Lg,%.12Lg) for strength %g at (%.10g,%.10g)", g.x, g.y, e.x, e.y, w.first->g, w.first->r.x, w.first->r.y); }
    for (size_t i = 0; i < v0.size(); i++) { auto &a = v0[i], &b = S.VortexList[i]; CHECK(a.r.x == b.r.x && a.r.y == b.r.y && a.g == b.g && a._1_eps == b._1_eps, "touched", "diffusion changes more than the velocity"); }
    for (size_t i = 0; i < h0.size(); i++) { auto &a = h0[i], &b = S.HeatList[i]; CHECK(a.r.x == b.r.x && a.r.y == b.r.y && a.g == b.g && a._1_eps == b._1_eps, "touched", "diffusion changes more than the velocity"); }
}
// whatever the particles, no velocity becomes infinite or NaN
static void prop_finite(Src& s) {
    Space S; double size = s.pick({1.0, 0.1, 20.0}); int n = (int)s.draw(6);
    for (auto* l: {&S.VortexList, &S.HeatList}) { for (int i = 0; i < n; i++) { TVec p(s.fine(-1, 1)*size, s.fine(-1, 1)*size); if (l->size() && s.flip()) p = (*l)[s.draw(l->size())].r; l->push_back(TObj(p, s.fine(-3, 3)*s.pick({1.0, 10.0, 1e-6}))); } n = (int)s.draw(4); }
    if (s.draw(4) == 0) { gen::Poly p = gen::polygon(s, 6, 40); gen::transform(p, TVec(30, 0)*size*s.pick({1.0, -1.0, 100.0}), 0); S.BodyList.push_back(body_of(p)); S.EnumerateBodies(); }
    S.re = s.pick({100.0, 1.0, 1e5}); S.pr = 1; double dl = S.average_segment_length();
    stree t(&S, 8, dl > 0 ? dl*5 : 0, dl > 0 ? dl*100 : std::numeric_limits<double>::max()); t.build();
    s.describe(fmt("%zu vortices %zu heat %zu bodies", S.VortexList.size(), S.HeatList.size(), S.BodyList.size()));
    if (S.VortexList.size() + S.HeatList.size()) s.nontrivial();
    MEpsilonFast m(&S, &t); m.CalcEpsilonFast(true); MConvectiveFast c(&S, &t); c.process_all_lists(); MDiffusiveFast d(&S, &t); d.process_vort_list(); d.process_heat_list();
    for (auto* l: {&S.VortexList, &S.HeatList}) for (auto& o: *l) if (o.g) CHECK(std::isfinite(o.v.x) && std::isfinite(o.v.y), "finite", "a particle of strength %g gets velocity (%g,%g)", o.g, o.v.x, o.v.y);
}
// what is found at the segments adds up to the forces on the bodies, step after step
static void prop_forces(Src& s) {
    Space S; int nb = s.range(1, 3), steps = s.range(1, 4); S.dt = s.draw(4) ? TTime(1, s.range(2, 200)) : TTime(s.range(2, 9), s.range(1, 5)); S.re = s.pick({100.0, 1.0, 5e4}); S.pr = s.pick({1.0, 0.7, 10.0}); double dt = S.dt, PI = M_PI;
    for (int i = 0; i < nb; i++) { gen::Poly p = gen::polygon(s, 3, 40); gen::transform(p, TVec(s.fine(-9, 9), s.fine(-9, 9)), s.fine(0, 7)); auto b = body_of(p); TVec c = b->get_cofm(); b->holder = TVec3D(c.x+s.fine(-1, 1), c.y, 1); b->dpos = TVec3D(0, s.draw(2) ? s.fine(-1, 1) : 0, 0); S.BodyList.push_back(b); } S.EnumerateBodies();
    struct A { ld cp = 0, fr = 0, nu = 0; }; std::map<const TAtt*, A> acc; s.describe(fmt("%d bodies, %d steps, Re %g", nb, steps, S.re)); s.nontrivial(steps > 1); std::vector<TVec3D> last(nb);
    for (int k = 0; k < steps; k++) {
        for (auto& b: S.BodyList) { for (auto& a: b->alist) { a.fric = s.fine(-1, 1); a.gsum = s.fine(-1, 1); a.hsum = s.draw(3) ? s.fine(-1, 1) : 0; } b->fdt_dead = TVec3D(1, 2, 3); b->g_dead = 4; b->force_hydro = b->force_holder = TVec3D(5, 6, 7); }
        S.calc_forces(); int i = 0;
        for (auto& b: S.BodyList) { ld x = 0, y = 0, o = 0, m = 0, q = 0, qm = 0, p = 0, pm = 0; TVec ax = b->get_axis();
            for (auto& a: b->alist) { ld l = hypotl(a.dl.x, a.dl.y), f = a.fric/(PI*S.re), fx = -f*a.dl.x/l, fy = -f*a.dl.y/l, rx = (ld)a.r.x-ax.x, ry = (ld)a.r.y-ax.y; x += fx; y += fy; o += rx*fy-ry*fx; m += fabsl(f)*(1+hypotl(rx, ry)); q += a.hsum*S.re*S.pr/dt; qm += fabsl(a.hsum*S.re*S.pr/dt); p += a.gsum; pm += fabsl(a.gsum);
                A& w = acc[&a]; w.cp += p; w.fr += f*dt; w.nu += a.hsum*S.re*S.pr/l; CHECK(fabsl(a.Cp-w.cp) <= 1e-13L*(fabsl(w.cp)+pm*(k+1)) && fabsl(a.Fr-w.fr) <= 1e-14L*(fabsl(w.fr)+(k+1)*dt/S.re) && fabsl(a.Nu-w.nu) <= 1e-12L*(fabsl(w.nu)+(k+1)*S.re*S.pr/l), "profile", "profile at a segment after %d steps: %g %g %g instead of %Lg %Lg %Lg", k+1, a.Cp, a.Fr, a.Nu, w.cp, w.fr, w.nu); }
            CHECK(fabsl(b->friction.r.x-x) + fabsl(b->friction.r.y-y) + fabsl(b->friction.o-o) <= 1e-12L*m, "sum_of_friction", "friction of body %d is (%.9g,%.9g), moment %.9g instead of (%.9Lg,%.9Lg), %.9Lg", i, b->friction.r.x, b->friction.r.y, b->friction.o, x, y, o);
            CHECK(fabsl(b->nusselt-q) <= 1e-12L*qm, "sum_of_heat", "heat of body %d is %.9g instead of %.9Lg", i, b->nusselt, q); last[i++] = b->friction; }
        S.zero_forces(); i = 0;
        for (auto& b: S.BodyList) { auto& f = last[i]; CHECK(b->friction_prev.r.x == f.r.x && b->friction_prev.r.y == f.r.y && b->friction_prev.o == f.o, "friction_prev", "friction of body %d is not kept for the next step", i); i++;
            CHECK(b->friction.r.abs()+fabs(b->friction.o)+b->fdt_dead.r.abs()+fabs(b->fdt_dead.o)+fabs(b->g_dead)+fabs(b->nusselt)+b->force_hydro.r.abs()+b->force_holder.r.abs()+fabs(b->force_hydro.o)+fabs(b->force_holder.o) == 0, "zero", "an account of body %d is not cleared", i);
            for (auto& a: b->alist) CHECK(a.fric == 0 && a.gsum == 0 && a.hsum == 0 && a.heat_layer_obj_no == -1 && a.Cp == (double)a.Cp, "zero", "an account of a segment of body %d is not cleared", i); }
    }
}
int main(int argc, char** argv) { return main_run(argc, argv, "C12", { {"sums", 30000, 600000, prop, 0}, {"finite", 20000, 500000, prop_finite, 0}, {"forces", 6000, 200000, prop_forces, 0} }); }
