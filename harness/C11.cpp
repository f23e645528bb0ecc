// C11: the fast velocity equals the direct sum.
#include "gen.hpp"
#include "MConvectiveFast.hpp"
#include "flow.hpp"
using namespace pbt; using gen::cloud; using gen::body_of;
static void gen_scene(Src& s, Space& S, double& size) {
    size = s.pick({1.0, 0.05, 30.0});
    S.VortexList = cloud(s, s.thorough ? 1000 : 300, size); S.HeatList = cloud(s, 30, size); S.StreakList = cloud(s, 30, size); S.SourceList = cloud(s, 4, size);
    for (auto* l: {&S.VortexList, &S.HeatList, &S.StreakList}) for (auto& o: *l) { o.v = s.flip() ? TVec() : TVec(s.fine(-1, 1), s.fine(-1, 1)); o._1_eps = 1/(size*s.logreal(1e-4, 1e-2)); }
    for (auto& q: S.SourceList) q.g *= 10;
    S.dt = TTime(s.range(1, 100), 1000); S.time = TTime(s.range(0, 5000), 1000);
    S.inf_vx = s.pick({"0", "1", "sin(t)", "0.5*t"}); S.inf_vy = s.pick({"0", "-1", "cos(t)", "t/3"});
    int nb = (int)s.draw(3);
    for (int i = 0; i < nb; i++) {
        gen::Poly p = gen::polygon(s, 3, 80); for (auto& v: p) v *= size*0.3;
        gen::transform(p, TVec(s.real(-size, size), s.real(-size, size)), s.fine(0, 7));
        auto b = body_of(p); S.BodyList.push_back(b);
        b->holder = TVec3D(s.fine(-size, size), s.fine(-size, size), s.fine(-3, 3)); if (s.flip()) b->dpos = TVec3D(s.fine(-size, size), s.fine(-size, size), s.fine(-3, 3));
        if (s.flip()) b->speed_slae = TVec3D(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
        int sl = (int)s.draw(3); for (auto& a: b->alist) { a.slip = sl == 1 ? 1 : sl == 2 ? s.draw(2) : 0; a.g = 0.02*s.fine(-1, 1); }
        b->doUpdateSegments(); b->doFillProperties();
    }
    S.EnumerateBodies();
    s.describe(fmt("%zu vortices %zu sinks size %g inf (%g,%g) dt %g, %d bodies", S.VortexList.size(), S.SourceList.size(), size, S.inf_speed().x, S.inf_speed().y, double(S.dt), nb));
    for (auto& b: S.BodyList) s.describe(fmt(" [%zu corners v(%.3g,%.3g,%.3g) slip %d]", b->size(), b->speed_slae.r.x, b->speed_slae.r.y, b->speed_slae.o, b->get_slip()));
}
static TVec query(Src& s, const Space& S, double size) {
    switch (s.draw(6)) {
        case 0: if (S.VortexList.size()) return S.VortexList[s.draw(S.VortexList.size())].r; // fallthrough
        case 1: if (S.VortexList.size()) { return S.VortexList[s.draw(S.VortexList.size())].r + TVec(s.fine(-1, 1), s.fine(-1, 1))*(size*0.01); } // fallthrough
        case 2: if (S.BodyList.size()) { auto& b = *S.BodyList[s.draw(S.BodyList.size())]; auto& a = b.alist[s.draw(b.size())]; return a.r + TVec(s.fine(-2, 2), s.fine(-2, 2))*a.dl.abs(); } // fallthrough
        case 3: if (S.SourceList.size()) { return S.SourceList[s.draw(S.SourceList.size())].r + TVec(s.fine(-1, 1), s.fine(-1, 1))*(size*0.01); } // fallthrough
        case 4: return TVec(s.fine(-10, 10), s.fine(-10, 10))*size;
        default: return TVec(s.real(-1, 1), s.real(-1, 1))*size;
    }
}
static void compare(const char* key, TVec got, Sum& o, ld bound, TVec p) {
    if (!std::isfinite((double)bound)) return;
    ld tol = (bound*1.001L + 1e-11L*o.mag)/TWOPI + 1e-300L;
    ld ex = got.x - o.w.real()/TWOPI, ey = got.y + o.w.imag()/TWOPI, e = sqrtl(ex*ex+ey*ey);
    CHECK(e <= tol, key, "velocity at (%.10g,%.10g) is (%.12g,%.12g), direct sum gives (%.12Lg,%.12Lg); off by %.3Lg, allowed %.3Lg", p.x, p.y, got.x, got.y, o.w.real()/TWOPI, -o.w.imag()/TWOPI, e, tol);
}
static void check_all(Src& s, Space& S, stree& t, double size, bool exact) {
    MConvectiveFast conv(&S, &t);
    int pts = s.thorough ? 60 : 25; long tested = 0;
    for (int i = 0; i < pts; i++) {
        TVec p = query(s, S, size); Sum o; if (!others(S, p, o)) continue;
        direct(S.VortexList, p, o); ld b = exact ? 0 : far_error(t.findNode(p), p, false);
        if (std::isfinite((double)b)) tested++;
        compare(exact ? "point_exact" : "point", conv.velocity(p), o, b, p);
    }
    std::vector<TObj> v0 = S.VortexList, h0 = S.HeatList, k0 = S.StreakList;
    conv.process_all_lists();
    struct { std::vector<TObj> *a, *b; bool skip; const char* n; } ls[] = {{&v0, &S.VortexList, true, "list_vortex"}, {&h0, &S.HeatList, true, "list_heat"}, {&k0, &S.StreakList, false, "list_ink"}};
    for (auto& l: ls) for (size_t i = 0; i < l.a->size(); i++) {
        TObj &a = (*l.a)[i], &b = (*l.b)[i];
        CHECK(a.r.x == b.r.x && a.r.y == b.r.y && a.g == b.g && a._1_eps == b._1_eps, "touched", "computing velocities changes a particle");
        if (l.skip && !a.g) { CHECK(a.v.x == b.v.x && a.v.y == b.v.y, "inert", "a particle of zero strength got a velocity"); continue; }
        if (l.a->size() > 60 && i % (l.a->size()/30) != s.index % 7) continue;
        Sum o; if (!others(S, a.r, o)) continue; direct(v0, a.r, o);
        o.add(TWOPI*cl(a.v.x, -a.v.y));
        ld bound = exact ? 0 : far_error(t.findNode(a.r), a.r, true); if (std::isfinite((double)bound)) tested++;
        compare(l.n, b.v, o, bound, a.r);
    }
    s.nontrivial(tested > 0 && (exact || t.getBottomNodes().size() > 1));
}
static void prop_exact(Src& s) { // one leaf: nothing is far
    Space S; double size; gen_scene(s, S, size);
    stree t(&S, 8, INFINITY, INFINITY); t.build(); CHECK(t.getBottomNodes().size() == 1, "one_leaf", "the tree has more than one leaf");
    check_all(s, S, t, size, true);
}
static void prop_fast(Src& s) {
    Space S; double size; gen_scene(s, S, size);
    int far = s.pick({8, 8, 2, 30, 200}); double mn = size*s.pick({0.02, 0.1, 0.5, 0.002}), mx = s.pick({(double)INFINITY, 20*mn, 1.5*mn});
    s.describe(fmt(" tree %d %g %g", far, mn, mx));
    stree t(&S, far, mn, mx); bool heat = s.draw(4) != 3; (void)heat; t.build(); check_all(s, S, t, size, false);
    if (t.getBottomNodes().size()) for (auto f: t.getBottomNodes()) if (f->FarNodes->size()) { s.label("has far nodes"); break; }
}
// the whole is the sum of its parts, whichever way the flow is cut
static void prop_parts(Src& s) {
    Space S; double size; gen_scene(s, S, size); TVec p = query(s, S, size); Sum o; if (!others(S, p, o)) return; direct(S.VortexList, p, o);
    auto vel = [&](Space& A) { stree t(&A, 8, INFINITY, INFINITY); t.build(); return MConvectiveFast(&A, &t).velocity(p); };
    TVec whole = vel(S), sum; s.nontrivial();
    { Space A; A.dt = S.dt; A.time = S.time; A.VortexList = S.VortexList; sum += vel(A); }
    { Space A; A.dt = S.dt; A.time = S.time; A.SourceList = S.SourceList; sum += vel(A); }
    { Space A; A.dt = S.dt; A.time = S.time; A.inf_vx = std::string(S.inf_vx); A.inf_vy = std::string(S.inf_vy); sum += vel(A); }
    for (auto& b: S.BodyList) { Space A; A.dt = S.dt; A.time = S.time; A.BodyList.push_back(b); sum += vel(A); }
    CHECK((whole-sum).abs() <= 1e-11*(double)o.mag/6.28, "parts", "velocity (%.12g,%.12g) is not the sum of its parts (%.12g,%.12g)", whole.x, whole.y, sum.x, sum.y);
}
int main(int argc, char** argv) { return main_run(argc, argv, "C11", { {"exact", 10000, 400000, prop_exact, 0}, {"fast", 15000, 500000, prop_fast, 0}, {"parts", 10000, 60000, prop_parts, 0} }); }
