// C15: the computed circulations satisfy the boundary conditions; the inverse gives what solving gives.
#include "slae.hpp"
using namespace pbt; using namespace slae;

static void check(const Space& S, const stree& t, slae::Opt o, double tol, const char* key) {
    auto eqs = equations(S, t, o); ld big = 0; for (auto& e: equations(S, t, slae::Opt())) big = std::max(big, e.r.m); // the unknowns are solved for together
    for (auto& e: eqs) CHECK(fabsl(e.r.v) <= tol*e.r.m + 1e-13L*big, key, "%s is violated by %.6Lg where its terms amount to %.6Lg", e.name.c_str(), e.r.v, e.r.m);
}
static void prop_conditions(Src& s) {
    Space S; int nb = s.range(1, 3); place(s, S, nb, 4, s.thorough ? 60 : 30); motion(s, S); S.dt = TTime(1, s.pick({10u, 100u, 30u})); S.time = TTime(s.range(0, 20), 10); flow(s, S, 80);
    double mn, mx; tree_of(s, S, mn, mx); stree t(&S, 8, mn, mx); t.build();
    s.describe(fmt("%d bodies (%zu segments), %zu vortices, %zu sinks, t=%g", nb, S.total_segment_count(), S.VortexList.size(), S.SourceList.size(), double(S.time))); s.nontrivial(nb > 1 || S.VortexList.size() > 0);
    MConvectiveFast c(&S, &t); const void* col = nullptr; c.calc_circulation(&col);
    slae::Opt o; o.motion = false; check(S, t, o, 1e-8, "condition");
}
// the exact answer where there is one: potential flow round a circle and an ellipse
static void prop_known(Src& s) {
    Space S; int n = s.range(100, 200); double a = s.pick({0.5, 1.0, 2.0}), e = s.fine(0.4, 1), th = s.fine(0, 6.3); gen::Poly p;
    for (int i = 0; i < n; i++) p.push_back(TVec(a*cos(2*M_PI*i/n), -e*a*sin(2*M_PI*i/n))); TVec ctr(s.fine(-1, 1), s.fine(-1, 1)); gen::transform(p, ctr, th);
    auto b = gen::body_of(p); S.BodyList.push_back(b); S.EnumerateBodies(); b->holder = TVec3D(ctr.x, ctr.y, 0); S.dt = TTime(1, 20);
    int kind = (int)s.draw(3); double U = s.fine(-1, 1), V = s.fine(-1, 1), W = s.fine(-1, 1);
    if (kind == 0) { S.inf_vx = fmt("%.17g", U); S.inf_vy = fmt("%.17g", V); } else if (kind == 1) { b->speed_x = fmt("%.17g", -U); b->speed_y = fmt("%.17g", -V); } else b->speed_o = fmt("%.17g", W);
    b->special_segment_no = (int)s.draw(n); static const char* kn[] = {"in a stream", "moving", "turning"}; s.describe(fmt("ellipse %g x %g, %d segments, %s", a, a*e, n, kn[kind])); s.label(kn[kind]); s.nontrivial();
    stree t(&S, 8, 100, INFINITY); t.build(); MConvectiveFast c(&S, &t); const void* col = nullptr; c.calc_circulation(&col);
    // strength of the sheet per length = speed along the surface (counter-clockwise) relative to it; ellipse axes A, B
    double A = a, B = e*a, u = U*cos(th)+V*sin(th), v = -U*sin(th)+V*cos(th), err = 0, top = 0; int worst = 0;
    for (int i = 0; i < n; i++) {
        double q = -2*M_PI*i/n; auto& x = b->alist[i]; auto& y = b->alist[(i+n-1)%n]; double len = 0.5*(x.dl.abs()+y.dl.abs()), h = sqrt(A*A*sin(q)*sin(q)+B*B*cos(q)*cos(q)), want;
        if (kind < 2) want = (A+B)*(-u*sin(q)+v*cos(q))/h; // slip velocity relative to the body, counter-clockwise
        else want = -W*(A*A-B*B)/2*cos(2*q)/h - W*A*B/h; // outside psi = -W(A^2-B^2)/4 exp(-2(xi-xi0)) cos 2q, inside the body turns
        top = std::max(top, fabs(want)); double d = fabs(x.g/len-want); if (d > err) { err = d; worst = i; }
    }
    CHECK(err <= 2*top/n, "known", "strength of the surface is off by %g at corner %d, where the largest is %g", err, worst, top);
}
// the same object solving again and again with changing vortices, times and places, against a fresh one
static void prop_history(Src& s) {
    Space S; int nb = s.range(1, 2); place(s, S, nb, 4, 20); S.dt = TTime(1, 20); S.time = TTime(s.draw(4) ? 1 : 0, 20); flow(s, S, 30);
    for (auto& b: S.BodyList) { TVec c = b->get_cofm(); b->holder = TVec3D(c.x, c.y, 0); b->special_segment_no = (int)s.draw(b->size()); if (s.draw(3) == 0) b->boundary_condition = bc_t::kutta;
        switch (s.draw(5)) { case 0: b->speed_x = "t>0.2 and t<0.4 and 1 or 0"; s.label("moves for a while"); break; case 1: b->speed_o = "t>0.3 and 2 or 0"; s.label("starts turning"); break; case 2: b->kspring.r.y = 5; s.label("sprung"); break; default:; } }
    int steps = s.range(2, 12); s.nontrivial(steps > 2); stree t(&S, 8, 0.5, INFINITY); t.build(); t.destroy(); MConvectiveFast c(&S, &t); s.describe(fmt("%d bodies, %d steps from %g", nb, steps, double(S.time)));
    for (int k = 0; k < steps; k++) {
        for (auto& o: S.VortexList) if (s.draw(4) == 0) o.g = s.fine(-0.1, 0.1);
        t.build(); const void* col = nullptr; c.calc_circulation(&col);
        std::vector<double> x; auto values = [&] { std::vector<double> v; for (auto& b: S.BodyList) { for (auto& a: b->alist) v.push_back(a.g); for (TVec3D* q: {&b->speed_slae, &b->force_hydro, &b->force_holder}) { v.push_back(q->r.x); v.push_back(q->r.y); v.push_back(q->o); } } return v; };
        x = values(); check(S, t, slae::Opt(), 1e-7, "history_condition");
        MConvectiveFast fresh(&S, &t); col = nullptr; static int dummy; const void* no = &dummy; fresh.calc_circulation(&no); // a collision that concerns nobody: solved directly
        auto y = values(); double top = 0; for (double v: y) top = std::max(top, fabs(v));
        for (size_t i = 0; i < x.size(); i++) CHECK(fabs(x[i]-y[i]) <= 1e-6*(1e-3+top), "history", "step %d (t=%g): unknown %zu is %.12g, solving afresh gives %.12g", k, double(S.time), i, x[i], y[i]);
        t.destroy();
        for (auto& b: S.BodyList) { TVec3D dh = b->speed(S.time), db = b->speed_slae; double dt = S.dt; b->move(dt*dh, dt*db); }
        S.time = TTime::add(S.time, S.dt);
    }
}
int main(int argc, char** argv) { return main_run(argc, argv, "C15", { {"conditions", 25000, 600000, prop_conditions, 0}, {"known", 800, 20000, prop_known, 0}, {"history", 5000, 150000, prop_history, 0} }); }
