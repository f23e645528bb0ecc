// C17: bodies move by Newton's and Hooke's laws under the computed forces.
#include "slae.hpp"
#include "MFlowmove.hpp"
#include "MEpsilonFast.hpp"
using namespace pbt; using namespace slae;

static void check(const Space& S, const stree& t, slae::Opt o, double tol, const char* key, const std::string& where) {
    auto eqs = equations(S, t, o); ld big = 0; for (auto& e: equations(S, t, slae::Opt())) big = std::max(big, e.r.m);
    for (auto& e: eqs) CHECK(fabsl(e.r.v) <= tol*e.r.m + 1e-12L*big, key, "%s%s is violated by %.6Lg where its terms amount to %.6Lg", where.c_str(), e.name.c_str(), e.r.v, e.r.m);
}
static void prop_laws(Src& s) {
    Space S; int nb = s.range(1, 4); place(s, S, nb, 4, s.thorough ? 40 : 16); motion(s, S); S.dt = TTime(1, s.pick({10u, 100u, 30u})); S.time = TTime(s.draw(5) ? s.range(1, 20) : s.range(-1, 0), 10); flow(s, S, 40);
    double mn, mx; tree_of(s, S, mn, mx); stree t(&S, 8, mn, mx); t.build();
    s.describe(fmt("%d bodies, t=%g", nb, double(S.time))); s.nontrivial(S.time > 0);
    MConvectiveFast c(&S, &t); const void* col = nullptr; c.calc_circulation(&col);
    slae::Opt o; o.flow = false; check(S, t, o, 1e-8, "law", "");
}
// first step from rest in fluid at rest against the kinetic energy of an ellipse and the fluid round it
static void prop_added_mass(Src& s) {
    Space S; int n = s.range(120, 200); double a = s.pick({0.5, 1.0, 2.0}), b_ = a*s.fine(0.4, 1), th = s.fine(0, 6.3), PI = M_PI; gen::Poly p;
    for (int i = 0; i < n; i++) p.push_back(TVec(a*cos(2*PI*i/n), -b_*sin(2*PI*i/n))); TVec ctr(s.fine(-1, 1), s.fine(-1, 1)); gen::transform(p, ctr, th);
    auto b = gen::body_of(p); S.BodyList.push_back(b); S.EnumerateBodies(); b->special_segment_no = (int)s.draw(n);
    TVec off = s.flip() ? TVec() : TVec(s.fine(-1, 1), s.fine(-1, 1))*a; b->density = s.pick({2.0, 1.0, 0.3, 10.0}); int mask = s.range(1, 7);
    b->dpos = TVec3D(mask & 1 ? s.fine(-.2, .2) : 0, mask & 2 ? s.fine(-.2, .2) : 0, mask & 4 ? s.fine(-.2, .2) : 0); TVec ax = ctr - off; b->holder = TVec3D(ax.x-b->dpos.r.x, ax.y-b->dpos.r.y, s.fine(-1, 1));
    if (mask & 1) { b->kspring.r.x = s.pick({0.0, 2.0}); b->damping.r.x = s.pick({0.0, 3.0}); } if (mask & 2) { b->kspring.r.y = s.pick({0.0, 2.0}); b->damping.r.y = s.pick({0.0, 3.0}); } if (mask & 4) { b->kspring.o = s.pick({0.0, 2.0}); b->damping.o = s.pick({0.0, 3.0}); if (s.flip()) b->force_o = "0.7"; }
    if (s.flip()) S.gravity = TVec(s.fine(-1, 1), s.fine(-10, 0)); S.dt = TTime(1, s.pick({20u, 100u})); S.time = TTime(1, 10); double dt = S.dt;
    s.describe(fmt("ellipse %g x %g turned %.3g, axis off by (%.3g,%.3g), density %g, free components %d", a, b_, th, off.x, off.y, b->density, mask)); s.nontrivial();
    stree t(&S, 8, 100, INFINITY); t.build(); MConvectiveFast c(&S, &t); const void* col = nullptr; c.calc_circulation(&col);
    double A = PI*a*b_, rho = b->density, J = A*(a*a+b_*b_)/4, mI = PI/8*(a*a-b_*b_)*(a*a-b_*b_), m1 = PI*b_*b_, m2 = PI*a*a, cs = cos(th), sn = sin(th);
    // mass matrix at the centre, then seen from the axis: centre velocity = v + w rotl(off)
    double C[2][2] = {{rho*A + m1*cs*cs + m2*sn*sn, (m1-m2)*cs*sn}, {(m1-m2)*cs*sn, rho*A + m1*sn*sn + m2*cs*cs}}; double T[2][3] = {{1, 0, -off.y}, {0, 1, off.x}}; double M[3][4] = {};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) M[i][j] += T[k][i]*C[k][l]*T[l][j]; M[2][2] += rho*J + mI;
    double W = (rho-1)*A, g[3] = {W*S.gravity.x, W*S.gravity.y, W*(off.x*S.gravity.y-off.y*S.gravity.x)}; const double kk[3] = {b->kspring.r.x, b->kspring.r.y, b->kspring.o}, dd[3] = {b->damping.r.x, b->damping.r.y, b->damping.o}, pp[3] = {b->dpos.r.x, b->dpos.r.y, b->dpos.o}, got[3] = {b->speed_slae.r.x, b->speed_slae.r.y, b->speed_slae.o};
    double v[3] = {}; std::vector<int> f; for (int i = 0; i < 3; i++) if (mask >> i & 1) f.push_back(i);
    double X[3][4]; for (size_t i = 0; i < f.size(); i++) { for (size_t j = 0; j < f.size(); j++) X[i][j] = M[f[i]][f[j]]; X[i][i] += dt*dd[f[i]]; X[i][3] = dt*(g[f[i]] - kk[f[i]]*pp[f[i]] - (f[i] == 2 ? (double)b->force_o.eval(S.time) : 0)); }
    for (size_t i = 0; i < f.size(); i++) for (size_t j = i+1; j < f.size(); j++) { double q = X[j][i]/X[i][i]; for (int k = 0; k < 4; k++) X[j][k] -= q*X[i][k]; }
    for (int i = (int)f.size()-1; i >= 0; i--) { double r = X[i][3]; for (size_t j = i+1; j < f.size(); j++) r -= X[i][j]*v[f[j]]; v[f[i]] = r/X[i][i]; }
    double L = 1+off.abs()/a, top = std::max(std::max(fabs(v[0]), fabs(v[1])), fabs(v[2])*a); for (int i: f) top = std::max(top, dt*fabs(X[0][3])*0);
    for (int i = 0; i < 3; i++) CHECK(fabs(got[i]-v[i])*(i == 2 ? a : 1) <= 0.006*L*L*top + 1e-9, "added_mass", "component %d of the speed after the first step is %.6g instead of %.6g", i, got[i], v[i]);
}
// a body that has reached its stop: halted, then thrown back
static void prop_bounce(Src& s) {
    Space S; int nb = s.range(1, 3); place(s, S, nb, 4, 12); motion(s, S); S.dt = TTime(1, 20); S.time = TTime(s.range(1, 20), 10); flow(s, S, 20);
    auto b = S.BodyList[s.draw(nb)]; int i = (int)s.draw(b->boundary_condition == bc_t::kutta ? 2 : 3); double* k = i == 0 ? &b->kspring.r.x : i == 1 ? &b->kspring.r.y : &b->kspring.o; double* F = i == 0 ? &b->force_holder.r.x : i == 1 ? &b->force_holder.r.y : &b->force_holder.o; double* v = i == 0 ? &b->speed_slae.r.x : i == 1 ? &b->speed_slae.r.y : &b->speed_slae.o; double* d = i == 0 ? &b->damping.r.x : i == 1 ? &b->damping.r.y : &b->damping.o;
    *k = s.pick({0.0, 5.0}); bool spring = *k != 0; if (s.flip()) *d = 0; b->bounce = s.pick({0.0, 1.0, 0.5}); bool pure = !spring && *d == 0; if (i == 2) b->force_o = pure ? "0" : "0.2";
    double mn, mx; tree_of(s, S, mn, mx); stree t(&S, 8, mn, mx); t.build(); s.describe(fmt("%d bodies, component %d of one at its stop, bounce %g", nb, i, b->bounce)); s.nontrivial(); s.label(pure ? "free" : "with spring");
    MConvectiveFast c(&S, &t); const void* col = nullptr; c.calc_circulation(&col); double v0 = *v, top = 1e-3; for (auto& q: S.BodyList) top = std::max(top, q->speed_slae.r.abs()+fabs(q->speed_slae.o));
    col = k; c.calc_circulation(&col); CHECK(col == F, "halt_state", "after the halting step the collision is not remembered as an impulse to give"); double F1 = *F;
    CHECK(fabs(*v) <= 1e-9*top, "halt", "a body at its stop has speed %.9g instead of none", *v);
    slae::Opt o; auto laws = [&](bool hooke, const char* key) { auto e = equations(S, t, slae::Opt()); ld big = 0; for (auto& q: e) big = std::max(big, q.r.m); int idx = -1; for (int j = 0; j < nb; j++) if (S.BodyList[j] == b) idx = j; const char* cn[] = {"x", "y", "rotation"}; std::string mine = fmt("body %d spring force in %s", idx, cn[i]);
        for (auto& q: e) { if (q.name == mine && !hooke) continue; CHECK(fabsl(q.r.v) <= 1e-8L*q.r.m + 1e-12L*big, key, "%s is violated by %.6Lg of %.6Lg while a body is at its stop", q.name.c_str(), q.r.v, q.r.m); } };
    laws(false, "halt_law");
    c.calc_circulation(&col); CHECK(col == nullptr, "collision_over", "the collision is not over after the rebound"); laws(false, "bounce_law");
    if (pure) CHECK(fabs(*v+b->bounce*v0) <= 1e-7*top, "bounce", "rebound speed %.9g after an approach at %.9g with restitution %g", *v, v0, b->bounce);
    double hooke = *k*(i == 0 ? b->dpos.r.x : i == 1 ? b->dpos.r.y : b->dpos.o) + *d**v + (i == 2 ? (double)b->force_o.eval(S.time) : 0); CHECK(fabs(*F-hooke-(1+b->bounce)*F1) <= 1e-8*(fabs(*F)+fabs(hooke)+fabs(F1)) + 1e-9, "impulse", "force at the stop is %.9g, not the spring's %.9g and (1+bounce) times %.9g", *F, hooke, F1);
    c.calc_circulation(&col); CHECK(fabs(*v-v0) <= 1e-7*top, "after_bounce", "after the collision the speed is %.9g instead of %.9g", *v, v0);
}
// whole steps: springs, stops, prescribed motion, links
static void prop_run(Src& s) {
    Space S; int nb = s.range(1, 3); place(s, S, nb, 4, 14); motion(s, S); S.dt = TTime(1, s.pick({20u, 50u})); S.time = TTime(s.range(0, 20), 10); flow(s, S, 20); S.inf_vx = "1"; S.inf_vy = s.pick({"0", "0.5"});
    for (auto& b: S.BodyList) { b->density = s.pick({2.0, 1.0, 5.0}); double* K[3] = {&b->kspring.r.x, &b->kspring.r.y, &b->kspring.o}; const double pos[3] = {b->get_axis().x, b->get_axis().y, b->holder.o+b->dpos.o}; double* mx[3] = {&b->collision_max.r.x, &b->collision_max.r.y, &b->collision_max.o}; double* mn[3] = {&b->collision_min.r.x, &b->collision_min.r.y, &b->collision_min.o};
        for (int i = 0; i < 3; i++) if (s.flip(0.4)) { if (i == 2 && b->boundary_condition == bc_t::kutta) continue; if (TBody::isrigid(*K[i])) *K[i] = s.pick({0.0, 20.0}); if (s.draw(4)) *mx[i] = pos[i] + s.pick({0.0, 0.01, 0.05}); if (s.draw(4)) *mn[i] = pos[i] - s.pick({0.001, 0.01, 0.05}); s.label("stops"); } b->bounce = s.pick({0.0, 0.0, 1.0, 0.5}); }
    int steps = s.range(1, s.thorough ? 20 : 8); bool wet = s.flip(); stree t(&S, 8, 0.5, INFINITY); MConvectiveFast c(&S, &t); MFlowmove f(&S); MEpsilonFast eps(&S, &t); const void* col = nullptr; s.describe(fmt("%d bodies, %d steps from t=%g", nb, steps, double(S.time))); s.nontrivial(steps > 1); double dt = S.dt; bool hit = false;
    for (int k = 0; k < steps; k++) {

        t.build(); eps.CalcEpsilonFast(false); std::string at = fmt("step %d: ", k); const void* pend = col;
        if (col) { c.calc_circulation(&col); c.calc_circulation(&col); if (double(S.time) > 0) CHECK(col == nullptr, "collision_over", "%sthe collision is not over after the rebound", at.c_str()); }
        else { c.calc_circulation(&col); CHECK(col == nullptr, "no_collision", "%ssolving makes up a collision", at.c_str()); }
        for (auto& b: S.BodyList) if (!std::isfinite(b->speed_slae.r.x+b->speed_slae.r.y+b->speed_slae.o) || b->speed_slae.r.abs() > 50 || fabs(b->speed_slae.o) > 50) { s.label("too fast"); return; } // an unstable problem
        if (!pend) check(S, t, slae::Opt(), 1e-7, "step_law", at);
        t.destroy(); f.heat_shed(); f.vortex_shed(); S.calc_forces(); S.zero_forces();
        if (wet) { t.build(); eps.CalcEpsilonFast(true); c.process_all_lists(); t.destroy(); }
        struct B { TVec ax, h; double o, ho; TVec dp; double dpo; TVec3D v, own; TVec c0; }; std::vector<B> was; for (auto& b: S.BodyList) was.push_back({b->get_axis(), b->holder.r, b->holder.o+b->dpos.o, b->holder.o, b->dpos.r, b->dpos.o, b->speed_slae, b->speed(S.time), b->alist[0].corner});
        TVec m0 = S.inf_marker; f.move_and_clean(true, &col); double cdt = S.inf_marker.x-m0.x; CHECK(cdt >= -1e-12 && cdt <= dt*(1+1e-12), "time", "%sthe step takes %.9g of the time step %.9g", at.c_str(), cdt, dt);
        CHECK((col != nullptr) == (cdt < dt*(1-1e-9)) || fabs(cdt-dt) < 1e-8*dt, "collision_flag", "%sthe step takes %g of %g %s a collision", at.c_str(), cdt, dt, col ? "with" : "without"); bool found = false;
        for (int i = 0; i < nb; i++) { TBody& b = *S.BodyList[i]; B& w = was[i]; TVec ax = b.get_axis(); double slack = 1e-9; for (auto r = b.root_body.lock(); r; r = r->root_body.lock()) { double q = r->speed_slae.o*cdt; slack += q*q*(1+8*nb); }
            const double* K[3] = {&b.kspring.r.x, &b.kspring.r.y, &b.kspring.o}; double was_[3] = {w.ax.x, w.ax.y, w.o}, now_[3] = {ax.x, ax.y, b.holder.o+b.dpos.o}, v[3] = {w.v.r.x, w.v.r.y, w.v.o}, mx[3] = {b.collision_max.r.x, b.collision_max.r.y, b.collision_max.o}, mn[3] = {b.collision_min.r.x, b.collision_min.r.y, b.collision_min.o}, d0[3] = {w.dp.x, w.dp.y, w.dpo}, d1[3] = {b.dpos.r.x, b.dpos.r.y, b.dpos.o}, h0[3] = {w.h.x, w.h.y, w.ho}, h1[3] = {b.holder.r.x, b.holder.r.y, b.holder.o}, own[3] = {w.own.r.x, w.own.r.y, w.own.o};
            for (int j = 0; j < 3; j++) {
                CHECK(fabs(now_[j]-was_[j]-v[j]*cdt) <= slack*(1+fabs(v[j])), "advance", "%scomponent %d of body %d advances by %.9g instead of %.9g*%.9g", at.c_str(), j, i, now_[j]-was_[j], v[j], cdt);
                if (b.root_body.expired()) CHECK(fabs(h1[j]-h0[j]-own[j]*cdt) <= 1e-12, "holder", "%scomponent %d of the holder of body %d moves by %.9g instead of %.9g*%.9g", at.c_str(), j, i, h1[j]-h0[j], own[j], cdt);
                if (TBody::isrigid(*K[j])) { CHECK(fabs(d1[j]-d0[j]) <= 1e-8*(1+fabs(v[j])), "rigid", "%srigid component %d of body %d leaves its holder by %.9g", at.c_str(), j, i, d1[j]-d0[j]); continue; }
                double over = fmax(now_[j]-mx[j], mn[j]-now_[j]), before = fmax(was_[j]-mx[j], mn[j]-was_[j]);
                if (before <= slack*10) CHECK(!(over > slack*20), "stop", "%scomponent %d of body %d passes its stop by %.6g", at.c_str(), j, i, over);
                if (col == K[j]) { found = true; hit = true; CHECK(fabs(over) <= slack*20 || before > 1e-9, "stop_reached", "%sthe step is cut short for component %d of body %d, %.6g from its stop", at.c_str(), j, i, over); }
            }
            double q = w.v.o*cdt; TVec d = w.c0-w.ax, n = ax + TVec(cos(q)*d.x-sin(q)*d.y, sin(q)*d.x+cos(q)*d.y); CHECK((b.alist[0].corner-n).abs() <= 1e-11*(1+d.abs()), "shape", "%sbody %d does not move as a rigid whole: corner off by %.3g, turned by %.9g", at.c_str(), i, (b.alist[0].corner-n).abs(), q);
            CHECK(b.speed_slae_prev.r.x == w.v.r.x && b.speed_slae_prev.r.y == w.v.r.y && b.speed_slae_prev.o == w.v.o, "speed_prev", "%sthe speed of body %d is not remembered for the next step", at.c_str(), i); }
        CHECK(found == (col != nullptr), "collision_who", "%sa collision of nobody is reported", at.c_str()); S.time = TTime::add(S.time, S.dt);
    }
    if (hit) s.label("hit a stop");
}
int main(int argc, char** argv) { return main_run(argc, argv, "C17", { {"laws", 15000, 500000, prop_laws, 0}, {"added_mass", 500, 15000, prop_added_mass, 0}, {"bounce", 10000, 300000, prop_bounce, 0}, {"run", 6000, 200000, prop_run, 0} }); }
