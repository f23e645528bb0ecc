// The equations of one step, written down independently (long double), as residuals of a solved state.
#pragma once
#include "gen.hpp"
#include "MConvectiveFast.hpp"
namespace slae {
typedef long double ld;
using pbt::fmt;
struct Sum { ld v = 0, m = 0; void add(ld x) { v += x; m += fabsl(x); } };
// stream function of a unit vortex with a solid core (times 2 pi)
inline ld psi(TVec P, TVec c, ld rd) { ld r = hypotl((ld)P.x-c.x, (ld)P.y-c.y); return r >= rd ? logl(r) : (r*r/(rd*rd)-1)/2 + logl(rd); }
inline ld dpsi(const TAtt& s, TVec c, ld rd) { return psi(s.corner+s.dl, c, rd) - psi(s.corner, c, rd); }
// flux of a unit source with a solid core through the segment a-b (times 2 pi), positive towards rotl(ab)
inline ld outer(TVec c, ld ax, ld ay, ld bx, ld by) { return -atan2l(ax*by-ay*bx, ax*bx+ay*by); }
inline ld xiq(const TAtt& s, TVec c, ld rd) {
    ld ax = (ld)s.corner.x-c.x, ay = (ld)s.corner.y-c.y, dx = s.dl.x, dy = s.dl.y, bx = ax+dx, by = ay+dy;
    auto inner = [&](ld x0, ld y0, ld x1, ld y1) { ld mx = (x0+x1)/2, my = (y0+y1)/2, ex = x1-x0, ey = y1-y0; return (-mx*ey+my*ex)/(rd*rd); };
    bool ia = hypotl(ax, ay) < rd, ib = hypotl(bx, by) < rd;
    if (!ia && !ib) return outer(c, ax, ay, bx, by);
    if (ia && ib) return inner(ax, ay, bx, by);
    ld A = dx*dx+dy*dy, B = ax*dx+ay*dy, C = ax*ax+ay*ay-rd*rd, D = sqrtl(B*B-A*C), t = ia ? (-B+D)/A : (-B-D)/A, qx = ax+t*dx, qy = ay+t*dy;
    return ia ? inner(ax, ay, qx, qy) + outer(c, qx, qy, bx, by) : outer(c, ax, ay, qx, qy) + inner(qx, qy, bx, by);
}
// net flow through a segment relative to its body
inline Sum through(const Space& S, const stree& t, const TBody& own, const TAtt& s) {
    Sum f; TVec U = S.inf_speed(); const ld TP = 2*M_PIl;
    auto flux = [&](ld u, ld v) { f.add(-v*s.dl.x); f.add(u*s.dl.y); };
    flux(U.x, U.y); flux(-(ld)own.speed_slae.r.x, -(ld)own.speed_slae.r.y);
    for (auto& q: S.SourceList) { if (!q.g) continue; ld x = (ld)s.r.x-q.r.x, y = (ld)s.r.y-q.r.y, d = x*x+y*y + (ld)(double)S.dt*fabsl(q.g)/M_PIl; flux(q.g*x/d/TP, q.g*y/d/TP); }
    const snode* n = t.findNode(s.r);
    for (auto k: *n->NearNodes) for (TObj* o = k->vRange.first; o < k->vRange.last; o++) if (o->g) f.add(-o->g*dpsi(s, o->r, 1/(ld)o->_1_eps)/TP);
    for (auto k: *n->FarNodes) for (const TObj* o: {&k->CMp, &k->CMm}) if (o->g) f.add(-o->g*dpsi(s, o->r, 0)/TP);
    for (auto& b: S.BodyList) {
        for (auto& a: b->alist) f.add(-a.g*dpsi(s, a.corner, a.dl.abs()/4)/TP);
        ld w = b->speed_slae.o; TVec ax = b->get_axis(); if (w == 0) continue;
        for (auto& a: b->alist) {
            ld x = (ld)a.r.x-ax.x, y = (ld)a.r.y-ax.y; TVec p = a.r; if (&a == &s) p = a.r + rotl(a.dl)*0.001;
            ld g = -w*(-y*a.dl.x+x*a.dl.y), q = w*(x*a.dl.x+y*a.dl.y); // sheets that carry the rotation
            f.add(-g*dpsi(s, p, a.dl.abs()/4)/TP); f.add(-q*xiq(s, p, a.dl.abs()/4)/TP);
        }
    }
    return f;
}
struct Eq { std::string name; Sum r; };
struct Opt { bool flow = true, motion = true; };
// the body's equations: what = v.add(terms) must vanish
inline std::vector<Eq> equations(const Space& S, const stree& t, Opt o) {
    std::vector<Eq> e; bool once = false; int bi = -1; ld dt = (double)S.dt; double now = S.time;
    auto put = [&](const std::string& n, std::initializer_list<ld> v) { Eq q; q.name = fmt("body %d ", bi) + n; for (ld x: v) q.r.add(x); e.push_back(q); return &e.back(); };
    for (auto& B: S.BodyList) {
        const TBody& b = *B; bi++;
        ld A = b.get_area(), J = b.get_moi_axis(), w = b.speed_slae.o, w0 = b.speed_slae_prev.o; TVec ax = b.get_axis();
        if (o.flow) for (auto& s: b.alist) {
            if (&s != &b.alist[b.special_segment_no]) { Eq q; q.name = fmt("body %d: net flow through segment %ld", bi, (long)(&s-b.alist.data())); q.r = through(S, t, b, s); e.push_back(q); continue; }
            if (b.boundary_condition == bc_t::kutta) { Eq* q = put("circulation of the special segment", {s.g}); q->r.m += 1e-3; continue; }
            if (!once) { once = true; Eq* q = put("total circulation", {S.inf_g}); for (auto& v: S.VortexList) q->r.add(v.g); for (auto& c: S.BodyList) { for (auto& a: c->alist) q->r.add(a.g); q->r.add(2*(ld)c->get_area()*c->speed_slae.o); } }
            else { Eq* q = put("circulation balance", {2*A*w, -2*A*w0, -b.g_dead}); for (auto& a: b.alist) q->r.add(a.g); }
        }
        if (!o.motion) continue;
        ld cx = (ld)b.get_cofm().x-ax.x, cy = (ld)b.get_cofm().y-ax.y; // centre of mass from the axis
        auto root = b.root_body.lock(); TVec3D sp = b.speed(now);
        const double k[3] = {b.kspring.r.x, b.kspring.r.y, b.kspring.o}, dm[3] = {b.damping.r.x, b.damping.r.y, b.damping.o}, v[3] = {b.speed_slae.r.x, b.speed_slae.r.y, b.speed_slae.o}, p[3] = {b.dpos.r.x, b.dpos.r.y, b.dpos.o}, F[3] = {b.force_holder.r.x, b.force_holder.r.y, b.force_holder.o}, own[3] = {sp.r.x, sp.r.y, sp.o};
        ld rv[3] = {0, 0, 0}; if (root) { ld x = (ld)b.holder.r.x-root->get_axis().x, y = (ld)b.holder.r.y-root->get_axis().y, rw = root->speed_slae.o; rv[0] = root->speed_slae.r.x - rw*y; rv[1] = root->speed_slae.r.y + rw*x; rv[2] = rw; }
        for (int i = 0; i < 3; i++) {
            const char* ax3[] = {"x", "y", "rotation"};
            if (TBody::isrigid(k[i]) || now <= 0) put(std::string("prescribed speed in ") + ax3[i], {v[i], -(ld)own[i], -rv[i]})->r.m += 1e-6;
            else put(std::string("spring force in ") + ax3[i], {F[i], -(ld)k[i]*p[i], -(ld)dm[i]*v[i], i == 2 ? -(ld)b.force_o.eval(now) : 0.L});
        }
        // fluid force: rate of change of the impulse of the vortices and of the body, friction, absorbed vortices
        ld dx = (ld)b.speed_slae.r.x-b.speed_slae_prev.r.x, dy = (ld)b.speed_slae.r.y-b.speed_slae_prev.r.y, dw = w-w0, gx = b.get_cofm().x, gy = b.get_cofm().y;
        Eq* q = put("fluid force in x", {A*b.speed_slae.r.x/dt, -A*b.speed_slae_prev.r.x/dt, -A*(2*gy+cy)*w/dt, A*(2*gy+cy)*w0/dt, -w0*w0*A*cx, b.friction_prev.r.x, -b.fdt_dead.r.x/dt, -(ld)b.force_hydro.r.x}); for (auto& a: b.alist) q->r.add(-(ld)a.corner.y*a.g/dt);
        q = put("fluid force in y", {A*b.speed_slae.r.y/dt, -A*b.speed_slae_prev.r.y/dt, A*(2*gx+cx)*w/dt, -A*(2*gx+cx)*w0/dt, -w0*w0*A*cy, b.friction_prev.r.y, -b.fdt_dead.r.y/dt, -(ld)b.force_hydro.r.y}); for (auto& a: b.alist) q->r.add((ld)a.corner.x*a.g/dt);
        q = put("fluid torque", {A*(cx*dy-cy*dx)/dt, 2*J*w/dt, -2*J*w0/dt, b.friction_prev.o, -b.fdt_dead.o/(2*dt), -(ld)b.force_hydro.o}); for (auto& a: b.alist) { ld x = (ld)a.corner.x-ax.x, y = (ld)a.corner.y-ax.y; q->r.add((x*x+y*y)*a.g/(2*dt)); } q->r.m += fabsl(A)*(fabsl(cx)+fabsl(cy))*(fabsl(b.speed_slae_prev.r.x)+fabsl(b.speed_slae_prev.r.y))/dt;
        // Newton: mass times acceleration of the centre of mass = fluid force + buoyant weight - force on the holder + forces of bodies held here
        ld M = A*b.density, W = (b.density-1)*A; ld chx = 0, chy = 0, cho = 0, cm = 0;
        for (auto& C: S.BodyList) if (C->root_body.lock() == B) { ld x = (ld)C->get_axis().x-ax.x, y = (ld)C->get_axis().y-ax.y; chx += C->force_holder.r.x; chy += C->force_holder.r.y; cho += C->force_holder.o + x*C->force_holder.r.y - y*C->force_holder.r.x; cm += fabsl(C->force_holder.o) + fabsl(x*C->force_holder.r.y) + fabsl(y*C->force_holder.r.x) + C->force_holder.r.abs(); }
        put("Newton's law in x", {M*dx/dt, -M*cy*dw/dt, -M*cx*w0*w0, -(ld)b.force_hydro.r.x, -W*S.gravity.x, (ld)b.force_holder.r.x, -chx})->r.m += cm + fabsl(M)*(fabs(b.speed_slae.r.x)+fabs(b.speed_slae_prev.r.x)+fabsl(cy*w)+fabsl(cy*w0))/dt;
        put("Newton's law in y", {M*dy/dt, M*cx*dw/dt, -M*cy*w0*w0, -(ld)b.force_hydro.r.y, -W*S.gravity.y, (ld)b.force_holder.r.y, -chy})->r.m += cm + fabsl(M)*(fabs(b.speed_slae.r.y)+fabs(b.speed_slae_prev.r.y)+fabsl(cx*w)+fabsl(cx*w0))/dt;
        put("Newton's law for rotation", {M*(cx*dy-cy*dx)/dt, b.density*J*dw/dt, -(ld)b.force_hydro.o, -W*(cx*S.gravity.y-cy*S.gravity.x), (ld)b.force_holder.o, -cho})->r.m += cm + (fabsl(b.density*J)*(fabsl(w)+fabsl(w0)) + fabsl(M)*(fabsl(cx)+fabsl(cy))*(b.speed_slae.r.abs()+b.speed_slae_prev.r.abs()))/dt;
    }
    return e;
}
// a body of n segments with sides of different fineness, star-shaped about its axis
inline gen::Poly outline(pbt::Src& s, int nmin, int nmax, double size) {
    gen::Poly p;
    if (s.draw(5) == 0) { // thin plate, one side coarse, the other fine
        int c = s.range(2, 6), f = s.range(6, 24); double h = size*s.pick({0.05, 0.15, 0.4})/c; s.label("poly:uneven plate");
        for (int i = 0; i <= c; i++) p.push_back(TVec(size*(-1+2.*i/c), h)); for (int i = 0; i <= f; i++) p.push_back(TVec(size*(1-2.*i/f), -h));
    } else { p = gen::polygon(s, nmin, nmax); double m = 0; for (auto& v: p) m = std::max(m, v.abs()); for (auto& v: p) v *= size/m; }
    return p;
}
// several bodies that do not overlap, in any order and relation; nothing but geometry
inline void place(pbt::Src& s, Space& S, int nb, int nmin, int nmax) {
    double x = 0;
    for (int i = 0; i < nb; i++) { double size = s.pick({0.5, 0.2, 1.0}); gen::Poly p = outline(s, nmin, nmax, size); x += 1.3*size; gen::transform(p, TVec(x, s.fine(-1, 1)), s.flip() ? s.fine(0, 6.3) : 0); x += 1.3*size; auto b = gen::body_of(p); S.BodyList.push_back(b); }
    if (nb > 1 && s.flip()) std::reverse(S.BodyList.begin(), S.BodyList.end());
    S.EnumerateBodies();
}
inline bool in_some_body(const Space& S, TVec p, double margin) {
    for (auto& b: S.BodyList) { if (b->isPointInvalid(p)) return true; for (auto& a: b->alist) if ((a.r-p).abs() < margin*a.dl.abs() || (a.corner-p).abs() < margin*a.dl.abs()) return true; }
    return false;
}
inline void flow(pbt::Src& s, Space& S, int nv) { // incoming flow, sinks, vortices outside the bodies
    if (s.flip()) { S.inf_vx = s.pick({"1", "0.3", "t", "sin(t)"}); S.inf_vy = s.pick({"0", "0.5", "-t"}); }
    S.inf_g = s.draw(3) ? 0 : s.fine(-1, 1);
    double w = 3.*S.BodyList.size(); int n = s.sized(0, nv);
    for (int i = 0; i < n; i++) { TVec p(s.fine(-2, w+2), s.fine(-2, 2)); if (in_some_body(S, p, 0.01)) continue; TObj o(p, s.draw(10) ? s.fine(-0.1, 0.1) : 0); o._1_eps = 1/s.logreal(0.003, 0.3); S.VortexList.push_back(o); }
    n = (int)s.draw(3); for (int i = 0; i < n; i++) { TVec p(s.fine(-2, w+2), s.fine(-2, 2)); if (!in_some_body(S, p, 1)) S.SourceList.push_back(TObj(p, s.fine(-1, 1))); }
}
inline void motion(pbt::Src& s, Space& S) { // prescribed speeds, springs, links, history
    size_t nb = S.BodyList.size();
    for (auto& b: S.BodyList) {
        TVec c = b->get_cofm(); bool off = s.flip(); b->holder = TVec3D(c.x + (off ? s.fine(-0.3, 0.3) : 0), c.y + (off ? s.fine(-0.3, 0.3) : 0), s.fine(-1, 1));
        if (s.flip(0.4)) { b->kspring.r.x = s.pick({0.0, 3.0, 100.0}); s.label("sprung"); } if (s.flip(0.4)) b->kspring.r.y = s.pick({0.0, 3.0, 100.0}); if (s.flip(0.4)) b->kspring.o = s.pick({0.0, 3.0, 100.0});
        if (s.flip()) b->damping = TVec3D(s.fine(0, 2), s.fine(0, 2), s.fine(0, 2)); // sign: as the code has it
        b->dpos = TVec3D(TBody::isrigid(b->kspring.r.x) ? 0 : s.fine(-0.2, 0.2), TBody::isrigid(b->kspring.r.y) ? 0 : s.fine(-0.2, 0.2), TBody::isrigid(b->kspring.o) ? 0 : s.fine(-0.2, 0.2));
        b->density = s.pick({1.0, 2.5, 0.5, 10.0});
        if (s.flip()) { b->speed_x = s.pick({"0", "1", "sin(t)"}); b->speed_y = s.pick({"0", "-0.5", "t"}); b->speed_o = s.pick({"0", "2", "cos(t)"}); s.label("prescribed motion"); }
        if (s.flip()) b->force_o = s.pick({"0", "0.3", "t"});
        if (s.flip()) { b->speed_slae_prev = TVec3D(s.fine(-1, 1), s.fine(-1, 1), s.fine(-1, 1)); b->friction_prev = TVec3D(s.fine(-1, 1), s.fine(-1, 1), s.fine(-1, 1)); b->fdt_dead = TVec3D(s.fine(-.1, .1), s.fine(-.1, .1), s.fine(-.1, .1)); b->g_dead = s.fine(-0.1, 0.1); s.label("with history"); }
        b->special_segment_no = (int)s.draw(b->size()); if (s.draw(3) == 0) { b->boundary_condition = bc_t::kutta; b->kspring.o = INFINITY; b->dpos.o = 0; s.label("kutta"); } // a body free to turn would carry circulation away from itself
        if (s.draw(4) == 0) { for (auto& a: b->alist) a.slip = s.flip(); b->doFillProperties(); }
    }
    for (size_t i = 0; i < nb; i++) if (nb > 1 && s.flip(0.4)) { size_t r = s.draw(nb); auto q = S.BodyList[r]; bool loop = false; for (auto p = q; p; p = p->root_body.lock()) loop = loop || p == S.BodyList[i]; if (!loop) { S.BodyList[i]->root_body = q; s.label("linked"); } }
    if (s.flip()) S.gravity = TVec(s.fine(-1, 1), s.fine(-10, 0));
}
inline void tree_of(pbt::Src& s, const Space& S, double& mn, double& mx) { double dl = S.average_segment_length(); if (s.flip()) { mn = 5*dl; mx = 100*dl; } else { mn = s.pick({0.5, 100.0, 0.1}); mx = INFINITY; } }
} // namespace
