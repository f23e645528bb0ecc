// C22: velocity, streamfunction, pressure and vorticity fields against their defining sums.
#include "flow.hpp"
#include "MEpsilonFast.hpp"
#include "MDiffusiveFast.hpp"
#include "XVelocity.hpp"
#include "XStreamfunction.hpp"
#include "XPressure.hpp"
#include "XVorticity.hpp"
#include "XIsoline.hpp"
using gen::cloud; using gen::body_of;
static void clone(const Space& A, Space& B) { B = A; for (auto& b: B.BodyList) b = std::make_shared<TBody>(*b); B.EnumerateBodies(); }
struct Scene { Space S; double size; double x0, y0, d; int nx, ny; };
static void gen_scene(Src& s, Scene& c, bool sinks = true) {
    Space& S = c.S; c.size = s.pick({1.0, 0.1, 20.0}); double size = c.size;
    S.VortexList = cloud(s, s.thorough ? 600 : 200, size); S.HeatList = cloud(s, 10, size); S.StreakList = cloud(s, 10, size); S.StreakSourceList = cloud(s, 3, size);
    if (sinks && s.flip()) { S.SourceList = cloud(s, 4, size); for (auto& q: S.SourceList) q.g *= 10; }
    S.dt = TTime(s.range(1, 100), 1000); S.time = TTime(s.range(0, 5000), 1000);
    S.inf_vx = s.pick({"0", "1", "sin(t)", "0.5*t"}); S.inf_vy = s.pick({"0", "-1", "cos(t)", "t/3"});
    S.re = s.pick({(double)INFINITY, 100.0, 1e4});
    int nb = (int)s.draw(3);
    for (int i = 0; i < nb; i++) {
        gen::Poly p = gen::polygon(s, 3, 60); for (auto& v: p) v *= size*0.3;
        gen::transform(p, TVec(s.real(-size, size), s.real(-size, size)), s.fine(0, 7));
        auto b = body_of(p); S.BodyList.push_back(b);
        b->holder = TVec3D(s.fine(-size, size), s.fine(-size, size), s.fine(-3, 3)); if (s.flip()) b->dpos = TVec3D(s.fine(-size, size), s.fine(-size, size), s.fine(-3, 3));
        if (s.flip()) b->speed_slae = TVec3D(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
        int sl = (int)s.draw(4); for (auto& a: b->alist) { a.slip = sl == 1 ? 1 : sl == 2 ? s.draw(2) : 0; a.g = s.draw(10) ? 0.02*size*s.fine(-1, 1) : s.pick({0.0, 1e-11}); a.gsum = s.flip(0.2) ? 0.01*size*s.fine(-1, 1) : 0; }
        b->doUpdateSegments(); b->doFillProperties();
        if (i && s.flip(0.3)) b->root_body = S.BodyList[0];
        b->heat_condition = s.pick({hc_t::neglect, hc_t::neglect, hc_t::isolate, hc_t::const_t});
    }
    S.EnumerateBodies();
    c.nx = s.range(2, 9); c.ny = s.range(2, 9);
    c.d = size*s.pick({0.25, 0.0625, 0.015625, 1.0})*1.0; c.d = ldexp(1, (int)std::round(log2(c.d)));
    c.x0 = c.d*s.range(-(int)(size/c.d)-1, (int)(size/c.d)+1); c.y0 = c.d*s.range(-(int)(size/c.d)-1, (int)(size/c.d)+1);
    s.describe(fmt("%zu vortices %zu sinks size %g inf (%g,%g) re %g dt %g, grid %dx%d from (%g,%g) by %g, %d bodies", S.VortexList.size(), S.SourceList.size(), size, S.inf_speed().x, S.inf_speed().y, S.re, double(S.dt), c.nx, c.ny, c.x0, c.y0, c.d, nb));
    for (auto& b: S.BodyList) s.describe(fmt(" [%zu corners v(%.3g,%.3g,%.3g) slip %d]", b->size(), b->speed_slae.r.x, b->speed_slae.r.y, b->speed_slae.o, b->get_slip()));
    s.nontrivial(nb || S.VortexList.size());
}
// everything a field must leave alone in the problem it is computed from
static std::vector<double> state(const Space& S) {
    std::vector<double> v; auto put = [&](const std::vector<TObj>& l) { v.push_back(l.size()); for (auto& o: l) for (double d: {o.r.x, o.r.y, o.g, o.v.x, o.v.y, o._1_eps}) v.push_back(d); };
    put(S.VortexList); put(S.HeatList); put(S.StreakList); put(S.StreakSourceList); put(S.SourceList);
    for (auto& b: S.BodyList) for (auto& a: b->alist) for (double d: {a.corner.x, a.corner.y, a.r.x, a.r.y, a.g, a.gsum, (double)a.fric, a._1_eps}) v.push_back(d);
    return v;
}
static TVec frame(Src& s, const Space& S, char& f, const char* names) {
    for (;;) { f = names[s.draw(strlen(names))]; if (f != 'b' || S.BodyList.size()) break; f = 'o'; break; }
    return f == 'f' ? S.inf_speed() : f == 'b' ? S.BodyList[0]->speed_slae.r : TVec();
}
template<class X> static std::vector<float> values(X& x, int nx, int ny) { std::vector<float> v; for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) v.push_back(x.at(i, j)); return v; }
// same values with other threads, on another grid through the same nodes, and the problem untouched
template<class M> static std::vector<float> fields(Src& s, Scene& c, M make) {
    auto before = state(c.S);
    omp_set_num_threads(1); auto x = make(c.x0, c.y0, c.nx, c.ny); x->evaluate(); auto v = values(*x, c.nx, c.ny); x->evaluate(); auto again = values(*x, c.nx, c.ny); CHECK(!memcmp(again.data(), v.data(), 4*v.size()), "again", "evaluated twice");
    auto eq = [](float a, float b) { return !memcmp(&a, &b, 4) || (a != a && b != b) || a == b; };
    auto after = state(c.S); CHECK(before.size() == after.size() && !memcmp(before.data(), after.data(), 8*before.size()), "touched", "computing a field changes the problem");
    if (s.flip()) { omp_set_num_threads(3); auto y = make(c.x0, c.y0, c.nx, c.ny); y->evaluate(); omp_set_num_threads(1); auto w = values(*y, c.nx, c.ny);
        for (size_t i = 0; i < v.size(); i++) CHECK(eq(v[i], w[i]), "threads", "node %zu: %.9g with one thread, %.9g with three", i, v[i], w[i]); }
    if (s.flip()) { int a = s.range(0, 3), b = s.range(0, 3); auto y = make(c.x0-a*c.d, c.y0-b*c.d, c.nx+a, c.ny+b); y->evaluate();
        for (int j = 0; j < c.ny; j++) for (int i = 0; i < c.nx; i++) CHECK(eq(v[j*c.nx+i], y->at(i+a, j+b)), "grid", "node (%d,%d): %.9g, on a larger grid %.9g", i, j, v[j*c.nx+i], y->at(i+a, j+b)); }
    return v;
}
// the vortices of the problem and those about to leave the bodies
static void shed(Space& S) { for (auto& b: S.BodyList) for (auto& a: b->alist) if (fabs(a.g) >= 1e-10 && !a.slip) S.VortexList.push_back(TObj(a.corner + rotl(a.dl)*1e-4, a.g)); }
static void strip(Space& S) { S.HeatList.clear(); S.StreakList.clear(); S.StreakSourceList.clear(); }

static void prop_velocity(Src& s) {
    Scene c; gen_scene(s, c); char fr; TVec rf = frame(s, c.S, fr, "ofb"); char mode = s.pick({'x', 'y'}); s.describe(fmt(" u%c in %c", mode, fr));
    auto v = fields(s, c, [&](double x0, double y0, int nx, int ny) { auto x = std::make_shared<XVelocity>(c.S, x0, y0, c.d, nx, ny); x->mode = mode; x->ref_frame = fr; return x; });
    Space T; clone(c.S, T); strip(T); shed(T); double dl = T.average_segment_length(); TSortedTree t(&T, 8, dl*20, 0.1); t.build(); MEpsilonFast e(&T, &t); e.CalcEpsilonFast(false);
    for (auto& b: T.BodyList) for (auto& a: b->alist) { (void)a; }
    for (int j = 0; j < c.ny; j++) for (int i = 0; i < c.nx; i++) {
        TVec p(c.x0+i*c.d, c.y0+j*c.d); Sum o; if (!others(T, p, o)) continue; direct(T.VortexList, p, o); ld bound = far_error(t.findNode(p), p, false); if (!std::isfinite((double)bound)) continue;
        ld w = mode == 'x' ? o.w.real()/TWOPI - rf.x : -o.w.imag()/TWOPI - rf.y, tol = (bound*1.001L + 1e-10L*o.mag)/TWOPI + 2e-7L*fabsl(w) + 1e-30L;
        CHECK(fabsl(v[j*c.nx+i]-w) <= tol, "velocity", "u%c at (%g,%g) is %.9g, the sum gives %.9Lg (tolerance %.2Lg)", mode, p.x, p.y, v[j*c.nx+i], w, tol);
    }
}
// second nearest other particle among the near ones (the nearest if there is no second), squared; nothing: negative
static ld second(const snode* n, TVec p) {
    ld a = INFINITY, b = INFINITY; for (auto k: *n->NearNodes) for (TObj* o = k->vRange.first; o < k->vRange.last; o++) { double d = (p-o->r).abs2(); if (!d) continue; if (d < a) { b = a; a = d; } else if (d < b) b = d; }
    return std::isfinite((double)b) ? b : std::isfinite((double)a) ? a : -1;
}
struct Psi { ld v = 0, mag = 0, slack = 0; void add(ld x) { v += x; mag += fabsl(x); } };
// the part of the streamfunction that needs no tree; false on a cut
static bool psi_base(const Space& S, TVec p, ld rd2, Psi& o) {
    auto angle = [](cl z) { return std::arg(z); };
    for (auto& b: S.BodyList) {
        bool moves = !b->speed_slae.iszero(); TVec ax = b->get_axis(), cm = b->get_cofm();
        for (auto& a: b->alist) {
            ld g = a.g, q = 0;
            if (moves) { cl V = C(b->speed_slae.r) + cl(0, b->speed_slae.o)*(C(a.r)-C(ax)); g -= V.real()*a.dl.x + V.imag()*a.dl.y; q = V.imag()*a.dl.x - V.real()*a.dl.y; }
            o.add(-g*logl(std::norm(C(p)-C(a.r)) + rd2)/2);
            if (q) { cl v1 = C(cm)-C(p), v2 = C(a.r)-C(p); ld th = std::arg(v1*std::conj(v2)); if (M_PIl-fabsl(th) < 1e-7L) return false; o.add(-q*th); }
        }
    }
    for (auto& q: S.SourceList) { cl z = C(p)-C(q.r); if (M_PIl-fabsl(angle(z)) < 1e-7L && q.g) return false; o.add(q.g*angle(z)); }
    return true;
}
static void psi_inf(const Space& S, TVec p, TVec rf, Psi& o) { TVec V = S.inf_speed(); o.add(TWOPI*(ld)p.y*((ld)V.x-rf.x)); o.add(-TWOPI*(ld)p.x*((ld)V.y-rf.y)); o.mag += TWOPI*(fabsl(p.y)*(fabsl(V.x)+fabsl(rf.x)) + fabsl(p.x)*(fabsl(V.y)+fabsl(rf.y))); }
// how far the far groups may take the streamfunction from the sum over their members (times 2 pi)
static ld psi_slack(const snode* leaf, TVec p, std::map<const TObj*, ld>& eps, ld rd2) {
    ld slack = 0;
    for (auto f: *leaf->FarNodes) {
        std::vector<const TObj*> w; below(f, w);
        for (int sg = 1; sg >= -1; sg -= 2) {
            cl m = 0; ld G = 0, dm = 0, e = 0; for (auto q: w) if (sg*q->g > 0) { m += C(q->r)*(ld)q->g; G += q->g; }
            if (G == 0) continue; m /= G; ld D = std::abs(C(p)-m); for (auto q: w) if (sg*q->g > 0) dm = std::max(dm, std::abs(C(q->r)-m)); if (dm >= D) return INFINITY;
            for (auto q: w) if (sg*q->g > 0) { ld k = std::abs(C(q->r)-m)/D, r2 = std::norm(C(p)-C(q->r)); e += fabsl(q->g)*(k*k/(1-k) + (r2 > 0 ? (eps[q]+rd2)/r2 : INFINITY)); }
            slack += e;
        }
    }
    return slack;
}
static std::map<const TObj*, ld> psi_cores(TSortedTree& t, double em, ld rd2) { std::map<const TObj*, ld> eps; for (auto n: t.getBottomNodes()) for (TObj* o = n->vRange.first; o < n->vRange.last; o++) eps[o] = (ld)em*em*std::max(second(n, o->r)*0.25L, rd2); return eps; }
static void prop_stream(Src& s) {
    Scene c; gen_scene(s, c); char fr; TVec rf = frame(s, c.S, fr, "ofb"); double em = s.pick({2.0, 1.0, 0.3, 5.0}); s.describe(fmt(" in %c eps %g", fr, em));
    auto v = fields(s, c, [&](double x0, double y0, int nx, int ny) { auto x = std::make_shared<XStreamfunction>(c.S, x0, y0, c.d, nx, ny); x->eps_mult = em; x->ref_frame = fr; return x; });
    Space T; clone(c.S, T); strip(T); double dl = T.average_segment_length(); ld rd2 = 0.04L*dl*dl;
    TSortedTree t(&T, 8, dl > 0 ? dl*10 : 0, dl > 0 ? dl*20 : INFINITY); t.build(); auto eps = psi_cores(t, em, rd2);
    for (int j = 0; j < c.ny; j++) for (int i = 0; i < c.nx; i++) {
        TVec p(c.x0+i*c.d, c.y0+j*c.d); Psi o; if (!psi_base(T, p, rd2, o)) continue; psi_inf(T, p, rf, o); const snode* leaf = t.findNode(p); bool ok = true;
        for (auto& q: T.VortexList) { ld r2 = std::norm(C(p)-C(q.r)) + eps[&q]; if (r2 == 0 && q.g) { ok = false; break; } if (q.g) o.add(-q.g*logl(r2)/2); }
        if (!ok) continue;
        o.slack = psi_slack(leaf, p, eps, rd2);
        if (!ok || !std::isfinite((double)o.slack)) continue;
        ld w = o.v/TWOPI, tol = (o.slack*1.001L + 1e-10L*o.mag)/TWOPI + 2e-7L*fabsl(w) + 1e-30L;
        CHECK(fabsl(v[j*c.nx+i]-w) <= tol, "streamfunction", "psi at (%g,%g) is %.9g, the sum gives %.9Lg (tolerance %.2Lg)", p.x, p.y, v[j*c.nx+i], w, tol);
        // as asked from scripts: every core is that of a segment, the frame is the original one
        Psi q; psi_base(T, p, rd2, q); psi_inf(T, p, TVec(), q); for (auto& x: T.VortexList) { ld r2 = std::norm(C(p)-C(x.r)) + rd2; if (r2 == 0) ok = false; else q.add(-x.g*logl(r2)/2); }
        if (ok) { double g = XStreamfunction::streamfunction(T, p); CHECK(fabsl(g-q.v/TWOPI) <= 1e-10L*q.mag + 1e-30L, "script_streamfunction", "psi(%g,%g) is %.12g, the sum gives %.12Lg", p.x, p.y, g, q.v/TWOPI); }
    }
}
// far from particles the differences of the streamfunction are the fluxes of the velocity
static void prop_flux(Src& s) {
    Scene c; gen_scene(s, c); char fr; frame(s, c.S, fr, "ofb"); c.nx = c.ny = 5; c.d = ldexp(1, (int)std::round(log2(c.size/256)));
    c.x0 = c.size*s.range(-4, 4); c.y0 = c.size*s.range(-4, 4); s.describe(fmt(" flux from (%g,%g) by %g in %c", c.x0, c.y0, c.d, fr));
    double near = INFINITY, L = 4*c.d; TVec mid(c.x0+2*c.d, c.y0+2*c.d);
    for (auto& o: c.S.VortexList) near = std::min(near, (o.r-mid).abs()); for (auto& o: c.S.SourceList) { near = std::min(near, (o.r-mid).abs()); if (o.r.x > mid.x && fabs(o.r.y-mid.y) < L) return; }
    for (auto& b: c.S.BodyList) { for (auto& a: b->alist) { near = std::min(near, (a.r-mid).abs()-a.dl.abs()); } }
    for (int j = 0; j < 5; j++) for (int i = 0; i < 5; i++) if (c.S.point_is_in_body(TVec(c.x0+i*c.d, c.y0+j*c.d))) return;
    if (near < 0.5*c.size) return; s.label("free of particles");
    XVelocity u(c.S, c.x0, c.y0, c.d, 5, 5), w(c.S, c.x0, c.y0, c.d, 5, 5); u.mode = 'x'; w.mode = 'y'; u.ref_frame = w.ref_frame = fr; u.evaluate(); w.evaluate();
    XStreamfunction f(c.S, c.x0, c.y0, c.d, 5, 5); f.eps_mult = 1; f.ref_frame = fr; f.evaluate();
    double G = 0, dl = 0, Q = 0; for (auto& o: c.S.VortexList) G += fabs(o.g); for (auto& o: c.S.SourceList) G += fabs(o.g); for (auto& b: c.S.BodyList) for (auto& a: b->alist) { G += fabs(a.g) + 2*a.dl.abs()*(b->speed_slae.r.abs()+fabs(b->speed_slae.o)*((a.r-b->get_axis()).abs()+a.dl.abs())); dl = std::max(dl, a.dl.abs()); }
    double V = 0, M = 0; for (int j = 0; j < 5; j++) for (int i = 0; i < 5; i++) { V = std::max(V, fabs(u.at(i, j))+fabs(w.at(i, j))); M = std::max(M, (double)fabs(f.at(i, j))); }
    // cores, far groups, bodies (their influence is that of points): all relative to the distance; Simpson's rule is better
    double tol = 4*c.d*(0.03*G/near) + 3e-7*(8*M + V*c.d) + 4*c.d*G/near*std::min(1.0, (c.size*c.size*0.05/(near*near) + dl/near*2)); bool clear = true; (void)Q;
    for (auto& b: c.S.BodyList) if (!b->speed_slae.iszero()) for (auto& a: b->alist) { TVec cm = b->get_cofm(); TVec v1 = cm-mid, v2 = a.r-mid; if (v1*v2 < 0) clear = false; }
    if (!clear) return; s.nontrivial();
    Space T; clone(c.S, T); strip(T); double al = T.average_segment_length(); ld rd2 = 0.04L*al*al; TSortedTree tr(&T, 8, al > 0 ? al*10 : 0, al > 0 ? al*20 : INFINITY); tr.build(); auto cores = psi_cores(tr, 1, rd2);
    auto jump = [&](int i, int j) { TVec p(c.x0+i*c.d, c.y0+j*c.d); return (double)(psi_slack(tr.findNode(p), p, cores, rd2)/TWOPI); };
    auto simpson = [](double a, double b, double c, double d, double e, double h) { return h/3*(a+4*b+2*c+4*d+e); };
    for (int i = 0; i < 5; i++) { double q = simpson(u.at(i,0), u.at(i,1), u.at(i,2), u.at(i,3), u.at(i,4), c.d), dp = (double)f.at(i, 4)-f.at(i, 0);
        double e = tol + jump(i, 0) + jump(i, 4); CHECK(fabs(q-dp) <= e, "flux", "flux through column %d is %.9g, psi differs by %.9g (tolerance %.2g)", i, q, dp, e); }
    for (int j = 0; j < 5; j++) { double q = -simpson(w.at(0,j), w.at(1,j), w.at(2,j), w.at(3,j), w.at(4,j), c.d), dp = (double)f.at(4, j)-f.at(0, j);
        double e = tol + jump(0, j) + jump(4, j); CHECK(fabs(q-dp) <= e, "flux", "flux through row %d is %.9g, psi differs by %.9g (tolerance %.2g)", j, q, dp, e); }
}
static void prop_pressure(Src& s) {
    Scene c; gen_scene(s, c); char fr; TVec rf = frame(s, c.S, fr, "sofb"); s.describe(fmt(" in %c", fr));
    auto v = fields(s, c, [&](double x0, double y0, int nx, int ny) { auto x = std::make_shared<XPressure>(c.S, x0, y0, c.d, nx, ny); x->eps_mult = 2; x->ref_frame = fr; return x; });
    Space T; clone(c.S, T); strip(T); shed(T); double dl = T.average_segment_length(); TSortedTree t(&T, 8, dl*20, 0.1); t.build(); MEpsilonFast e(&T, &t); e.CalcEpsilonFast(false);
    MConvectiveFast conv(&T, &t); conv.process_all_lists(); MDiffusiveFast(&T, &t).process_vort_list();
    for (int j = 0; j < c.ny; j++) for (int i = 0; i < c.nx; i++) {
        TVec p(c.x0+i*c.d, c.y0+j*c.d); ld got = v[j*c.nx+i];
        bool rim = false; for (auto& b: T.BodyList) for (auto& a: b->alist) { TVec r = p-a.corner; double k = (r*a.dl)/a.dl.abs2(); TVec q = r - a.dl*std::max(0.0, std::min(1.0, k)); rim = rim || q.abs() < 1e-9*c.size; }
        if (rim) continue;
        bool in = false; for (auto& b: T.BodyList) { int w = 0; size_t n = b->alist.size(); for (size_t k = 0; k < n; k++) { TVec A = b->alist[k].corner-p, B = b->alist[(k+1)%n].corner-p; if ((A.y > 0) != (B.y > 0) && A.x + (B.x-A.x)*(-A.y)/(B.y-A.y) > 0) w++; } in = in || w % 2; }
        if (in) { CHECK(got == 0, "inside", "pressure inside a body at (%g,%g) is %Lg", p.x, p.y, got); s.label("node inside"); continue; }
        Sum o; auto K = [&](TVec r) { cl z = C(p)-C(r); return z/std::norm(z); }; ld P = 0, mag = 0; auto add = [&](ld x) { P += x; mag += fabsl(x); }; auto dot = [](cl a, cl b) { return a.real()*b.real()+a.imag()*b.imag(); }; cl I(0, 1); bool ok = true;
        for (auto& b: T.BodyList) { ld gt = 0; for (auto& a: b->alist) { if ((p-a.r).abs() < 1e-9*c.size) ok = false;
            cl Vs = C(b->speed_slae.r) + cl(0, b->speed_slae.o)*(C(a.r)-C(b->get_axis())), D = C(a.dl); ld g = -dot(Vs, D), q = -dot(I*Vs, D);
            add(dot(I*K(a.r)*g + K(a.r)*q, Vs)); gt += (ld)a.gsum + a.g; add(-dot(D, I*K(a.r))*gt/(ld)(double)T.dt); } }
        for (auto& q: T.VortexList) { if ((p-q.r).abs() < 1e-9*c.size) { ok = false; break; } add(dot(C(q.v), I*K(q.r))*(ld)q.g); }
        TVec u = conv.velocity(p); if (!ok || !std::isfinite(u.x)) continue;
        ld w = P/TWOPI + 0.5L*(T.inf_speed().abs2() - u.abs2()); ld m = mag/TWOPI + T.inf_speed().abs2() + u.abs2() + 2*rf.abs2(); if (fr != 's') w += 0.5L*(u-rf).abs2();
        CHECK(fabsl(got-w) <= 2e-7L*fabsl(w) + 1e-9L*m, "pressure", "pressure at (%g,%g) is %.9Lg, the sum gives %.9Lg (of %.3Lg)", p.x, p.y, got, w, m);
    }
}
static void prop_vorticity(Src& s) {
    Scene c; gen_scene(s, c, false); double em = s.pick({2.0, 1.0, 0.3, 5.0}); s.describe(fmt(" eps %g", em));
    auto v = fields(s, c, [&](double x0, double y0, int nx, int ny) { auto x = std::make_shared<XVorticity>(c.S, x0, y0, c.d, nx, ny); x->eps_mult = em; return x; });
    Space T; clone(c.S, T); strip(T); shed(T); double dl = T.average_segment_length(); TSortedTree t(&T, 8, dl*20); t.build(); std::map<const TObj*, ld> ie;
    for (auto n: t.getBottomNodes()) for (TObj* o = n->vRange.first; o < n->vRange.last; o++) ie[o] = 1/((ld)em*em*std::max(second(n, o->r), 0.36L*dl*dl));
    for (int j = 0; j < c.ny; j++) for (int i = 0; i < c.nx; i++) {
        TVec p(c.x0+i*c.d, c.y0+j*c.d); ld got = v[j*c.nx+i];
        bool rim = false; for (auto& b: T.BodyList) for (auto& a: b->alist) { TVec r = p-a.corner; double k = (r*a.dl)/a.dl.abs2(); TVec q = r - a.dl*std::max(0.0, std::min(1.0, k)); rim = rim || q.abs() < 1e-9*c.size; }
        if (rim) continue;
        if (T.point_is_in_body(p)) { CHECK(got == 0, "inside", "vorticity inside a body at (%g,%g) is %Lg", p.x, p.y, got); s.label("node inside"); continue; }
        const snode* leaf = t.findNode(p); std::set<const TObj*> near; for (auto k: *leaf->NearNodes) for (TObj* o = k->vRange.first; o < k->vRange.last; o++) near.insert(o);
        ld w = 0, mag = 0, slack = 0; bool ok = true;
        for (auto& q: T.VortexList) { if (!q.g) continue; ld k = ie[&q]; if (!std::isfinite((double)k)) { ok = false; break; } ld x = std::norm(C(p)-C(q.r))*k, y = q.g*k*expl(-x)/M_PIl; if (fabsl(x-6) < 1e-9) slack += fabsl(y)*1.01L; else if (x > 6) continue; if (near.count(&q)) { w += y; mag += fabsl(y); } else { slack += fabsl(y); } }
        if (!ok) continue;
        if (T.BodyList.size()) { // the dark rim of the bodies
            ld h = INFINITY, hn = INFINITY; for (auto& b: T.BodyList) for (auto& a: b->alist) h = std::min(h, std::norm(C(p)-C(a.r))); for (auto k: *leaf->NearNodes) for (TObj* a: k->bllist) hn = std::min(hn, std::norm(C(p)-C(a->r)));
            ld arg = hn/((ld)dl*em*dl*em), y = std::isfinite((double)hn) && arg < 3 ? 0.5L*erfcl(arg) : 0; w += y; mag += y; if (fabsl(arg-3) < 1e-9) slack += 1e-4;
            ld a2 = h/((ld)dl*em*dl*em); if (h != hn && a2 < 3) slack += 0.5L*erfcl(a2); if (y > 0.01) s.label("rim"); }
        CHECK(fabsl(got-w) <= slack + 1e-6L*fabsl(w) + 1e-9L*mag + 1e-37L, "vorticity", "vorticity at (%g,%g) is %.9Lg, the sum gives %.9Lg (slack %.2Lg)", p.x, p.y, got, w, slack);
    }
}
// lines of the streamfunction of sinks: continuous across the cut of the angle
static void prop_cut(Src& s) {
    Space S; S.dt = TTime(1, 100); S.inf_vx = s.pick({"0", "1", "-0.3"}); S.inf_vy = s.pick({"0", "0.7"}); int n = s.range(1, 3); int N = s.range(12, 30); double d = 0.125;
    for (int i = 0; i < n; i++) S.SourceList.push_back(TObj(d*(s.range(-N, 2*N)+s.fine(0.2, 0.8)), d*(s.range(-2, N+2)+s.fine(0.2, 0.8)), s.fine(0.5, 3)*(s.flip() ? 1 : -1)));
    XStreamfunction f(S, 0, 0, d, N, N); f.eps_mult = 2; f.ref_frame = 'o'; f.evaluate(); double lo = f.min(), hi = f.max(), dv = (hi-lo)/s.range(3, 15), v0 = lo + dv*s.fine(0.1, 0.9);
    s.describe(fmt("%d sinks, grid of %d, inf (%s,%s), levels from %g by %g", n, N, S.inf_vx.operator std::string().c_str(), S.inf_vy.operator std::string().c_str(), v0, dv)); for (auto& q: S.SourceList) s.describe(fmt(" (%g,%g,%g)", q.r.x, q.r.y, q.g)); s.nontrivial();
    std::stringstream o; o << XIsoline(f, v0, hi, dv); std::string t = o.str(); const float* q = (const float*)t.data();
    for (size_t i = 0; i+1 < t.size()/8; i++) { if (q[2*i] != q[2*i] || q[2*i+2] != q[2*i+2]) continue; TVec a(q[2*i], q[2*i+1]), b(q[2*i+2], q[2*i+3]), m = (a+b)*0.5; if ((a-b).abs() < 1e-3*d) continue;
        ld near = INFINITY; TVec u = S.inf_speed(); for (auto& k: S.SourceList) { TVec r = m-k.r; near = std::min(near, (ld)r.abs()); u += r*(k.g/r.abs2())*(1/(2*M_PI)); }
        if (near < 4*d) continue; // flow along the line: its flux is small
        double flux = fabs(u.x*(b.y-a.y) - u.y*(b.x-a.x)), big = 0; for (auto& k: S.SourceList) { double r = (m-k.r).abs(); big += fabs(k.g)/(2*M_PI)*d*d/(r*r)*4; }
        CHECK(flux <= big + 1e-3*d*u.abs() + 1e-5, "across", "a streamline piece (%g,%g)-(%g,%g) is crossed by the flow: %g (allowed %g)", a.x, a.y, b.x, b.y, flux, big); }
}
static void prop_refused(Src& s) {
    Scene c; gen_scene(s, c); int k = (int)s.draw(4); bool r = false; s.describe(fmt(" field %d", k)); s.nontrivial(); bool nob = c.S.BodyList.empty(); int how = (int)s.draw(3); bool bad = true;
    try {
        char f = how == 0 ? s.pick({'x', '\0', 'B', 'z'}) : how == 1 ? 'b' : 'o'; double e = how == 2 ? s.pick({0.0, -1.0, -1e-9}) : 1; if (how == 1) bad = nob;
        if (k == 0) { XVelocity x(c.S, 0, 0, 1, 2, 2); x.mode = how == 2 ? s.pick({'z', '\0', 'X'}) : 'x'; x.ref_frame = f; x.evaluate(); }
        if (k == 1) { XStreamfunction x(c.S, 0, 0, 1, 2, 2); x.eps_mult = e; x.ref_frame = f; x.evaluate(); }
        if (k == 2) { XPressure x(c.S, 0, 0, 1, 2, 2); x.eps_mult = e; x.ref_frame = f; x.evaluate(); }
        if (k == 3) { bad = how == 2; XVorticity x(c.S, 0, 0, 1, 2, 2); x.eps_mult = e; x.evaluate(); }
    } catch (const std::exception&) { r = true; }
    CHECK(r == bad, "refused", "field %d, way %d, %zu bodies: %s", k, how, c.S.BodyList.size(), r ? "refused" : "accepted");
}
int main(int argc, char** argv) { return main_run(argc, argv, "C22", { {"velocity", 2500, 200000, prop_velocity, 0}, {"stream", 2500, 200000, prop_stream, 0}, {"flux", 3000, 100000, prop_flux, 0}, {"pressure", 2500, 200000, prop_pressure, 0}, {"vorticity", 2500, 200000, prop_vorticity, 0}, {"cut", 2000, 100000, prop_cut, 0}, {"refused", 1000, 20000, prop_refused, 0} }); }
