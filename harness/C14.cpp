// C14: moving, absorbing and shedding particles balance exactly.
#include "gen.hpp"
#include "MFlowmove.hpp"
using namespace pbt; using gen::cloud; using gen::body_of; using gen::Poly;
typedef long double ld;
static TVec3D v3(TVec r, double o) { return TVec3D(r.x, r.y, o); }
static const double EPS = 1e-10; // carries nothing

static int winding(const Poly& q, TVec p, ld& dist) {
    int w = 0; size_t n = q.size(); dist = 1e300L;
    for (size_t i = 0; i < n; i++) {
        ld ax = (ld)q[i].x-p.x, ay = (ld)q[i].y-p.y, bx = (ld)q[(i+1)%n].x-p.x, by = (ld)q[(i+1)%n].y-p.y;
        ld dx = bx-ax, dy = by-ay, l2 = dx*dx+dy*dy, t = l2 > 0 ? -(ax*dx+ay*dy)/l2 : 0; t = t < 0 ? 0 : t > 1 ? 1 : t;
        ld ex = ax+t*dx, ey = ay+t*dy; dist = std::min(dist, sqrtl(ex*ex+ey*ey));
        ld cr = ax*by-ay*bx; if (ay <= 0 && by > 0 && cr > 0) w++; if (ay > 0 && by <= 0 && cr < 0) w--;
    }
    return w;
}
static Poly corners(const TBody& b) { Poly p; for (auto& a: b.alist) p.push_back(a.corner); return p; }
struct Where { int body = -1; bool unsure = false; };
static Where where(const std::vector<Poly>& ps, const std::vector<bool>& inside_out, TVec p) { // first body that contains p
    Where w;
    for (size_t i = 0; i < ps.size(); i++) { ld d; bool in = winding(ps[i], p, d) & 1; if (d < 1e-9L) w.unsure = true; if (in != inside_out[i]) { w.body = i; return w; } }
    return w;
}
static TAtt* nearest(TBody& b, TVec p, bool& tie) {
    TAtt* r = 0; double best = INFINITY, second = INFINITY; for (auto& a: b.alist) { double d = (a.r-p).abs2(); if (d < best) { second = best; best = d; r = &a; } else second = std::min(second, d); }
    tie = second <= best*(1+1e-9); return r;
}
static void gen_bodies(Src& s, Space& S, int nmax) {
    int nb = (int)s.draw(nmax+1);
    for (int i = 0; i < nb; i++) {
        bool ccw = i == 0 && s.draw(8) == 0; Poly p = gen::polygon(s, 3, 40, ccw); for (auto& v: p) v *= s.pick({0.5, 0.2}); if (ccw) { for (auto& v: p) v *= 6; s.label("flow inside"); }
        gen::transform(p, TVec(s.fine(-1, 1), s.fine(-1, 1)), s.fine(0, 7)); auto b = body_of(p);
        int sl = (int)s.draw(4); int gk = (int)s.draw(3);
        for (auto& a: b->alist) { a.slip = sl == 1 || (sl == 2 && s.flip()); a.g = gk == 0 ? s.fine(-1, 1) : s.draw(3) == 0 ? 0 : (s.flip() ? 1 : -1)*s.logreal(1e-13, 1); a.gsum = s.fine(-1, 1); a.hsum = s.fine(-1, 1); }
        b->doFillProperties();
        b->holder = TVec3D(s.fine(-1, 1), s.fine(-1, 1), s.fine(-1, 1)); b->fdt_dead = TVec3D(s.fine(-1, 1), s.fine(-1, 1), s.fine(-1, 1)); b->g_dead = s.fine(-1, 1);
        S.BodyList.push_back(b);
    }
    S.EnumerateBodies();
}
struct G0 { std::vector<double> gsum, hsum; TVec3D fdt; double g_dead; };
static void particles(Src& s, Space& S) {
    for (auto* l: {&S.VortexList, &S.HeatList, &S.StreakList}) {
        *l = cloud(s, 120, s.pick({1.0, 3.0}));
        bool toward = s.flip();
        for (auto& o: *l) {
            o.v = TVec(s.fine(-1, 1), s.fine(-1, 1)); if (toward && S.BodyList.size()) o.v = S.BodyList[s.draw(S.BodyList.size())]->get_cofm() - o.r;
            if (s.draw(6) == 0) o.g = s.pick({0.0, 1e-11, -9.9e-11, 1.1e-10, -1e-9}); o._1_eps = 3;
        }
    }
}
// one step of bodies and particles
static void prop_step(Src& s) {
    Space S; gen_bodies(s, S, 3); particles(s, S);
    S.time = TTime(s.flip(0.8) ? s.range(0, 30) : s.range(-20, -1), 10); S.dt = TTime(s.range(1, 20), 100); S.inf_vx = s.pick({"0", "1", "2*t"}); S.inf_vy = s.pick({"0", "-0.5"}); S.inf_marker = TVec(s.fine(-1, 1), 3);
    bool remove = s.flip(0.9), moving = s.flip();
    for (auto& b: S.BodyList) if (moving) { b->speed_slae = TVec3D(s.fine(-1, 1), s.fine(-1, 1), s.fine(-2, 2)); if (s.flip()) { b->speed_x = "0.5"; b->speed_o = "t"; } }
    // a body that runs into its stop shortens the step for everything
    double share = 1;
    if (moving) for (auto& b: S.BodyList) for (int i = 0; i < 3; i++) {
        if (!s.flip(0.15)) continue;
        auto C = [i](TVec3D& v) -> double& { return i == 0 ? v.r.x : i == 1 ? v.r.y : v.o; };
        C(b->kspring) = s.pick({0.0, 1.0, 20.0}); double v = C(b->speed_slae); if (fabs(v) < 0.05) continue;
        double q = s.pick({0.25, 0.5, 0.75, 0.9, 2.0, 0.0}); TVec3D pos = b->holder + b->dpos;
        (v > 0 ? C(b->collision_max) : C(b->collision_min)) = C(pos) + v*double(S.dt)*q;
        if (q < share) { share = q; s.label("stop"); }
    }
    double dt = S.dt, t = S.time; const double full = dt; dt *= share; std::vector<TVec3D> sp; for (auto& b: S.BodyList) sp.push_back(TVec3D(b->speed_x.eval(t), b->speed_y.eval(t), b->speed_o.eval(t)));
    s.describe(fmt("%zu vortices %zu heat %zu ink %zu bodies%s%s dt %g", S.VortexList.size(), S.HeatList.size(), S.StreakList.size(), S.BodyList.size(), moving ? " moving" : "", remove ? "" : " keeping vortices in bodies", dt));
    // model: bodies carried by their motion, particles by their velocities
    std::vector<Poly> ps; std::vector<bool> io; std::vector<TVec3D> hold, dpos;
    for (size_t i = 0; i < S.BodyList.size(); i++) { auto& b = S.BodyList[i]; Poly p = corners(*b); TVec ax = b->get_axis(); double c = cos(b->speed_slae.o*dt), n = sin(b->speed_slae.o*dt);
        for (auto& v: p) { TVec d = v-ax; v = ax + b->speed_slae.r*dt + TVec(c*d.x-n*d.y, n*d.x+c*d.y); } ps.push_back(p); io.push_back(b->isInsideValid());
        hold.push_back(b->holder + dt*sp[i]); dpos.push_back(b->dpos + dt*(b->speed_slae - sp[i])); }
    auto v0 = S.VortexList, h0 = S.HeatList, k0 = S.StreakList; std::vector<G0> g0;
    for (auto& b: S.BodyList) { G0 g; for (auto& a: b->alist) { g.gsum.push_back(a.gsum); g.hsum.push_back(a.hsum); } g.fdt = b->fdt_dead; g.g_dead = b->g_dead; g0.push_back(g); }
    TVec im = S.inf_marker + S.inf_speed()*dt; TTime t0 = S.time;
    MFlowmove f(&S); const void* col = &S; size_t cleaned = 99;
    f.move_and_clean(remove, &col, &cleaned);
    CHECK((col == nullptr) == (share >= 1), "collision", "the step is %s by a stop", share < 1 ? "not ended" : "ended");
    CHECK((S.inf_marker-im).abs() < 1e-14, "marker", "marker of the incoming flow at (%g,%g) instead of (%g,%g)", S.inf_marker.x, S.inf_marker.y, im.x, im.y);
    CHECK(double(S.time) == t && S.dt == full, "time", "the step changes the time");
    for (size_t i = 0; i < ps.size(); i++) {
        auto& b = S.BodyList[i]; for (size_t j = 0; j < ps[i].size(); j++) CHECK((b->alist[j].corner-ps[i][j]).abs() < 1e-13, "body_motion", "corner %zu of body %zu at (%.15g,%.15g) instead of (%.15g,%.15g)", j, i, b->alist[j].corner.x, b->alist[j].corner.y, ps[i][j].x, ps[i][j].y);
        TVec3D dh = b->holder - hold[i], dd = b->dpos - dpos[i]; CHECK(dh.r.abs() + fabs(dh.o) + dd.r.abs() + fabs(dd.o) < 1e-13, "holder_motion", "holder of body %zu is off by (%g,%g,%g), offset by (%g,%g,%g)", i, dh.r.x, dh.r.y, dh.o, dd.r.x, dd.r.y, dd.o);
    }
    // what becomes of each particle
    struct Exp { size_t from; bool maybe; };
    auto follow = [&](const std::vector<TObj>& was, const std::vector<TObj>& now, bool drop_small, bool inside, const char* what, std::function<void(const TObj&, int)> eaten) {
        size_t k = 0; bool sure = true;
        for (size_t i = 0; i < was.size(); i++) {
            TObj o = was[i]; o.r = o.r + o.v*dt; Where w = where(ps, io, o.r); bool gone = (drop_small && fabs(o.g) < EPS) || (inside && w.body >= 0);
            bool same = k < now.size() && (now[k].r-o.r).abs() <= 1e-14*(1+o.r.abs()) && now[k].g == o.g;
            if (inside && w.unsure && !(drop_small && fabs(o.g) < EPS)) { if (same) k++; sure = false; continue; }
            if (gone) { if (!(drop_small && fabs(o.g) < EPS)) { eaten(o, w.body); s.label(std::string(what) + " absorbed"); s.nontrivial(); } continue; }
            CHECK(same, fmt("%s_lost", what).c_str(), "%s %zu of strength %g that should be at (%.12g,%.12g), outside every body, is missing or changed", what, i, o.g, o.r.x, o.r.y);
            CHECK(now[k].v.x == 0 && now[k].v.y == 0, "velocity_left", "the velocity of a %s is kept for the next step", what);
            k++;
        }
        CHECK(k == now.size(), fmt("%s_kept", what).c_str(), "%zu %s particles are left instead of %zu", now.size(), what, k);
        return sure;
    };
    struct Acc { ld fx = 0, fy = 0, fo = 0, g = 0, m = 0; }; std::vector<Acc> acc(S.BodyList.size()); std::map<TAtt*, ld> dg, dh; std::set<int> unsure; size_t n_clean = 0; bool tie_any = false;
    bool sv = follow(v0, S.VortexList, true, remove, "vortex", [&](const TObj& o, int bi) {
        auto& b = *S.BodyList[bi]; Acc& a = acc[bi]; TVec d = o.r - b.get_axis(); a.fx -= (ld)o.r.y*o.g; a.fy += (ld)o.r.x*o.g; a.fo += d.abs2()*o.g; a.g += o.g; a.m += fabs(o.g)*(1+o.r.abs()+d.abs2()); n_clean++;
        bool tie; TAtt* t = nearest(b, o.r, tie); if (tie) { unsure.insert(bi); tie_any = true; } dg[t] -= o.g; });
    bool sh = true;
    if (true) sh = follow(h0, S.HeatList, true, true, "heat", [&](const TObj& o, int bi) { bool tie; TAtt* t = nearest(*S.BodyList[bi], o.r, tie); if (tie) unsure.insert(bi); dh[t] -= o.g; });
    follow(k0, S.StreakList, false, true, "ink", [](const TObj&, int) {});
    if (sv) CHECK(cleaned == n_clean, "count", "%zu absorbed vortices reported instead of %zu", cleaned, n_clean);
    ld G0s = 0, G1s = 0, D = 0, mag = 0, hmag = 0; for (auto& o: h0) hmag += fabs(o.g);
    for (auto& o: v0) { if (fabs(o.g) >= EPS) G0s += o.g; mag += fabs(o.g); } for (auto& o: S.VortexList) G1s += o.g;
    for (size_t i = 0; i < S.BodyList.size(); i++) {
        auto& b = *S.BodyList[i]; Acc& a = acc[i];
        for (size_t j = 0; j < b.alist.size(); j++) {
            auto& t = b.alist[j]; ld want = g0[i].gsum[j] + dg[&t]; mag += fabs(t.g);
            if (fabs(t.g) < EPS || t.slip) { want -= t.g; TVec d = t.corner-b.get_axis(); a.fx -= (ld)t.corner.y*t.g; a.fy += (ld)t.corner.x*t.g; a.fo += d.abs2()*t.g; a.g += t.g; G0s += t.g; a.m += fabs(t.g)*(1+t.corner.abs()+d.abs2()); }
            if (sv && !unsure.count(i)) CHECK(fabsl(t.gsum-want) <= 1e-13L*(1+fabsl(want)+a.m), "gsum", "account of segment %zu of body %zu is %.12g instead of %.12Lg", j, i, t.gsum, want);
            if (sh && !unsure.count(i)) { ld wh = g0[i].hsum[j] + dh[&t]; CHECK(fabsl(t.hsum-wh) <= 1e-13L*(1+fabsl(wh)+hmag), "hsum", "heat account of segment %zu of body %zu is %.12g instead of %.12Lg", j, i, t.hsum, wh); }
        }
        ld e = 1e-12L*(1+a.m);
        D += (ld)b.g_dead - g0[i].g_dead;
        if (sv) {
            CHECK(fabsl(b.g_dead-g0[i].g_dead-a.g) <= e, "g_dead", "body %zu is credited %.12g instead of %.12Lg", i, b.g_dead-g0[i].g_dead, a.g);
            CHECK(fabsl(b.fdt_dead.r.x-g0[i].fdt.r.x-a.fx) <= e && fabsl(b.fdt_dead.r.y-g0[i].fdt.r.y-a.fy) <= e && fabsl(b.fdt_dead.o-g0[i].fdt.o-a.fo) <= e, "fdt_dead", "impulse of absorbed vortices of body %zu is (%.12g,%.12g,%.12g) instead of (%.12Lg,%.12Lg,%.12Lg)", i, b.fdt_dead.r.x-g0[i].fdt.r.x, b.fdt_dead.r.y-g0[i].fdt.r.y, b.fdt_dead.o-g0[i].fdt.o, a.fx, a.fy, a.fo);
        }
    }
    CHECK(fabsl(G0s-G1s-D) <= 1e-12L*(1+mag), "balance", "circulation before %.12Lg, after %.12Lg, absorbed %.12Lg", G0s, G1s, D);
}
// bodies fixed to each other stay together
static void prop_chain(Src& s) {
    Space S; int n = s.range(2, 4), top = 0; std::vector<int> par(n, -1);
    for (int i = 0; i < n; i++) { Poly p = gen::polygon(s, 3, 20); gen::transform(p, TVec(s.fine(-2, 2), s.fine(-2, 2)), 0); auto b = body_of(p); b->holder = TVec3D(s.fine(-2, 2), s.fine(-2, 2), s.fine(-1, 1)); S.BodyList.push_back(b); }
    bool rev = s.flip(); // children may be listed before their parents
    for (int i = 1; i < n; i++) par[i] = (int)s.draw(i);
    auto idx = [&](int i) { return rev ? n-1-i : i; };
    for (int i = 1; i < n; i++) S.BodyList[idx(i)]->root_body = S.BodyList[idx(par[i])];
    S.EnumerateBodies(); S.dt = TTime(s.range(1, 50), 100); double dt = S.dt;
    TVec3D V(s.fine(-1, 1), s.fine(-1, 1), s.fine(-3, 3)); auto& R = *S.BodyList[idx(top)]; TVec ax = R.get_axis(); R.speed_slae = V; R.speed_x = fmt("%.17g", V.r.x); R.speed_y = fmt("%.17g", V.r.y); R.speed_o = fmt("%.17g", V.o);
    for (int i = 1; i < n; i++) { auto& b = *S.BodyList[idx(i)]; b.speed_slae = v3(V.r + rotl(b.get_axis()-ax)*V.o, V.o); }
    s.describe(fmt("%d bodies turning %g in %g%s", n, V.o, dt, rev ? " listed in reverse" : "")); s.nontrivial(n > 2); s.label(n > 2 ? "chain" : "pair");
    std::vector<Poly> want; double c = cos(V.o*dt), q = sin(V.o*dt); std::vector<TVec3D> hold;
    auto carry = [&](TVec v) { TVec d = v-ax; return ax + V.r*dt + TVec(c*d.x-q*d.y, q*d.x+c*d.y); };
    for (auto& b: S.BodyList) { Poly p = corners(*b); for (auto& v: p) v = carry(v); want.push_back(p); hold.push_back(v3(carry(b->holder.r), b->holder.o + V.o*dt)); }
    const void* col; MFlowmove f(&S); f.move_and_clean(true, &col);
    for (int i = 0; i < n; i++) { auto& b = *S.BodyList[i]; for (size_t j = 0; j < want[i].size(); j++) CHECK((b.alist[j].corner-want[i][j]).abs() < 1e-12, "apart", "corner %zu of body %d is %.3g off the rigid motion of the whole", j, i, (b.alist[j].corner-want[i][j]).abs());
        CHECK((b.holder.r-hold[i].r).abs() < 1e-12 && fabs(b.holder.o-hold[i].o) < 1e-12 && b.dpos.r.abs() < 1e-12 && fabs(b.dpos.o) < 1e-12, "holder", "holder of body %d at (%.12g,%.12g,%.12g) instead of (%.12g,%.12g,%.12g), offset (%g,%g,%g)", i, b.holder.r.x, b.holder.r.y, b.holder.o, hold[i].r.x, hold[i].r.y, hold[i].o, b.dpos.r.x, b.dpos.r.y, b.dpos.o); }
}
static void prop_shed(Src& s) {
    Space S; gen_bodies(s, S, 3); particles(s, S); S.StreakSourceList = cloud(s, 10, 1); S.SourceList = cloud(s, 5, 1);
    auto rat = [&](int lo) { return TTime(s.range(lo, 40), s.pick({1u, 10u, 100u, 7u, 4096u})); };
    S.time = rat(-5); S.dt_streak = rat(1); S.dt = rat(1);
    s.describe(fmt("%zu bodies, time %d/%u, emission every %d/%u, %zu emitters", S.BodyList.size(), S.time.value, S.time.timescale, S.dt_streak.value, S.dt_streak.timescale, S.StreakSourceList.size()));
    auto v0 = S.VortexList, h0 = S.HeatList, k0 = S.StreakList, q0 = S.StreakSourceList, sink0 = S.SourceList; std::vector<std::vector<TAtt>> a0; for (auto& b: S.BodyList) a0.push_back(b->alist);
    MFlowmove f(&S); f.vortex_shed();
    size_t k = 0; for (; k < v0.size(); k++) CHECK(k < S.VortexList.size() && S.VortexList[k].g == v0[k].g && S.VortexList[k].r.x == v0[k].r.x && S.VortexList[k].r.y == v0[k].r.y, "old_vortex", "shedding changes a free vortex");
    for (size_t i = 0; i < a0.size(); i++) for (size_t j = 0; j < a0[i].size(); j++) {
        auto &a = a0[i][j], &n = S.BodyList[i]->alist[j];
        CHECK(n.g == a.g && n.slip == a.slip && (n.corner-a.corner).abs() == 0, "segment_touched", "shedding changes a segment");
        CHECK(fabs(n.gsum-a.gsum-a.g) <= 1e-15, "shed_gsum", "account of segment %zu grows by %g instead of %g", j, n.gsum-a.gsum, a.g);
        if (a.slip || fabs(a.g) < EPS) { s.label("segment sheds nothing"); continue; }
        CHECK(k < S.VortexList.size(), "shed_count", "segment %zu of strength %g shed nothing", j, a.g); TObj& o = S.VortexList[k++]; s.nontrivial();
        TVec w = a.corner + TVec(-a.dl.y, a.dl.x)*1e-4; CHECK(o.g == a.g && (o.r-w).abs() <= 1e-14, "shed", "segment %zu shed strength %.12g at (%.12g,%.12g) instead of %.12g at (%.12g,%.12g)", j, o.g, o.r.x, o.r.y, a.g, w.x, w.y);
    }
    CHECK(k == S.VortexList.size(), "shed_count", "%zu vortices after shedding instead of %zu", S.VortexList.size(), k);
    f.streak_shed();
    bool due = ((__int128)S.time.value*S.dt_streak.timescale) % ((__int128)S.dt_streak.value*S.time.timescale) == 0;
    if (due) { s.label("ink due"); s.nontrivial(); }
    CHECK(S.StreakList.size() == k0.size() + (due ? q0.size() : 0), "ink_count", "%zu ink particles instead of %zu, emission is %s", S.StreakList.size(), k0.size() + (due ? q0.size() : 0), due ? "due" : "not due");
    for (size_t i = 0; i < S.StreakList.size(); i++) { const TObj &a = i < k0.size() ? k0[i] : q0[i-k0.size()], &b = S.StreakList[i]; CHECK(a.r.x == b.r.x && a.r.y == b.r.y && a.g == b.g, "ink", "ink particle %zu differs from its emitter", i); }
    CHECK(S.StreakSourceList.size() == q0.size() && S.SourceList.size() == sink0.size() && S.HeatList.size() == h0.size(), "cross", "shedding changes other lists");
}
// several steps of heat: the layer at a body of constant temperature, constant flux, insulation
static void prop_heat(Src& s) {
    Space S; gen_bodies(s, S, 3); S.dt = TTime(1, s.range(2, 20)); int steps = s.range(1, 5);
    bool moving = s.flip();
    for (auto& b: S.BodyList) { b->heat_condition = s.pick({hc_t::const_t, hc_t::isolate, hc_t::const_w, hc_t::neglect}); for (auto& a: b->alist) { a.heat_const = (float)s.fine(-2, 2); a.hsum = 0; } if (moving) b->speed_slae = TVec3D(s.fine(-1, 1), s.fine(-1, 1), s.fine(-1, 1)); }
    S.HeatList = cloud(s, 60, s.pick({1.0, 3.0})); for (auto& o: S.HeatList) { if (s.draw(8) == 0) o.r.x += 14; if (S.BodyList.size() && s.flip()) { auto& b = S.BodyList[s.draw(S.BodyList.size())]; auto& a = b->alist[s.draw(b->size())]; o.r = a.corner + a.dl*s.unit() + rotl(a.dl)*s.fine(-0.2, 1.5); } }
    s.describe(fmt("%zu heat particles %zu bodies%s, %d steps", S.HeatList.size(), S.BodyList.size(), moving ? " moving" : "", steps)); s.nontrivial(S.BodyList.size() && steps > 1);
    MFlowmove f(&S); const void* col; double dt = S.dt;
    for (int step = 0; step < steps; step++) {
        // shedding first (as the main loop does), with the layer found in the previous step
        std::map<const TAtt*, long> slot; for (auto& b: S.BodyList) for (auto& a: b->alist) slot[&a] = a.heat_layer_obj_no;
        std::vector<TObj> m = S.HeatList; std::map<const TAtt*, ld> hs, hm; ld add = 0, acc = 0;
        for (auto& b: S.BodyList) for (auto& a: b->alist) { hs[&a] = a.hsum; ld q = (ld)a.dl.abs2()*a.heat_const; hm[&a] = fabsl(a.hsum) + 2*fabsl(q); TObj n(a.r+rotl(a.dl)*0.5, (double)q);
            if (b->heat_condition == hc_t::isolate) { if (a.hsum) { n.g = -a.hsum; m.push_back(n); hs[&a] = 0; } }
            else if (b->heat_condition == hc_t::const_w) { m.push_back(n); hs[&a] += q; }
            else if (b->heat_condition == hc_t::const_t) { if (slot[&a] >= 0) { CHECK((size_t)slot[&a] < S.HeatList.size(), "layer_index", "segment refers to heat particle %ld of %zu", slot[&a], S.HeatList.size()); hs[&a] += q - m[slot[&a]].g; hm[&a] += fabsl(m[slot[&a]].g); m[slot[&a]].g = (double)q; s.label("layer refilled"); } else { hs[&a] += q; m.push_back(n); } } }
        f.heat_shed();
        CHECK(S.HeatList.size() == m.size(), "heat_count", "%zu heat particles after shedding instead of %zu", S.HeatList.size(), m.size());
        for (size_t i = 0; i < m.size(); i++) CHECK((m[i].r-S.HeatList[i].r).abs() < 1e-14 && fabs(m[i].g-S.HeatList[i].g) < 1e-14*(1+fabs(m[i].g)), "heat_shed", "heat particle %zu after shedding is %g at (%g,%g) instead of %g at (%g,%g)", i, S.HeatList[i].g, S.HeatList[i].r.x, S.HeatList[i].r.y, m[i].g, m[i].r.x, m[i].r.y);
        for (auto& b: S.BodyList) for (auto& a: b->alist) CHECK(fabsl(a.hsum-hs[&a]) <= 1e-13L*(1+fabsl(hs[&a])+hm[&a]), "heat_flow", "heat given off by a segment is %g instead of %Lg", a.hsum, hs[&a]);
        bool keep = s.flip(0.3); if (!keep) S.zero_forces(); else for (auto& b: S.BodyList) for (auto& a: b->alist) a.heat_layer_obj_no = -1;
        for (auto& o: S.HeatList) o.v = s.draw(3) ? TVec() : TVec(s.fine(-1, 1), s.fine(-1, 1));
        // model of the move
        std::vector<Poly> ps, ls; std::vector<bool> io;
        for (auto& b: S.BodyList) { Poly p = corners(*b), l; TVec ax = b->get_axis(); double c = cos(b->speed_slae.o*dt), n = sin(b->speed_slae.o*dt); for (auto& v: p) { TVec d = v-ax; v = ax + b->speed_slae.r*dt + TVec(c*d.x-n*d.y, n*d.x+c*d.y); }
            for (size_t i = 0; i < p.size(); i++) { TVec a = p[i], e = p[(i+1)%p.size()]; l.push_back((a+e)*0.5 + rotl(e-a)); } ps.push_back(p); ls.push_back(l); io.push_back(b->isInsideValid()); }
        m.clear(); std::map<const TAtt*, long> want; std::vector<std::function<void()>> todo; std::map<const TAtt*, ld> dh; bool unsure = false; ld before = 0, after = 0;
        struct Ev { TObj o; int body, layer; }; std::vector<Ev> ev;
        for (auto o: S.HeatList) { if (fabs(o.g) < EPS) continue; o.r += o.v*dt; Where w = where(ps, io, o.r), l; if (w.body < 0) l = where(ls, io, o.r); unsure = unsure || w.unsure || l.unsure; ev.push_back({o, w.body, l.body}); before += o.g; }
        std::map<const TAtt*, ld> h0; ld H0 = 0, H1 = 0; for (auto& b: S.BodyList) for (auto& a: b->alist) { h0[&a] = a.hsum; H0 += a.hsum; }
        f.move_and_clean(true, &col);
        for (auto& o: S.HeatList) after += o.g; for (auto& b: S.BodyList) for (auto& a: b->alist) H1 += a.hsum;
        CHECK(fabsl(before-H0-after+H1) <= 1e-11L*(1+fabsl(before)+S.HeatList.size()), "heat_balance", "heat %Lg with %Lg in the accounts becomes %Lg with %Lg", before, H0, after, H1);
        std::map<const TAtt*, long> layer;
        for (auto& e: ev) {
            bool tie = false; TAtt* t = e.body >= 0 ? nearest(*S.BodyList[e.body], e.o.r, tie) : e.layer >= 0 ? nearest(*S.BodyList[e.layer], e.o.r, tie) : 0; unsure = unsure || tie;
            if (e.body >= 0) { dh[t] -= e.o.g; hm[t] += fabs(e.o.g); s.label("heat absorbed"); continue; }
            if (e.layer >= 0 && S.BodyList[e.layer]->heat_condition == hc_t::const_t) { s.label("in the layer"); if (layer.count(t)) { dh[t] -= e.o.g; hm[t] += fabs(e.o.g); continue; } layer[t] = m.size(); }
            m.push_back(e.o);
        }
        if (unsure) { s.label("ambiguous: balance only"); return; }
        CHECK(m.size() == S.HeatList.size(), "heat_kept", "%zu heat particles left instead of %zu", S.HeatList.size(), m.size());
        for (size_t i = 0; i < m.size(); i++) CHECK((m[i].r-S.HeatList[i].r).abs() < 1e-13*(1+m[i].r.abs()) && m[i].g == S.HeatList[i].g, "heat_moved", "heat particle %zu is %g at (%g,%g) instead of %g at (%g,%g)", i, S.HeatList[i].g, S.HeatList[i].r.x, S.HeatList[i].r.y, m[i].g, m[i].r.x, m[i].r.y);
        for (auto& b: S.BodyList) for (auto& a: b->alist) { long w = layer.count(&a) ? layer[&a] : -1; CHECK(a.heat_layer_obj_no == w, "layer", "heat particle %ld instead of %ld is taken for the layer of a segment", (long)a.heat_layer_obj_no, w); ld h = h0[&a]+dh[&a]; CHECK(fabsl(a.hsum-h) <= 1e-13L*(1+fabsl(h)+hm[&a]), "heat_account", "heat account %g instead of %Lg", a.hsum, h); }
        // what has left the domain is dropped; the layer still refers to the same particles
        std::map<const TAtt*, TObj> mine; for (auto& l: layer) mine[l.first] = S.HeatList[l.second];
        f.heat_crop(16);
        size_t k = 0; for (auto& o: m) { if (o.r.x > 16) { s.label("cropped"); continue; } CHECK(k < S.HeatList.size() && S.HeatList[k].g == o.g && (S.HeatList[k].r-o.r).abs() < 1e-13*(1+o.r.abs()), "crop", "heat at x<=16 is dropped or changed"); k++; }
        CHECK(k == S.HeatList.size(), "crop", "heat at x>16 is kept");
        for (auto& b: S.BodyList) for (auto& a: b->alist) { long n = a.heat_layer_obj_no;
            if (!mine.count(&a)) CHECK(n < 0, "crop_layer", "after dropping far heat a segment without a layer has one");
            else if (mine[&a].r.x > 16) CHECK(n < 0, "crop_layer", "the layer of a segment refers to a particle that was dropped");
            else CHECK(n >= 0 && (size_t)n < S.HeatList.size() && S.HeatList[n].r.x == mine[&a].r.x && S.HeatList[n].g == mine[&a].g, "crop_layer", "after dropping far heat the layer of a segment refers to another particle"); }
    }
}
int main(int argc, char** argv) { return main_run(argc, argv, "C14", { {"step", 60000, 1500000, prop_step, 0}, {"chain", 40000, 800000, prop_chain, 0}, {"shed", 40000, 800000, prop_shed, 0}, {"heat", 20000, 500000, prop_heat, 0} }); }
