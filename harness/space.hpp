// Arbitrary spaces (every saved member set), and their comparison bit for bit.
#pragma once
#include "gen.hpp"
#include <cstring>

namespace spacegen {
using pbt::Src; using pbt::fmt;

inline double any(Src& s) { return s.anydouble(); }
inline TVec anyvec(Src& s) { double x = any(s); return TVec(x, any(s)); }
inline TVec3D any3(Src& s) { double x = any(s), y = any(s); return TVec3D(x, y, any(s)); }
inline TTime anytime(Src& s, bool positive = false) {
    int32_t v; uint32_t ts;
    switch (s.draw(4)) {
        case 0: v = s.range(0, 20); ts = s.pick({1u, 10u, 100u, 1000u}); break;
        case 1: v = s.range(-2000, 2000); ts = (uint32_t)s.range(1, 5000); break;
        case 2: v = (int32_t)s.draw(2147483647u); ts = 1 + (uint32_t)s.draw(4294967294u); break;
        default: v = s.pick({0, 1, -1, 2147483647, -2147483647-1}); ts = s.pick({1u, 7u, 4294967295u}); }
    if (positive && v <= 0) v = v == 0 ? 1 : -(v+1)+1;
    return TTime(v, ts);
}
inline std::string anytext(Src& s) {
    static const char* w[] = {"", "re600", "a b", "100%", "%s%n", "тест", "x\"y'z\\", "body00", "=", "# no", "a/b", ".", "-1", "\t"};
    std::string r = w[s.draw(14)];
    if (s.draw(8) == 0) for (int i = s.range(1, 300); i > 0; i--) r += (char)('a' + i % 26);
    return r;
}
inline std::string anyexpr(Src& s) {
    static const char* w[] = {"", "0", "1", "sin(t)", "t<1 and t or 1", "2*pi*cos(2*pi*t)", "-0.5", "1e-3*t^2", "0x10", "t"};
    std::string r = w[s.draw(10)];
    if (s.draw(8) == 0) r = fmt("%.17g*t", s.fine(-10, 10));
    if (s.draw(20) == 0) { r = "0"; for (int i = s.range(1, 200); i > 0; i--) r += "+t*0"; }
    return r;
}
inline std::vector<TObj> anylist(Src& s, int nmax, double nastiness = 0.3) {
    std::vector<TObj> l; int n = s.draw(3) == 0 ? 0 : s.sized(0, nmax);
    bool nasty = s.flip(nastiness);
    for (int i = 0; i < n; i++) {
        TObj o = nasty ? TObj(any(s), any(s), any(s)) : TObj(s.fine(-5, 5), s.fine(-5, 5), s.fine(-0.1, 0.1));
        o.v = TVec(7, -7); o._1_eps = 3; l.push_back(o);
    }
    return l;
}
inline double spring(Src& s) { switch (s.draw(4)) { case 0: return INFINITY; case 1: return 0; case 2: return s.fine(0, 100); default: return fabs(any(s)); } }
inline void minmax(Src& s, double& a, double& b) {
    switch (s.draw(4)) {
        case 0: a = b = NAN; break;
        case 1: a = any(s); b = NAN; break;
        case 2: a = NAN; b = any(s); break;
        default: a = any(s); b = any(s); if (a > b) std::swap(a, b); if (a >= b) b = NAN; }
}
inline std::shared_ptr<TBody> anybody(Src& s, bool heat = true) {
    auto b = std::make_shared<TBody>();
    int kind = (int)s.draw(5);
    if (kind == 0) { int n = s.sized(1, 40); for (int i = 0; i < n; i++) b->alist.emplace_back(TVec(s.fine(-2, 2), s.fine(-2, 2))); }
    else if (kind == 1) { int n = s.sized(1, 1100); for (int i = 0; i < n; i++) b->alist.emplace_back(TVec(cos(2*M_PI*i/n), -sin(2*M_PI*i/n))); }
    else for (TVec v: gen::polygon(s, 3, 60, s.draw(3) == 0)) b->alist.emplace_back(v);
    int sl = (int)s.draw(4);
    for (size_t i = 0; i < b->alist.size(); i++) {
        TAtt& a = b->alist[i];
        a.slip = sl == 1 ? 1 : sl == 2 ? (uint32_t)s.draw(2) : sl == 3 ? (i == 0) : 0;
    }
    bool full = s.flip();
    float hc = heat && full ? (float)s.fine(-3, 3) : 0;
    for (TAtt& a: b->alist) { a.g = full ? any(s) : 0; a.gsum = full ? any(s) : 0; a.fric = full ? any(s) : 0; a.heat_const = hc; }
    b->label = anytext(s);
    if (full) {
        b->holder = any3(s); b->dpos = any3(s); b->speed_slae = any3(s); b->speed_slae_prev = any3(s);
        b->force_hydro = any3(s); b->force_holder = any3(s); b->friction_prev = any3(s);
        b->fdt_dead = any3(s); b->g_dead = any(s); b->bounce = any(s); b->collision = s.pick({0, 0, 1, 2, 3}); b->density = any(s);
        if (heat) b->heat_condition = s.pick({hc_t::neglect, hc_t::isolate, hc_t::const_t, hc_t::const_w});
        s.label("body:full");
    }
    b->boundary_condition = s.pick({bc_t::steady, bc_t::kutta});
    b->special_segment_no = s.draw(3) ? (int)s.draw(b->alist.size()) : s.pick({0, -1, 2147483647, -2147483647-1});
    b->kspring = TVec3D(spring(s), spring(s), spring(s));
    b->damping = any3(s);
    minmax(s, b->collision_min.r.x, b->collision_max.r.x); minmax(s, b->collision_min.r.y, b->collision_max.r.y); minmax(s, b->collision_min.o, b->collision_max.o);
    b->speed_x = anyexpr(s); b->speed_y = anyexpr(s); b->speed_o = anyexpr(s); b->force_o = anyexpr(s);
    b->doUpdateSegments(); b->doFillProperties();
    return b;
}
struct Opt { int nlist = 700, nbodies = 4; bool many = true, heat = true; };
inline void fill(Src& s, Space& S, Opt o = Opt()) {
    S.caption = anytext(s);
    S.re = s.flip() ? s.fine(0.1, 1000) : any(s); S.pr = any(s); S.inf_g = any(s);
    S.inf_vx = anyexpr(s); S.inf_vy = anyexpr(s);
    S.inf_marker = anyvec(s); S.gravity = anyvec(s);
    S.time = anytime(s); S.dt = anytime(s, true); S.dt_save = anytime(s); S.dt_streak = anytime(s); S.dt_profile = anytime(s);
    S.finish = s.flip() ? any(s) : INFINITY;
    S.VortexList = anylist(s, o.nlist); S.HeatList = o.heat ? anylist(s, o.nlist) : std::vector<TObj>(); S.SourceList = anylist(s, 20); S.StreakSourceList = anylist(s, 20); S.StreakList = anylist(s, o.nlist);
    int nb = s.range(0, o.nbodies);
    if (o.many && s.draw(60) == 0) { nb = s.range(95, 1010); s.label("bodies:many"); }
    S.BodyList.clear();
    for (int i = 0; i < nb; i++) {
        if (nb > 50) { auto b = std::make_shared<TBody>(); b->alist.emplace_back(TVec(i, 0)); b->alist.emplace_back(TVec(i, 1)); b->label = fmt("n%d", i); b->doUpdateSegments(); b->doFillProperties(); S.BodyList.push_back(b); }
        else S.BodyList.push_back(anybody(s, o.heat));
    }
    for (int i = 0; i < nb; i++) if (nb > 1 && s.draw(3) == 0) { // root: any body of the space, before or after
        int r = (int)s.draw(nb); if (r != i) { S.BodyList[i]->root_body = S.BodyList[r]; s.label("body:linked"); } }
    S.EnumerateBodies();
    s.describe(fmt("caption '%.20s' time %d/%u dt %d/%u, %zu vort %zu heat %zu sources %zu emitters %zu ink, %d bodies", S.caption.c_str(), S.time.value, S.time.timescale, S.dt.value, S.dt.timescale, S.VortexList.size(), S.HeatList.size(), S.SourceList.size(), S.StreakSourceList.size(), S.StreakList.size(), nb));
    for (auto& b: S.BodyList) { if (nb <= 4) s.describe(fmt(" [%zu corners '%.10s' slip %d]", b->size(), b->label.c_str(), b->get_slip())); }
}
// ------------------------------------------------------------- comparison
inline bool same(double a, double b) { return !memcmp(&a, &b, 8) || (a != a && b != b); }
struct Cmp {
    std::string bad;
    void d(const std::string& n, double a, double b) { if (bad.empty() && !same(a, b)) bad = fmt("%s is %.17g instead of %.17g", n.c_str(), b, a); }
    void v(const std::string& n, TVec a, TVec b) { d(n + ".x", a.x, b.x); d(n + ".y", a.y, b.y); }
    void w(const std::string& n, TVec3D a, TVec3D b) { v(n, a.r, b.r); d(n + ".o", a.o, b.o); }
    void i(const std::string& n, long a, long b) { if (bad.empty() && a != b) bad = fmt("%s is %ld instead of %ld", n.c_str(), b, a); }
    void t(const std::string& n, const std::string& a, const std::string& b) { if (bad.empty() && a != b) bad = n + " is '" + b.substr(0, 60) + "' instead of '" + a.substr(0, 60) + "'"; }
    void time(const std::string& n, TTime a, TTime b) { t(n, a, b); }
    void list(const std::string& n, const std::vector<TObj>& a, const std::vector<TObj>& b) {
        i("number of " + n, a.size(), b.size());
        for (size_t k = 0; k < a.size() && bad.empty(); k++) { v(fmt("%s[%zu]", n.c_str(), k), a[k].r, b[k].r); d(fmt("%s[%zu].g", n.c_str(), k), a[k].g, b[k].g); }
    }
};
inline std::string differ(const Space& A, const Space& B) {
    Cmp c;
    c.t("caption", A.caption, B.caption); c.time("time", A.time, B.time); c.time("dt", A.dt, B.dt); c.time("dt_save", A.dt_save, B.dt_save); c.time("dt_streak", A.dt_streak, B.dt_streak); c.time("dt_profile", A.dt_profile, B.dt_profile);
    c.d("re", A.re, B.re); c.d("pr", A.pr, B.pr); c.d("inf_circulation", A.inf_g, B.inf_g); c.d("finish", A.finish, B.finish);
    c.t("inf_vx", A.inf_vx, B.inf_vx); c.t("inf_vy", A.inf_vy, B.inf_vy); c.v("inf_marker", A.inf_marker, B.inf_marker); c.v("gravity", A.gravity, B.gravity);
    c.list("vortices", A.VortexList, B.VortexList); c.list("heat", A.HeatList, B.HeatList); c.list("sources", A.SourceList, B.SourceList); c.list("ink sources", A.StreakSourceList, B.StreakSourceList); c.list("ink", A.StreakList, B.StreakList);
    c.i("number of bodies", A.BodyList.size(), B.BodyList.size());
    for (size_t k = 0; k < A.BodyList.size() && c.bad.empty(); k++) {
        const TBody &a = *A.BodyList[k], &b = *B.BodyList[k]; std::string n = fmt("body %zu ", k);
        c.i(n + "corners", a.size(), b.size()); c.t(n + "label", a.label, b.label);
        for (size_t j = 0; j < a.size() && c.bad.empty(); j++) {
            const TAtt &p = a.alist[j], &q = b.alist[j]; std::string m = n + fmt("segment %zu ", j);
            c.v(m + "corner", p.corner, q.corner); c.d(m + "g", p.g, q.g); c.d(m + "gsum", p.gsum, q.gsum); c.d(m + "fric", p.fric+0.0, q.fric+0.0); c.i(m + "slip", p.slip, q.slip); c.d(m + "heat_const", p.heat_const, q.heat_const);
            c.v(m + "dl", p.dl, q.dl); c.v(m + "r", p.r, q.r); c.i(m + "eq_no", p.eq_no, q.eq_no);
        }
        auto ra = a.root_body.lock(), rb = b.root_body.lock();
        c.i(n + "root", ra ? A.get_body_index(ra.get()) : -1, rb ? B.get_body_index(rb.get()) : -1);
        c.w(n + "holder", a.holder, b.holder); c.w(n + "dpos", a.dpos, b.dpos); c.w(n + "kspring", a.kspring, b.kspring); c.w(n + "damping", a.damping, b.damping);
        c.w(n + "speed_slae", a.speed_slae, b.speed_slae); c.w(n + "speed_slae_prev", a.speed_slae_prev, b.speed_slae_prev);
        c.w(n + "collision_min", a.collision_min, b.collision_min); c.w(n + "collision_max", a.collision_max, b.collision_max); c.d(n + "bounce", a.bounce, b.bounce); c.d(n + "collision", a.collision, b.collision);
        c.d(n + "density", a.density, b.density); c.i(n + "special_segment_no", a.special_segment_no, b.special_segment_no);
        c.i(n + "boundary_condition", (int)a.boundary_condition, (int)b.boundary_condition); c.i(n + "heat_condition", (int)a.heat_condition, (int)b.heat_condition);
        c.w(n + "friction_prev", a.friction_prev, b.friction_prev); c.w(n + "force_hydro", a.force_hydro, b.force_hydro); c.w(n + "force_holder", a.force_holder, b.force_holder);
        c.w(n + "fdt_dead", a.fdt_dead, b.fdt_dead); c.d(n + "g_dead", a.g_dead, b.g_dead);
        c.t(n + "speed_x", a.speed_x, b.speed_x); c.t(n + "speed_y", a.speed_y, b.speed_y); c.t(n + "speed_o", a.speed_o, b.speed_o); c.t(n + "force_o", a.force_o, b.force_o);
        c.d(n + "slen", a.get_slen(), b.get_slen()); c.d(n + "area", a.get_area(), b.get_area()); c.v(n + "cofm", a.get_cofm(), b.get_cofm()); c.d(n + "moi", a.get_moi_cofm(), b.get_moi_cofm()); c.i(n + "has slip", a.get_slip(), b.get_slip());
        c.i(n + "equations", a.eq_forces_no, b.eq_forces_no);
    }
    return c.bad;
}
} // namespace
