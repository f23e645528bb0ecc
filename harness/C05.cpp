// C05: derived body properties against a long-double polygon model; rigid motion.
#include "gen.hpp"
using namespace pbt; using namespace gen;
typedef long double ld;

struct Ref { ld slen, area, cx, cy, moi; ld minx, maxx, miny, maxy; };
// computed about the first corner, so that it does not lose digits far from the origin
static Ref reference(const Poly& p) {
    Ref r = {}; size_t n = p.size();
    ld ox = p[0].x, oy = p[0].y, A2 = 0, mx = 0, my = 0, I = 0;
    r.minx = r.maxx = p[0].x; r.miny = r.maxy = p[0].y;
    for (size_t i = 0; i < n; i++) {
        ld x0 = p[i].x-ox, y0 = p[i].y-oy, x1 = p[(i+1)%n].x-ox, y1 = p[(i+1)%n].y-oy;
        r.slen += sqrtl((x1-x0)*(x1-x0) + (y1-y0)*(y1-y0));
        ld w = x0*y1 - x1*y0;
        A2 += w; mx += w*(x0+x1); my += w*(y0+y1);
        I += w*(x0*x0+x0*x1+x1*x1 + y0*y0+y0*y1+y1*y1);
        r.minx = std::min<ld>(r.minx, p[i].x); r.maxx = std::max<ld>(r.maxx, p[i].x);
        r.miny = std::min<ld>(r.miny, p[i].y); r.maxy = std::max<ld>(r.maxy, p[i].y);
    }
    ld A = A2/2;
    ld cx = mx/(6*A), cy = my/(6*A);
    r.area = -A; // clockwise outlines have positive area here
    r.cx = ox+cx; r.cy = oy+cy;
    r.moi = -(I/12 - A*(cx*cx+cy*cy));
    return r;
}

static Poly corners(const TBody& b) { Poly p; for (auto& a: b.alist) p.push_back(a.corner); return p; }

static void check_geometry(TBody& b, const char* when) {
    Poly p = corners(b);
    Ref r = reference(p);
    ld L = std::max(r.maxx-r.minx, r.maxy-r.miny);
    ld R = L + std::max(std::max(fabsl(r.minx), fabsl(r.maxx)), std::max(fabsl(r.miny), fabsl(r.maxy)));
    // rounding of sums over n corners kept with the precision of R, within a figure of size L
    ld e = 4e-15L*(p.size()+8);
    ld ea = e*R*L, em = e*R*L*L*L;
    CHECK(fabsl(b.get_slen()-r.slen) <= e*r.slen + e*R, "slen", "%s: surface length %.17g, polygon %.17Lg", when, b.get_slen(), r.slen);
    CHECK(fabsl(b.get_area()-r.area) <= ea, "area", "%s: area %.17g, polygon %.17Lg", when, b.get_area(), r.area);
    CHECK(b.isInsideValid() == (r.area <= 0) || fabsl(r.area) <= ea, "orientation", "%s: orientation", when);
    if (fabsl(r.area) > 1e3*ea) {
        ld ec = 2*ea*L/fabsl(r.area) + e*R;
        CHECK(fabsl(b.get_cofm().x-r.cx) <= ec && fabsl(b.get_cofm().y-r.cy) <= ec, "cofm", "%s: centre of mass (%.15g,%.15g), polygon (%.15Lg,%.15Lg)", when, b.get_cofm().x, b.get_cofm().y, r.cx, r.cy);
        ld ei = em + 2*L*ec*fabsl(r.area);
        CHECK(fabsl(b.get_moi_cofm()-r.moi) <= ei, "moi_cofm", "%s: moment of inertia %.15g, polygon %.15Lg (tolerance %.3Lg)", when, b.get_moi_cofm(), r.moi, ei);
        TVec ax = b.get_axis();
        ld dx = ax.x-r.cx, dy = ax.y-r.cy, want = r.moi + (dx*dx+dy*dy)*r.area;
        ld ra = sqrtl(dx*dx+dy*dy);
        CHECK(fabsl(b.get_moi_axis()-want) <= ei + (ec*ra*4 + ec*ec)*fabsl(r.area) + ea*ra*ra + e*ra*ra*fabsl(r.area), "moi_axis", "%s: moment about the axis %.15g, polygon %.15Lg", when, b.get_moi_axis(), want);
    }
    size_t n = p.size();
    for (size_t i = 0; i < n; i++) {
        const TAtt& a = b.alist[i]; TVec d = p[(i+1)%n]-p[i], m = 0.5*(p[(i+1)%n]+p[i]);
        CHECK(fabs(a.dl.x-d.x) + fabs(a.dl.y-d.y) <= 1e-15*R && fabs(a.r.x-m.x)+fabs(a.r.y-m.y) <= 1e-15*R, "segment", "%s: segment %zu vector/mid point", when, i);
        if (d.abs() > 1e-12*R) CHECK(fabs(a._1_eps*d.abs()-3) < 1e-9, "segment_eps", "%s: segment %zu core size %.15g instead of a third of its length %.15g", when, i, 1/a._1_eps, d.abs());
    }
    CHECK(b.size() == n, "size", "%s: size %zu", when, b.size());
}

static std::shared_ptr<TBody> gen_body(Src& s) {
    Poly p = polygon(s, 3, 60, s.flip(0.25));
    TVec shift = s.flip() ? TVec(s.real(-3, 3), s.real(-3, 3)) : TVec();
    if (s.draw(8) == 0) { double far = s.flip() ? 100 : s.logreal(1e2, 1e7); shift = TVec(s.fine(-1, 1)*far, s.fine(-1, 1)*far); s.label("far-from-origin"); }
    transform(p, shift, s.flip() ? s.fine(-3.2, 3.2) : 0);
    if (s.draw(6) == 0) { double k = s.logreal(1e-8, 1e3); for (TVec& v: p) v *= k; s.label(k < 1e-4 ? "tiny" : "scaled"); }
    auto b = body_of(p);
    for (auto& a: b->alist) a.slip = 0;
    int sl = (int)s.draw(3);
    if (sl == 1) for (auto& a: b->alist) a.slip = 1;
    if (sl == 2) b->alist[s.draw(b->size())].slip = 1;
    b->doFillProperties();
    CHECK(b->get_slip() == (sl != 0), "slip", "slip state %d with %s", b->get_slip(), sl ? "slip segments" : "no slip segment");
    if (s.flip()) { b->holder = TVec3D(s.real(-2,2), s.real(-2,2), s.real(-7,7)); b->dpos = TVec3D(s.real(-1,1), s.real(-1,1), s.real(-1,1)); }
    s.describe("corners " + show(p));
    return b;
}

static void prop_geometry(Src& s) {
    auto b = gen_body(s);
    s.nontrivial(b->size() > 3);
    check_geometry(*b, "initially");
    // derived values do not accumulate
    double A = b->get_area(), L = b->get_slen(), M = b->get_moi_cofm(); TVec c = b->get_cofm();
    b->doUpdateSegments(); b->doFillProperties();
    CHECK(A == b->get_area() && L == b->get_slen() && M == b->get_moi_cofm() && c.x == b->get_cofm().x && c.y == b->get_cofm().y, "idempotent", "recomputing the properties of an unchanged body changes them");
    TBody copy(*b);
    CHECK(A == copy.get_area() && L == copy.get_slen() && M == copy.get_moi_cofm() && copy.size() == b->size() && copy.get_slip() == b->get_slip(), "copy", "a copied body has other properties");
}

// open/thin: a straight chain of corners with zero area
static void prop_thin(Src& s) {
    int n = s.range(2, 20); bool vert = s.flip();
    Poly p; double x = s.real(-2, 2), y0 = s.real(-2, 2);
    std::vector<double> t; for (int i = 0; i < n; i++) t.push_back((double)s.range(-16, 16)/8);
    std::sort(t.begin(), t.end());
    if (t.front() == t.back()) t.back() += 1;
    x = round(x*8)/8; y0 = round(y0*8)/8;
    for (double v: t) p.push_back(vert ? TVec(x, y0+v) : TVec(y0+v, x));
    s.describe(show(p)); s.nontrivial();
    auto b = body_of(p);
    double len = 2*(t.back()-t.front()), mid = y0 + 0.5*(t.back()+t.front());
    TVec c = vert ? TVec(x, mid) : TVec(mid, x);
    CHECK(b->get_area() == 0, "thin_area", "zero-thickness plate has area %.3g", b->get_area());
    CHECK(fabs(b->get_slen()-len) < 1e-12, "thin_slen", "zero-thickness plate: length %.15g instead of %.15g", b->get_slen(), len);
    CHECK(fabs(b->get_cofm().x-c.x) + fabs(b->get_cofm().y-c.y) < 1e-12, "thin_cofm", "zero-thickness plate: centre (%g,%g) instead of (%g,%g)", b->get_cofm().x, b->get_cofm().y, c.x, c.y);
    CHECK(b->get_moi_cofm() == 0, "thin_moi", "zero-thickness plate has moment of inertia %g", b->get_moi_cofm());
}

static void prop_motion(Src& s) {
    auto b = gen_body(s);
    int steps = s.range(1, 6);
    s.nontrivial(steps > 1);
    ld px, py; // model: every corner carried by exact rigid motions in long double
    std::vector<std::pair<ld,ld>> q; for (auto& a: b->alist) q.push_back({a.corner.x, a.corner.y});
    ld hx = b->holder.r.x, hy = b->holder.r.y, ho = b->holder.o, dx = b->dpos.r.x, dy = b->dpos.r.y, dO = b->dpos.o;
    double A0 = b->get_area(), L0 = b->get_slen(), M0 = b->get_moi_cofm();
    for (int k = 0; k < steps; k++) {
        TVec3D dh(s.real(-1, 1), s.real(-1, 1), s.real(-4, 4)), db = dh;
        if (s.flip()) db = TVec3D(s.real(-1, 1), s.real(-1, 1), s.real(-4, 4)); // sprung: body goes elsewhere than its holder
        if (s.draw(4) == 0) { dh.o = 0; db.o = 0; }
        s.describe(pbt::fmt(" move holder(%g,%g,%g) body(%g,%g,%g)", dh.r.x, dh.r.y, dh.o, db.r.x, db.r.y, db.o));
        // speeds, labels etc. are no business of a motion, except the remembered previous speed
        b->speed_slae = TVec3D(s.real(-1,1), s.real(-1,1), s.real(-1,1));
        TVec3D ss = b->speed_slae;
        b->move(dh, db);
        ld ax = hx+dx, ay = hy+dy, c = cosl(db.o), sn = sinl(db.o);
        for (auto& v: q) {
            px = v.first-ax; py = v.second-ay;
            v.first = ax + db.r.x + c*px - sn*py; v.second = ay + db.r.y + sn*px + c*py;
        }
        hx += dh.r.x; hy += dh.r.y; ho += dh.o;
        dx += (ld)db.r.x-dh.r.x; dy += (ld)db.r.y-dh.r.y; dO += (ld)db.o-dh.o;
        CHECK(b->speed_slae_prev.r.x == ss.r.x && b->speed_slae_prev.r.y == ss.r.y && b->speed_slae_prev.o == ss.o && b->speed_slae.r.x == ss.r.x && b->speed_slae.r.y == ss.r.y && b->speed_slae.o == ss.o, "prev_speed", "after a move the previous speed is not the speed moved with");
    }
    ld R = 20; for (auto& v: q) R = std::max(R, 10*(fabsl(v.first)+fabsl(v.second)));
    ld e = 1e-14L*R*steps;
    for (size_t i = 0; i < q.size(); i++)
        CHECK(fabsl(b->alist[i].corner.x-q[i].first) + fabsl(b->alist[i].corner.y-q[i].second) <= e, "rigid", "corner %zu at (%.15g,%.15g), rigid motion gives (%.15Lg,%.15Lg)", i, b->alist[i].corner.x, b->alist[i].corner.y, q[i].first, q[i].second);
    CHECK(fabsl(b->holder.r.x-hx)+fabsl(b->holder.r.y-hy)+fabsl(b->holder.o-ho) <= e, "holder", "holder position (%g,%g,%g) instead of (%Lg,%Lg,%Lg)", b->holder.r.x, b->holder.r.y, b->holder.o, hx, hy, ho);
    CHECK(fabsl(b->dpos.r.x-dx)+fabsl(b->dpos.r.y-dy)+fabsl(b->dpos.o-dO) <= e, "dpos", "offset from the holder (%g,%g,%g) instead of (%Lg,%Lg,%Lg)", b->dpos.r.x, b->dpos.r.y, b->dpos.o, dx, dy, dO);
    check_geometry(*b, "after the motion");
    Poly p = corners(*b); Ref r = reference(p);
    ld L = 0; for (auto& c: p) L = std::max<ld>(L, fabsl(c.x-r.cx)+fabsl(c.y-r.cy));
    L = std::max<ld>(L, sqrtl(fabsl(A0)));
    CHECK(fabsl(b->get_slen()-L0) <= 1e-13*R*b->size(), "slen_kept", "length changed by motion: %.15g -> %.15g", L0, b->get_slen());
    CHECK(fabsl(b->get_area()-A0) <= 1e-13*R*L*b->size(), "area_kept", "area changed by motion: %.15g -> %.15g", A0, b->get_area());
    CHECK(fabsl(b->get_moi_cofm()-M0) <= 1e-12*R*L*L*L*b->size(), "moi_kept", "moment of inertia changed by motion: %.15g -> %.15g", M0, b->get_moi_cofm());
}

// moving there and back restores the body
static void prop_inverse(Src& s) {
    auto b = gen_body(s); s.nontrivial();
    Poly p0 = corners(*b); TVec3D h0 = b->holder, d0 = b->dpos; TVec c0 = b->get_cofm();
    TVec3D db(s.real(-1, 1), s.real(-1, 1), s.real(-4, 4));
    bool held = s.flip(); TVec3D dh = held ? db : TVec3D();
    s.describe(pbt::fmt(" there and back (%g,%g,%g)", db.r.x, db.r.y, db.o));
    b->move(dh, db); b->move(TVec3D()-dh, TVec3D()-db);
    double R = 20; for (TVec v: p0) R = std::max(R, 10*(fabs(v.x)+fabs(v.y)));
    for (size_t i = 0; i < p0.size(); i++) CHECK((b->alist[i].corner-p0[i]).abs() < 1e-13*R, "inverse", "corner %zu is not restored by the opposite motion", i);
    CHECK(fabs(b->holder.o-h0.o) + (b->holder.r-h0.r).abs() + fabs(b->dpos.o-d0.o) + (b->dpos.r-d0.r).abs() < 1e-13*R, "inverse_axis", "axis is not restored by the opposite motion");
    (void)c0;
}

int main(int argc, char** argv) {
    return main_run(argc, argv, "C05", {
        {"geometry", 60000, 1500000, prop_geometry, 0},
        {"thin", 20000, 200000, prop_thin, 0},
        {"motion", 40000, 1000000, prop_motion, 0},
        {"inverse", 20000, 500000, prop_inverse, 0},
    });
}
