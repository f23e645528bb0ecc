// C06: point-in-body against an exact-arithmetic point-in-polygon model.
#include "gen.hpp"
using namespace pbt; using namespace gen;
typedef long double ld;

// winding number of the outline about p; dist: distance from p to the outline
static int winding(const Poly& q, TVec p, ld& dist) {
    int w = 0; size_t n = q.size(); dist = 1e300L;
    for (size_t i = 0; i < n; i++) {
        ld ax = (ld)q[i].x-p.x, ay = (ld)q[i].y-p.y, bx = (ld)q[(i+1)%n].x-p.x, by = (ld)q[(i+1)%n].y-p.y;
        ld dx = bx-ax, dy = by-ay, l2 = dx*dx+dy*dy, t = l2 > 0 ? -(ax*dx+ay*dy)/l2 : 0;
        t = t < 0 ? 0 : t > 1 ? 1 : t;
        ld ex = ax+t*dx, ey = ay+t*dy;
        dist = std::min(dist, sqrtl(ex*ex+ey*ey));
        ld cr = ax*by-ay*bx;
        if (ay <= 0 && by > 0 && cr > 0) w++;
        if (ay > 0 && by <= 0 && cr < 0) w--;
    }
    return w;
}
static Poly corners(const TBody& b) { Poly p; for (auto& a: b.alist) p.push_back(a.corner); return p; }

static TVec gen_point(Src& s, const Poly& q, const char*& kind) {
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (TVec v: q) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); }
    double w = x1-x0, h = y1-y0;
    size_t i = s.draw(q.size()); TVec a = q[i], b = q[(i+1)%q.size()];
    switch (s.draw(7)) {
        case 0: kind = "box"; return TVec(s.fine(x0-0.2*w, x1+0.2*w), s.fine(y0-0.2*h, y1+0.2*h));
        case 1: { kind = "near-edge"; TVec d = b-a; double t = s.unit(), e = (s.flip() ? -1 : 1)*s.logreal(1e-6, 0.3)*(w+h); double L = d.abs(); if (L == 0) return a; return a + t*d + (e/L)*rotl(d); }
        case 2: kind = "corner-row"; return TVec(s.fine(x0-0.2*w, x1+0.2*w), a.y);   // exactly level with a corner
        case 3: kind = "corner-column"; return TVec(a.x, s.fine(y0-0.2*h, y1+0.2*h));
        case 4: kind = "edge-line"; { TVec d = b-a; double t = s.fine(-3, 3); return a + t*d; }
        case 5: kind = "grid"; return TVec(s.real(x0, x1), s.real(y0, y1));
        default: kind = "far"; return TVec(s.fine(-1, 1)*1e3, s.fine(-1, 1)*1e3);
    }
}

static void ask(Src& s, TBody& b, int npoints, const char* when) {
    Poly q = corners(b);
    ld A = -signed_area(q), scale = 0;
    for (TVec v: q) scale = std::max<ld>(scale, fabs(v.x)+fabs(v.y));
    for (int k = 0; k < npoints; k++) {
        const char* kind; TVec p = gen_point(s, q, kind);
        ld d; int w = winding(q, p, d);
        if (d < 1e-12L*(scale + fabs(p.x)+fabs(p.y))) { s.label("skipped:on-boundary"); continue; }
        bool in_polygon = w != 0;
        bool want = A > 0 ? in_polygon : !in_polygon;
        s.label(std::string(kind) + (in_polygon ? ":in" : ":out"));
        bool got = b.isPointInvalid(p) != NULL;
        CHECK(got == want, "inside", "%s: point (%.17g,%.17g) [%s] at distance %.3Lg from the outline is reported %s, but it is %s the polygon (%s body)", when, p.x, p.y, kind, d, got ? "inside the body" : "outside the body", in_polygon ? "inside" : "outside", A > 0 ? "ordinary" : "inside-out");
        s.nontrivial();
    }
}

static std::shared_ptr<TBody> gen_body(Src& s) {
    Poly p = polygon(s, 3, 40, s.flip(0.3));
    if (s.flip()) transform(p, TVec(s.real(-3, 3), s.real(-3, 3)), s.flip() ? s.fine(-3.2, 3.2) : 0);
    if (s.draw(4) == 0) for (TVec& v: p) { v.x = round(v.x*16)/16; v.y = round(v.y*16)/16; } // corners level with each other
    s.describe("corners " + show(p, 12));
    return body_of(p);
}
static bool simple(const Poly& q) { // rounding corners may make outlines touch themselves
    size_t n = q.size();
    for (size_t i = 0; i < n; i++) for (size_t j = i+1; j < n; j++) {
        TVec a = q[i], b = q[(i+1)%n], c = q[j], d = q[(j+1)%n];
        bool adj = (j == i+1) || (i == 0 && j == n-1);
        auto cr = [](TVec o, TVec u, TVec v) { return (u.x-o.x)*(v.y-o.y)-(u.y-o.y)*(v.x-o.x); };
        if ((b-a).abs() < 1e-9) return false;
        if (adj) { TVec o = j == i+1 ? b : a, u = j == i+1 ? a : b, v = j == i+1 ? d : c; if (fabs(cr(o,u,v)) < 1e-12 && (u-o)*(v-o) > 0) return false; continue; }
        double s1 = cr(a,b,c), s2 = cr(a,b,d), s3 = cr(c,d,a), s4 = cr(c,d,b);
        if (s1*s2 <= 1e-18 && s3*s4 <= 1e-18) return false;
    }
    return true;
}
static void prop_inside(Src& s) {
    auto b = gen_body(s);
    if (!simple(corners(*b)) || fabs(b->get_area()) < 1e-6) { s.label("skipped:not-simple"); return; }
    ask(s, *b, s.range(1, 20), "at first");
}
static void prop_moved(Src& s) {
    auto b = gen_body(s);
    if (!simple(corners(*b)) || fabs(b->get_area()) < 1e-6) { s.label("skipped:not-simple"); return; }
    b->holder = TVec3D(s.real(-1,1), s.real(-1,1), 0);
    int n = s.range(1, 4);
    for (int i = 0; i < n; i++) {
        if (s.flip()) ask(s, *b, s.range(1, 4), "between motions");
        TVec3D d(s.real(-1, 1), s.real(-1, 1), s.flip() ? s.real(-3, 3) : 0);
        b->move(d, d);
        s.describe(pbt::fmt(" moved by (%g,%g,%g)", d.r.x, d.r.y, d.o));
        ask(s, *b, s.range(1, 8), "after the motion");
    }
}
// whole space: a point is in the space's bodies iff in one of them
static void prop_space(Src& s) {
    Space S; int n = s.range(0, 3);
    std::vector<Poly> ps;
    for (int i = 0; i < n; i++) { auto b = gen_body(s); if (!simple(corners(*b)) || fabs(b->get_area()) < 1e-6) return; if (b->get_area() < 0 && i) return; S.BodyList.push_back(b); ps.push_back(corners(*b)); }
    for (int k = 0; k < 8; k++) {
        const char* kind = "free"; TVec p = n ? gen_point(s, ps[s.draw(n)], kind) : TVec(s.real(-1,1), s.real(-1,1));
        bool want = false, skip = false;
        for (auto& q: ps) { ld d; bool in = winding(q, p, d) != 0; if (d < 1e-11L*(10+fabs(p.x)+fabs(p.y))) skip = true; want = want || (signed_area(q) < 0 ? in : !in); }
        if (skip) continue;
        s.nontrivial(n > 1);
        CHECK(S.point_is_in_body(p) == want, "space", "point (%.17g,%.17g) [%s] reported %s the bodies of the space", p.x, p.y, kind, want ? "outside" : "inside");
    }
}
// the heat layer: the outline through the points one segment length out of the middle of each segment
static void prop_layer(Src& s) {
    auto b = gen_body(s);
    if (!simple(corners(*b)) || fabs(b->get_area()) < 1e-6) { s.label("skipped:not-simple"); return; }
    int n = s.range(1, 4);
    for (int i = 0; i < n; i++) {
        if (i) { TVec3D d(s.real(-1, 1), s.real(-1, 1), s.flip() ? s.real(-3, 3) : 0); b->move(d, d); s.describe(pbt::fmt(" moved by (%g,%g,%g)", d.r.x, d.r.y, d.o)); s.label("moved"); }
        Poly q = corners(*b), l; for (size_t k = 0; k < q.size(); k++) { TVec d = q[(k+1)%q.size()]-q[k]; l.push_back(0.5*(q[k]+q[(k+1)%q.size()])+rotl(d)); }
        if (!simple(l)) { s.label("skipped:layer crosses itself"); continue; }
        bool out = signed_area(q) < 0; double scale = 0; for (TVec v: l) scale = std::max(scale, fabs(v.x)+fabs(v.y));
        for (int k = s.range(1, 8); k--; ) {
            const char* kind; TVec p = gen_point(s, s.flip() ? q : l, kind); ld d, e; bool in = winding(l, p, d) != 0, body = winding(q, p, e) != 0;
            if (std::min(d, e) < 1e-11L*(scale + fabs(p.x)+fabs(p.y))) continue;
            for (int body_too = 0; body_too < 2; body_too++) {
                TAtt* t = body_too ? b->isPointInvalid(p) : b->isPointInHeatLayer(p); bool want = body_too ? (out ? body : !body) : (out ? in : !in);
                CHECK((t != NULL) == want, "layer", "point (%.17g,%.17g) [%s] is reported %s the %s", p.x, p.y, kind, t ? "in" : "out of", body_too ? "body" : "heat layer");
                if (!t) continue;
                s.label(body_too ? "in the body" : body == out ? "in the body too" : "in the layer"); s.nontrivial();
                CHECK(t >= b->alist.data() && t < b->alist.data()+b->size(), "segment", "the segment is not one of the body");
                double best = 1e300; for (size_t m = 0; m < q.size(); m++) best = std::min(best, (0.5*(q[m]+q[(m+1)%q.size()])-p).abs());
                CHECK((t->r-p).abs() <= best*(1+1e-12)+1e-13*scale, "nearest", "point (%.17g,%.17g) is charged to a segment at distance %.9g, the nearest is at %.9g", p.x, p.y, (t->r-p).abs(), best);
            }
        }
    }
}
int main(int argc, char** argv) {
    return main_run(argc, argv, "C06", {
        {"inside", 60000, 2000000, prop_inside, 0},
        {"moved", 40000, 1000000, prop_moved, 0},
        {"space", 40000, 500000, prop_space, 0},
        {"layer", 30000, 800000, prop_layer, 0},
    });
}
