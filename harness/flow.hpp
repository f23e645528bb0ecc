// Direct sums of the flow in long double, and how far the fast method may be from them.
#pragma once
#include "gen.hpp"
#include "MConvectiveFast.hpp"
#include <complex>
using namespace pbt;
typedef long double ld; typedef std::complex<ld> cl;
static const ld TWOPI = 6.283185307179586476925286766559L;

struct Sum { cl w = 0; ld mag = 0; void add(cl c) { w += c; mag += std::abs(c); } }; // w = u - i v, times 2 pi
static cl C(TVec v) { return cl(v.x, v.y); }
// velocity (conjugate, times 2 pi) of a vortex of strength g with core eps2 at distance z
static cl vortex(cl z, ld g, ld eps2) { ld d = std::norm(z) + eps2; return d == 0 ? cl(0) : cl(0, -1)*g*std::conj(z)/d; }
static cl source(cl z, ld q, ld eps2) { ld d = std::norm(z) + eps2; return d == 0 ? cl(0) : q*std::conj(z)/d; }
// source density going linearly from q1 to q2 along [a, a+dz] (per unit parameter), complex strengths allowed
static cl linear(cl p, cl a, cl dz, cl q1, cl q2) { cl t = (p-a)/dz; return (-(q2-q1) + (q1+(q2-q1)*t)*std::log(t/(t-cl(1))))/dz; }

// contributions of everything but the free vortices; false if p is where the method itself switches or is singular
static bool others(const Space& S, TVec p, Sum& o) {
    o.add(TWOPI*cl(S.inf_speed().x, -S.inf_speed().y));
    for (auto& q: S.SourceList) o.add(source(C(p)-C(q.r), q.g, fabsl(q.g)*(ld)(double)S.dt/M_PIl));
    for (auto& b: S.BodyList) {
        for (auto& a: b->alist) if (a.slip) o.add(vortex(C(p)-C(a.r), a.g, (ld)a.dl.abs2()/9));
        if (b->speed_slae.iszero()) continue;
        TVec ax = b->get_axis();
        auto surf = [&](TVec r, TVec dl) { cl V = C(b->speed_slae.r) + cl(0, b->speed_slae.o)*(C(r)-C(ax)); // velocity of the surface
            ld g = -(V.real()*dl.x + V.imag()*dl.y), q = -(-V.imag()*dl.x + V.real()*dl.y); return cl(q, -g); }; // q + g/i
        for (auto& a: b->alist) {
            ld d = std::abs(C(p)-C(a.r)), l = a.dl.abs();
            if (fabsl(d-l) < 1e-6L*l) return false;
            if (d < l) {
                cl t = (C(p)-C(a.corner))/C(a.dl);
                if (fabsl(t.imag()) < 1e-6L || std::abs(t) < 1e-5L || std::abs(t-cl(1)) < 1e-5L) return false;
                o.add(linear(C(p), C(a.corner), C(a.dl), surf(a.corner, a.dl), surf(a.corner+a.dl, a.dl)));
            } else { cl s = surf(a.r, a.dl); o.add(s/(C(p)-C(a.r))); o.mag += std::abs(s)*1e-6L*0; }
        }
    }
    return true;
}
static void direct(const std::vector<TObj>& vort, TVec p, Sum& o) {
    for (auto& v: vort) if (v.g) o.add(vortex(C(p)-C(v.r), v.g, 1/((ld)v._1_eps*v._1_eps)));
}
static void below(const snode* n, std::vector<const TObj*>& o) { if (n->ch1) { below(n->ch1, o); below(n->ch2, o); } else for (TObj* v = n->vRange.first; v < n->vRange.last; v++) o.push_back(v); }
// how far the sum over the near nodes plus centres of far nodes (expanded about c if taylor) may be from the direct sum (times 2 pi); infinite: nothing is promised
static ld far_error(const snode* leaf, TVec p, bool taylor) {
    ld e = 0; cl c(leaf->x, leaf->y); ld h = taylor ? std::abs(C(p)-c) : 0;
    for (auto f: *leaf->FarNodes) {
        std::vector<const TObj*> v; below(f, v);
        for (int sg = 1; sg >= -1; sg -= 2) {
            cl m = 0; ld G = 0, dm = 0; for (auto o: v) if (sg*o->g > 0) { m += C(o->r)*(ld)o->g; G += o->g; }
            if (G == 0) continue;
            m /= G; ld s2 = 0, ee = 0, d = std::abs(C(p)-m);
            for (auto o: v) if (sg*o->g > 0) { ld q = std::abs(C(o->r)-m); dm = std::max(dm, q); s2 += fabsl(o->g)*q*q; ld di = std::abs(C(p)-C(o->r)), ep = 1/((ld)o->_1_eps*o->_1_eps); ee += di > 0 ? fabsl(o->g)*ep/(di*(di*di+ep)) : INFINITY; }
            if (d <= dm) return INFINITY;
            e += s2/(d*d*(d-dm)) + ee;
            if (taylor) { ld dc = std::abs(c-m); if (dc <= h) return INFINITY; e += fabsl(G)*h*h/(dc*dc*(dc-h)); }
        }
    }
    return e;
}
