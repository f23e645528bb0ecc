// Generators shared by the library harnesses.
#pragma once
#include "pbt.hpp"
#include "TSpace.hpp"
#include <memory>

namespace gen {
using pbt::Src;
typedef std::vector<TVec> Poly;

inline double signed_area(const Poly& p) { // shoelace; counter-clockwise positive
    double a = 0;
    for (size_t i = 0; i < p.size(); i++) { const TVec &u = p[i], &v = p[(i+1)%p.size()]; a += u.x*v.y - v.x*u.y; }
    return a/2;
}

// A simple polygon, star-shaped about (0,0) (so it may be concave); clockwise unless ccw.
inline Poly polygon(Src& s, int nmin, int nmax, bool ccw = false) {
    Poly p;
    int kind = (int)s.draw(6);
    int n = s.sized(nmin, nmax);
    double size = s.pick({1.0, 0.1, 5.0});
    if (kind == 0) { // regular
        for (int i = 0; i < n; i++) p.emplace_back(size*cos(2*M_PI*i/n), size*sin(2*M_PI*i/n));
        s.label("poly:regular");
    } else if (kind == 1) { // subdivided rectangle, possibly thin
        double w = size*s.fine(0.2, 1), h = w*s.pick({1.0, 0.5, 0.05, 0.01});
        int m = std::max(1, n/4);
        for (int i = 0; i < m; i++) p.emplace_back(-w + 2*w*i/m, -h);
        for (int i = 0; i < m; i++) p.emplace_back(w, -h + 2*h*i/m);
        for (int i = 0; i < m; i++) p.emplace_back(w - 2*w*i/m, h);
        for (int i = 0; i < m; i++) p.emplace_back(-w, h - 2*h*i/m);
        s.label(h < 0.1*w ? "poly:thin" : "poly:rect");
    } else if (kind == 2) { // ellipse
        double e = s.fine(0.1, 1);
        for (int i = 0; i < n; i++) p.emplace_back(size*cos(2*M_PI*i/n), e*size*sin(2*M_PI*i/n));
        s.label("poly:ellipse");
    } else { // star-shaped with random radii
        double lo = s.pick({0.9, 0.5, 0.15});
        for (int i = 0; i < n; i++) {
            double a = 2*M_PI*(i + 0.8*(s.unit()-0.5))/n, r = size*s.fine(lo, 1);
            p.emplace_back(r*cos(a), r*sin(a));
        }
        s.label(lo < 0.5 ? "poly:spiky" : "poly:star");
    }
    if ((signed_area(p) > 0) != ccw) std::reverse(p.begin(), p.end());
    int rot = (int)s.draw(p.size());
    std::rotate(p.begin(), p.begin()+rot, p.end());
    return p;
}
inline void transform(Poly& p, TVec shift, double angle) {
    double c = cos(angle), n = sin(angle);
    for (TVec& v: p) { v = TVec(shift.x + c*v.x - n*v.y, shift.y + n*v.x + c*v.y); }
}

inline std::shared_ptr<TBody> body_of(const Poly& p) {
    auto b = std::make_shared<TBody>();
    for (const TVec& v: p) b->alist.emplace_back(v);
    b->doUpdateSegments();
    b->doFillProperties();
    return b;
}

inline std::string show(const Poly& p, size_t max = 8) {
    std::string o = "[";
    for (size_t i = 0; i < p.size() && i < max; i++) o += pbt::fmt("%s(%.6g,%.6g)", i ? " " : "", p[i].x, p[i].y);
    if (p.size() > max) o += pbt::fmt(" ...%zu corners", p.size());
    return o + "]";
}

// A cloud of particles; kinds: uniform, clustered, collinear, lattice (coincident coordinates)
inline std::vector<TObj> cloud(Src& s, int nmax, double size, TVec c = TVec(), int nmin = 0) {
    std::vector<TObj> l;
    int n = s.sized(nmin, nmax), kind = (int)s.draw(5);
    static const char* names[] = {"uniform", "clusters", "line", "lattice", "mixed-scale"};
    s.label(std::string("cloud:") + names[kind]);
    std::vector<TVec> cl;
    for (int i = 0; i < 4; i++) cl.push_back(TVec(s.fine(-size, size), s.fine(-size, size)));
    double la = s.fine(0, M_PI);
    int gk = (int)s.draw(4);
    double same = s.flip() ? -1 : 1;
    for (int i = 0; i < n; i++) {
        TVec p;
        switch (kind) {
            case 0: p = TVec(s.fine(-size, size), s.fine(-size, size)); break;
            case 1: { TVec q = cl[s.draw(4)]; double r = size*0.02; p = q + TVec(s.fine(-r, r), s.fine(-r, r)); break; }
            case 2: { double t = s.fine(-size, size); p = TVec(t*cos(la), t*sin(la)); break; }
            case 3: p = TVec(size*((int)s.draw(17)-8)/8., size*((int)s.draw(17)-8)/8.); break;
            default: { double r = size*s.logreal(1e-3, 1), a = s.fine(0, 2*M_PI); p = TVec(r*cos(a), r*sin(a)); }
        }
        double g;
        switch (gk) {
            case 0: g = s.fine(-1, 1); break;
            case 1: g = same*s.fine(0.1, 1); break;
            case 2: g = (s.flip() ? 1 : -1)*s.logreal(1e-4, 1); break;
            default: g = s.draw(4) == 0 ? 0 : s.fine(-1, 1);
        }
        l.push_back(TObj(p + c, 0.02*g));
    }
    if (l.size() > 1 && s.draw(8) == 0) { l[1].r = l[0].r; s.label("cloud:coincident"); }
    return l;
}
} // namespace gen
