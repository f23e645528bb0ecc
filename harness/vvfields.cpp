// The library's own fields on a given grid (to compare the tools' requests with).
//   vvfields OUT snapshot KIND XMIN YMIN DXDY NX NY EPS REF MODE LEVELS    KIND: G P S U
//   vvfields OUT field LEVELS          LEVELS: none | auto | VMIN,VMAX,DV
// writes OUT.map and OUT.iso and prints minimum, maximum, 2nd and 98th percentile
#include "TSpace.hpp"
#include "XPressure.hpp"
#include "XVorticity.hpp"
#include "XStreamfunction.hpp"
#include "XVelocity.hpp"
#include "XIsoline.hpp"
#include <fstream>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <cstdlib>
struct Peek: XField { static const std::vector<TGap>& list(const XField& f) { return f.*(&Peek::gaps); } };
static void out(const std::string& o, const XField& f, const char* lev) {
    { std::ofstream m(o + ".map", std::ios::binary); m << f; }
    double lo, hi, dv; bool any = true;
    if (!strcmp(lev, "none")) any = false;
    else if (!strcmp(lev, "auto")) { lo = f.min(); hi = f.max(); dv = (hi-lo)/33.; any = dv > 0; }
    else sscanf(lev, "%lf,%lf,%lf", &lo, &hi, &dv);
    std::ofstream i(o + ".iso", std::ios::binary);
    if (any) i << XIsoline(f, lo, hi, dv);
    std::vector<std::string> g; char b[100]; for (auto& t: Peek::list(f)) { snprintf(b, 100, "%d %d %.9g\n", t.yj, t.xi, t.gap); g.push_back(b); } std::sort(g.begin(), g.end());
    std::ofstream l(o + ".gaps"); for (auto& t: g) l << t;
    printf("%.9g %.9g %.9g %.9g\n", f.min(), f.max(), f.percentile(0.02f), f.percentile(0.98f));
}
int main(int argc, char** argv) {
    try {
        if (argc == 4) {
            std::ifstream s(argv[2], std::ios::binary); std::stringstream b; b << s.rdbuf();
            XField f(b.str()); out(argv[1], f, argv[3]); return 0;
        }
        Space S; S.load(argv[2]);
        double x = atof(argv[4]), y = atof(argv[5]), d = atof(argv[6]), eps = atof(argv[9]); int nx = atoi(argv[7]), ny = atoi(argv[8]);
        switch (*argv[3]) {
        case 'G': { XVorticity f(S, x, y, d, nx, ny); f.eps_mult = eps; f.evaluate(); out(argv[1], f, argv[12]); break; }
        case 'P': { XPressure f(S, x, y, d, nx, ny); f.eps_mult = eps; f.ref_frame = *argv[10]; f.evaluate(); out(argv[1], f, argv[12]); break; }
        case 'S': { XStreamfunction f(S, x, y, d, nx, ny); f.eps_mult = eps; f.ref_frame = *argv[10]; f.evaluate(); out(argv[1], f, argv[12]); break; }
        case 'U': { XVelocity f(S, x, y, d, nx, ny); f.mode = *argv[11]; f.ref_frame = *argv[10]; f.evaluate(); out(argv[1], f, argv[12]); break; }
        }
    } catch (const std::exception& e) { fprintf(stderr, "%s\n", e.what()); return 1; }
}
