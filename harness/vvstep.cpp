// One run of the stated scheme, stage by stage, with the library's own stages.
//   vvstep FILE DIR N          runs N steps from the problem in FILE and saves each one in DIR
//   vvstep heat FILE OUT PR C,K ... p,X,Y,G ...    the problem with Prandtl number PR and, for each body, heat condition C (nitw) and constant K, and heat particles
#include "TSpace.hpp"
#include "MConvectiveFast.hpp"
#include "MEpsilonFast.hpp"
#include "MDiffusiveFast.hpp"
#include "MFlowmove.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
static int heat(int argc, char** argv) {
    Space S; S.load(argv[2]); S.pr = atof(argv[4]); int i = 5;
    for (auto& b: S.BodyList) {
        if (i >= argc || *argv[i] == 'p') break;
        char c = *argv[i]; double k = atof(argv[i++]+2);
        b->heat_condition = c == 'i' ? hc_t::isolate : c == 't' ? hc_t::const_t : c == 'w' ? hc_t::const_w : hc_t::neglect;
        for (auto& a: b->alist) a.heat_const = k;
    }
    for (; i < argc; i++) { double x, y, g; if (sscanf(argv[i], "p,%lf,%lf,%lf", &x, &y, &g) == 3) S.HeatList.push_back(TObj(x, y, g)); }
    S.save(argv[3]); return 0;
}
int main(int argc, char** argv) {
    try {
        if (argc > 4 && !strcmp(argv[1], "heat")) return heat(argc, argv);
        Space S; S.load(argv[1]);
        std::string out = std::string(argv[2]) + "/%06d.h5"; int n = atoi(argv[3]);
        double dl = S.average_segment_length();
        TSortedTree tr = {&S, 8, dl > 0 ? 5*dl : 0, dl > 0 ? 100*dl : std::numeric_limits<double>::max()};
        MConvectiveFast convective = {&S, &tr}; MEpsilonFast cores = {&S, &tr}; MDiffusiveFast diffusive = {&S, &tr}; MFlowmove flow = {&S};
        bool viscous = !std::isinf(S.re); const void* hit = nullptr;
        for (int i = 0; i < n; i++) {
            if (!S.BodyList.empty()) { // the strengths of the surfaces, for the cores of this moment; two solutions after a stop was hit
                tr.build(); cores.CalcEpsilonFast(false);
                for (int k = hit ? 2 : 1; k--; ) convective.calc_circulation(&hit);
                tr.destroy();
            }
            flow.heat_shed(); // part of the state that is saved
            S.save(out.c_str());
            flow.vortex_shed(); flow.streak_shed();
            S.calc_forces(); S.zero_forces();
            tr.build(); cores.CalcEpsilonFast(viscous); convective.process_all_lists();
            if (viscous) { diffusive.process_vort_list(); diffusive.process_heat_list(); }
            tr.destroy();
            flow.move_and_clean(true, &hit); flow.heat_crop();
            S.time = TTime::add(S.time, S.dt);
        }
    } catch (const std::exception& e) { fprintf(stderr, "%s\n", e.what()); return 1; }
}
