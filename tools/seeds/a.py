import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkseed import seed

seed("timer-fractional-steps", "S02", [("opm/core/simulator/SimulatorTimer.cpp", "timesteps_.begin() + step, 0.0);", "timesteps_.begin() + step, 0);")],
 "a schedule with steps that are not whole seconds, and a jump to a later step", "the time of the step jumped to is rounded down step by step", r'''
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <cstdio>
#include <cmath>
int main() {
    Opm::parameter::ParameterGroup p;
    p.insertParameter("num_psteps", "7");
    p.insertParameter("stepsize_days", "0.00001");
    Opm::SimulatorTimer t;
    t.init(p);
    t.setCurrentStepNum(7);
    std::printf("%g %g\n", t.currentTime(), t.totalTime());
    return std::fabs(t.currentTime() - t.totalTime()) > 1e-9;
}
''')

seed("sparsetable-empty-first-row", "U04", [("opm/core/utility/SparseTable.hpp", "            if (row_start_.empty()) {\n                row_start_.reserve(2);", "            if (data_.empty() || row_start_.empty()) {\n                row_start_.clear();\n                row_start_.reserve(2);")],
 "two empty rows appended before any row with data", "leading empty rows collapse into one", r'''
#include <opm/core/utility/SparseTable.hpp>
#include <cstdio>
int main() {
    Opm::SparseTable<int> t;
    int d[2] = {1, 2};
    t.appendRow(d, d); t.appendRow(d, d); t.appendRow(d, d + 2);
    std::printf("%d rows\n", t.size());
    return t.size() != 3 || t.rowSize(2) != 2;
}
''')

seed("tarjan-finished-siblings", "T01", [("opm/core/transport/reorder/tarjan.c", "                else if (status[child] >= 0)\n                {\n                    link[c] = min(link[c], time[child]);\n\n                }\n                else\n                {\n                    assert(status[child] == DONE);\n                }",
  "                else if (status[child] > 0)\n                {\n                    link[c] = min(link[c], time[child]);\n                }")],
 "an edge back to a vertex on the stack all of whose own edges have been followed", "cells of one loop are split into several components", r'''
extern "C" {
#include <opm/core/transport/reorder/tarjan.h>
}
#include <cstdio>
int main() {
    // 0 -> 1 -> 2 -> 0: every cell has a single successor, so its last edge has always been followed.
    int ia[4] = {0, 1, 2, 3}, ja[3] = {1, 2, 0}, vert[3], comp[4], nc, work[9];
    tarjan(3, ia, ja, vert, comp, &nc, work);
    std::printf("%d components\n", nc);
    return nc != 1;
}
''')

seed("tpfa-bc-gravity-sign", "P01", [("opm/core/pressure/tpfa/ifs_tpfa.c", "h->b    [ c1 ] -= s * t * h->pimpl->fgrav[ f ];", "h->b    [ c1 ] -= t * h->pimpl->fgrav[ f ];")],
 "gravity together with a pressure condition on a boundary face whose first neighbour is the outside", "gravity acts the wrong way through pressure faces of the low sides", r'''
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/grid.h>
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/wells.h>
#include <cstdio>
#include <cmath>
#include <vector>
using namespace Opm;
int main() {
    GridManager gm(1, 1, 3, 1.0, 1.0, 1.0);
    const UnstructuredGrid& g = *gm.c_grid();
    std::vector<double> rho(2, 1000.0), mu(2, 1e-3);
    IncompPropertiesBasic props(2, SaturationPropsBasic::Linear, rho, mu, 0.2, 1e-13, 3, 3);
    double grav[3] = {0, 0, 10.0};
    FlowBoundaryConditions* bc = flow_conditions_construct(0);
    for (int f = 0; f < g.number_of_faces; ++f)
        if (std::fabs(g.face_centroids[3*f + 2]) < 1e-9) flow_conditions_append(BC_PRESSURE, f, 1e5, bc);   // top, z = 0
    LinearSolverUmfpack ls;
    std::vector<double> src(3, 0.0);
    Wells* w = create_wells(2, 0, 0);
    IncompTpfa psolver(g, props, ls, grav, w, src, bc);
    TwophaseState st; st.init(g, 2);
    for (int c = 0; c < 3; ++c) { st.saturation()[2*c] = 1.0; st.saturation()[2*c + 1] = 0.0; }
    WellState ws; ws.init(w, st);
    psolver.solve(1.0, st, ws);
    int bad = 0;
    for (int c = 0; c < 3; ++c) {
        const double want = 1e5 + 1e4*(c + 0.5);
        std::printf("%g (%g)\n", st.pressure()[c], want);
        if (std::fabs(st.pressure()[c] - want) > 1.0) bad = 1;
    }
    for (int f = 0; f < g.number_of_faces; ++f) if (std::fabs(st.faceflux()[f]) > 1e-12) bad = 1;
    return bad;
}
''')

seed("pvto-weight-by-pressure", "F01", [("opm/core/props/pvt/SinglePvtLiveOil.cpp", "double w = (saturated_oil_table_[3][i] - saturated_oil_table_[3][iPrev]) /\n                                           (saturated_oil_table_[3][iNext] - saturated_oil_table_[3][iPrev]);",
 "double w = (saturated_oil_table_[0][i] - saturated_oil_table_[0][iPrev]) /\n                                           (saturated_oil_table_[0][iNext] - saturated_oil_table_[0][iPrev]);")],
 "a PVTO table with a middle record without undersaturated data, between two records which have some", "undersaturated oil of the middle record is compressed by slopes weighted by bubble-point pressure instead of by dissolved gas", r'''
#include <opm/core/props/pvt/SinglePvtLiveOil.hpp>
#include <cstdio>
#include <cmath>
using namespace Opm;
int main() {
    typedef std::vector<std::vector<double> > Rec;
    std::vector<std::vector<std::vector<double> > > t(1);
    double r1[] = {10, 1e5, 1.1, 1.0, 2e5, 1.05, 1.1};        // Rs, then p, B, mu
    double r2[] = {20, 4e5, 1.2, 0.9};
    double r3[] = {40, 5e5, 1.4, 0.8, 6e5, 1.2, 1.0};
    t[0].push_back(std::vector<double>(r1, r1 + 7)); t[0].push_back(std::vector<double>(r2, r2 + 4)); t[0].push_back(std::vector<double>(r3, r3 + 7));
    SinglePvtLiveOil pvt(t);
    int pos[3] = {0, 1, 2};
    pvt.setPhaseConfiguration(3, pos);
    double p = 5e5, z[3] = {0, 1.0, 20.0}, B[1];
    pvt.B(1, &p, z, B);
    const double s1 = (1/1.05 - 1/1.1)/1e5, s3 = (1/1.2 - 1/1.4)/1e5, w = (20.0 - 10.0)/(40.0 - 10.0);
    const double want = 1.0/(1/1.2 + 1e5*(s1 + w*(s3 - s1)));
    std::printf("%.12g %.12g\n", B[0], want);
    return !(std::fabs(B[0] - want) < 1e-9);
}
''')
