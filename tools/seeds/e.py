import sys; sys.path.insert(0, '/verif/tools')
from mkseed import seed
which = set(sys.argv[1:])
def S(sid, *a):
    if not which or sid in which: seed(sid, *a)

S("tensor-side-face-height", "G01", [("opm/core/grid/cart_grid.c", "dx = x[i + 1] - x[i];\n                dz = z[k + 1] - z[k];", "dx = x[i + 1] - x[i];\n                dz = z[1] - z[0];")],
 "a three-dimensional tensor grid whose layers differ in thickness", "the faces normal to y get the area of the first layer", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <cmath>
#include <cstdio>
int main() {
    double x[] = { 0, 1 }, y[] = { 0, 2 }, z[] = { 0, 1, 4 };
    UnstructuredGrid* g = create_grid_tensor3d(1, 1, 2, x, y, z, 0);
    int bad = 0;
    for (int f = 0; f < g->number_of_faces; ++f) {
        const double* n = g->face_normals + 3 * f; const double a = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
        const double h = g->face_centroids[3 * f + 2] < 1 ? 1 : 3;
        const double want = n[0] ? 2 * h : n[1] ? h : 2;
        if (std::fabs(a - want) > 1e-9 || std::fabs(g->face_areas[f] - want) > 1e-9) { std::printf("face %d: %g %g, expected %g\n", f, a, g->face_areas[f], want); bad = 1; }
    }
    destroy_grid(g);
    return bad;
}
''')

S("uniform-table-equality", "U01", [("opm/core/utility/UniformTableLinear.hpp", "                && xdelta_ == other.xdelta_\n", "")],
 "two uniform tables with the same first argument and values which end elsewhere", "the tables compare equal", r'''
#include "config.h"
#include <opm/core/utility/UniformTableLinear.hpp>
#include <cstdio>
int main() {
    std::vector<double> y(3, 1.0); y[1] = 2;
    Opm::UniformTableLinear<double> a(0, 1, y), b(0, 2, y), c(0, 1, y);
    std::printf("%g %g equal %d\n", a(1.0), b(1.0), int(a == b));
    return a == b || !(a == c);
}
''')

S("bracket-second-side", "U02", [("opm/core/utility/RootFinders.hpp", "b = i < 2 ? x0 : x0 + 0.25*cur_dx;", "b = i < 1 ? x0 : x0 + 0.25*cur_dx;")],
 "a zero just on the other side of the starting point than first tried", "the interval returned does not contain the zero", r'''
#include "config.h"
#include <opm/core/utility/RootFinders.hpp>
#include <cstdio>
struct F { double operator()(double x) const { return x; } };
int main() {
    double a = 0, b = 0;
    Opm::bracketZero(F(), 0.1, 1.0, a, b);
    std::printf("%g %g\n", a, b);
    return !((a <= 0 && b >= 0) || (b <= 0 && a >= 0));
}
''')

S("gravity-saturation-range-cell", "T03", [("opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp", "RootFinder::solve(res, smin_[2*cell], smax_[2*cell], maxit_, tol_, iters_used);\n            reorder", "RootFinder::solve(res, smin_[0], smax_[0], maxit_, tol_, iters_used);\n            reorder")],
 "gravity segregation with a saturation range which differs between cells", "cells whose new saturation lies outside the first cell's range are not solved: water is created or lost", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <cmath>
#include <cstdio>
using namespace Opm;
struct Props : public IncompPropertiesBasic {
    Props() : IncompPropertiesBasic(2, SaturationPropsBasic::Quadratic, std::vector<double>({ 1000, 700 }), std::vector<double>({ 1e-3, 1e-3 }), 0.25, 1e-12, 3, 4) {}
    void satRange(const int n, const int* cells, double* smin, double* smax) const {
        for (int i = 0; i < n; ++i) { const double lo = cells[i] == 0 ? 0.4 : 0; smin[2 * i] = lo; smax[2 * i] = 1; smin[2 * i + 1] = 0; smax[2 * i + 1] = 1 - lo; }
    }
};
int main() {
    UnstructuredGrid* g = create_grid_cart3d(1, 1, 4);
    Props props;
    const double grav[3] = { 0, 0, 9.81 };
    TwophaseState st; st.init(*g, 2);
    const double sw[4] = { 0.7, 0.3, 0.2, 0.1 };
    for (int c = 0; c < 4; ++c) { st.saturation()[2 * c] = sw[c]; st.saturation()[2 * c + 1] = 1 - sw[c]; }
    double pv[4] = { 0.25, 0.25, 0.25, 0.25 }, src[4] = { 0, 0, 0, 0 };
    int bad = 0;
    try {
        TransportSolverTwophaseReorder t(*g, props, grav, 1e-10, 100);
        t.solve(pv, src, 1.0, st);
        for (int k = 0; k < 4; ++k) t.solveGravity(pv, 20000.0, st);
    } catch (const std::exception& e) { std::printf("failed: %s\n", e.what()); bad = 1; }
    double w = 0; for (int c = 0; c < 4; ++c) { w += st.saturation()[2 * c]; std::printf("%g ", st.saturation()[2 * c]); }
    std::printf("water %g\n", w);
    destroy_grid(g);
    return bad || std::fabs(w - 1.3) > 1e-6;
}
''')

S("implicit-shrinking-pore-volume", "T05", [("opm/core/transport/implicit/TransportSolverTwophaseImplicit.cpp", "if (porevolume[0] != initial_porevolume_cell0_) {", "if (porevolume[0] > initial_porevolume_cell0_) {")],
 "a step of the implicit solver with a pore volume which has shrunk since it was made", "the step is computed with the old pore volume instead of being refused", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/transport/implicit/TransportSolverTwophaseImplicit.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <cstdio>
using namespace Opm;
int main() {
    UnstructuredGrid* g = create_grid_cart2d(3, 1, 1.0, 1.0);
    IncompPropertiesBasic props(2, SaturationPropsBasic::Linear, std::vector<double>({ 1000, 1000 }), std::vector<double>({ 1e-3, 1e-3 }), 0.25, 1e-12, 2, 3);
    std::vector<double> pv(3, 0.25), half(g->cell_facepos[3], 1.0);
    parameter::ParameterGroup par; par.disableOutput();
    TransportSolverTwophaseImplicit t(*g, props, pv, 0, half, par);
    TwophaseState st; st.init(*g, 2);
    double src[3] = { 0.05, 0, -0.05 };
    for (int f = 0; f < g->number_of_faces; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; st.faceflux()[f] = a >= 0 && b >= 0 ? (b > a ? 0.05 : -0.05) : 0; }
    t.solve(&pv[0], src, 1.0, st);
    bool threw = false;
    pv[0] = 0.2;
    try { t.solve(&pv[0], src, 1.0, st); } catch (const std::exception&) { threw = true; }
    std::printf("refused %d\n", int(threw));
    destroy_grid(g);
    return !threw;
}
''')

S("vtk-negative-values", "I01", [("opm/core/io/vtk/writeVtkData.cpp", "std::fabs(value) < std::numeric_limits<double>::min()", "value < std::numeric_limits<double>::min()")],
 "a visualisation of a field with negative values", "negative values are written as zero", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/io/vtk/writeVtkData.hpp>
#include <cstdio>
#include <sstream>
int main() {
    UnstructuredGrid* g = create_grid_cart3d(2, 1, 1);
    std::vector<double> v(2); v[0] = -2.5; v[1] = 3.5;
    Opm::DataMap m; m["thefield"] = &v;
    std::ostringstream os; Opm::writeVtkData(*g, m, os);
    std::string s = os.str(); const size_t p = s.find("thefield", s.find("CellData") + 40);
    size_t q = s.find("thefield"); while (q != std::string::npos && s.find("DataArray", q) == std::string::npos) q = s.find("thefield", q + 1);
    const bool found = s.find("-2.5", s.find("CellData")) != std::string::npos;
    std::printf("%s\n", found ? "found" : s.substr(p == std::string::npos ? 0 : p - 60, 200).c_str());
    destroy_grid(g);
    return !found;
}
''')

S("coarse-neighbours-search", "P04", [("opm/core/pressure/msmfem/coarse_conn.c", "else if (t > b) { j = p + 0; }", "else if (t > b) { j = p > 2 ? p - 1 : p; }")],
 "a block with six or more neighbouring blocks, met by several fine faces in an unlucky order", "fine faces between the same two blocks end in different coarse faces", r'''
#include "config.h"
extern "C" {
#include <stddef.h>
#include <opm/core/pressure/msmfem/coarse_conn.h>
}
#include <cstdio>
#include <set>
#include <vector>
int main() {
    // block 0 has many cells, each next to one of nine single-cell blocks; every neighbour is met three times in changing order
    int bad = 0;
    for (int step = 1; step < 9; ++step) {
        if (step % 3 == 0) continue;
        const int nb = 9;
        std::vector<int> p(27 + nb, 0), nbr;
        for (int b = 0; b < nb; ++b) p[27 + b] = b + 1;
        for (int k = 0; k < 27; ++k) { nbr.push_back(k); nbr.push_back(27 + (k * step) % nb); }
        coarse_topology* t = coarse_topology_create(27 + nb, 27, 9, &p[0], &nbr[0]);
        std::set<std::pair<int, int> > s;
        for (int f = 0; f < t->nfaces; ++f) s.insert(std::make_pair(t->neighbours[2 * f], t->neighbours[2 * f + 1]));
        if (t->nfaces != nb || (int)s.size() != nb) { std::printf("order %d: %d coarse faces between %d pairs of blocks\n", step, t->nfaces, (int)s.size()); bad = 1; }
        coarse_topology_destroy(t);
    }
    return bad;
}
''')

S("capillary-region-of-point", "F02", [("opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp", "funcForCell(cells[i]).evalPc(s + np*i, pc + np*i);", "funcForCell(i).evalPc(s + np*i, pc + np*i);")],
 "capillary pressures asked for some of the cells of a deck with several saturation regions", "the table of another cell's region is used", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/props/satfunc/SaturationPropsFromDeck.hpp>
#include <opm/core/props/satfunc/SatFuncSimple.hpp>
#include <cmath>
#include <cstdio>
#include <fstream>
using namespace Opm;
int main() {
    { std::ofstream f("deck"); f << "RUNSPEC\nDIMENS\n 3 1 1 /\nWATER\nOIL\nMETRIC\nTABDIMS\n 2 1 3 /\nPROPS\nSWOF\n 0.1 0 1 2\n 0.9 1 0 1 /\n 0.1 0 1 5\n 0.9 1 0 3 /\nREGIONS\nSATNUM\n 1 2 2 /\n"; }
    EclipseGridParser deck("deck");
    UnstructuredGrid* g = create_grid_cart3d(3, 1, 1);
    SaturationPropsFromDeck<SatFuncSimpleNonuniform> sp;
    sp.init(deck, *g, 0);
    const double s[4] = { 0.5, 0.5, 0.5, 0.5 }; double pc[4] = { 0, 0, 0, 0 };
    const int cells[2] = { 2, 0 };
    sp.capPress(2, s, cells, pc, 0);
    const double a = pc[0] != 0 ? pc[0] : pc[1], b = pc[2] != 0 ? pc[2] : pc[3];
    std::printf("%g %g\n", a, b);
    destroy_grid(g);
    return std::fabs(std::fabs(a) - 4e5) > 1 || std::fabs(std::fabs(b) - 1.5e5) > 1;
}
''')

S("substep-injected-volume", "S03", [("opm/core/simulator/SimulatorIncompTwophase.cpp", "transport_src, stepsize,\n", "transport_src, timer.currentStepLength(),\n")],
 "an incompressible simulation with several transport steps per pressure step", "the injected and produced volumes reported are multiplied by the number of transport steps", r'''
#include "config.h"
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/grid.h>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/simulator/SimulatorIncompTwophase.hpp>
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/simulator/SimulatorReport.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/wells/WellsManager.hpp>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <sstream>
using namespace Opm;
int main() {
    GridManager gm(4, 1, 1, 1.0, 1.0, 1.0);
    const UnstructuredGrid& g = *gm.c_grid();
    IncompPropertiesBasic props(2, SaturationPropsBasic::Linear, std::vector<double>({ 1000, 800 }), std::vector<double>({ 1e-3, 1e-3 }), 0.5, 1e-12, 3, 4);
    std::vector<double> src(4, 0.0); src[0] = 1e-6; src[3] = -1e-6;
    parameter::ParameterGroup par; par.disableOutput();
    par.insertParameter("output", "false"); par.insertParameter("num_transport_substeps", "4"); par.insertParameter("num_psteps", "1"); par.insertParameter("stepsize_days", "1");
    WellsManager wm; LinearSolverUmfpack ls;
    TwophaseState st; st.init(g, 2);
    for (int c = 0; c < 4; ++c) { st.saturation()[2 * c] = 0; st.saturation()[2 * c + 1] = 1; }
    WellState ws; ws.init(0, st);
    SimulatorTimer timer; timer.init(par);
    std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf());
    try { SimulatorIncompTwophase sim(par, g, props, 0, wm, src, 0, ls, 0); sim.run(timer, st, ws); } catch (const std::exception& e) { std::cout.rdbuf(old); std::printf("failed: %s\n", e.what()); return 2; }
    std::cout.rdbuf(old);
    const std::string s = os.str(), key = "Total inj volumes:";
    const size_t p = s.find(key);
    if (p == std::string::npos) { std::printf("%s", s.c_str()); return 3; }
    double inj = 0; std::istringstream(s.substr(p + key.size())) >> inj;
    std::printf("injected %g of the pore volume\n", inj);
    return std::fabs(inj - 86400e-6 / 2) > 1e-5;
}
''')
