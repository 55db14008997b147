import sys, os
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, ".."))
from mkseed import seed
PROPS = open(os.path.join(H, "props.txt")).read()

seed("loop-start-saturation", "T02", [("opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp", "                saturation_[cell] = s0[i];\n", "", 0)],
 "a flow field in which cells circulate, so that they are solved together by repeated sweeps", "each sweep over a loop starts from the saturations of the sweep before instead of those at the start of the step", r'''
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/grid.h>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <cstdio>
#include <cmath>
#include <vector>
using namespace Opm;
int main() {
    GridManager gm(2, 2, 1);
    const UnstructuredGrid& g = *gm.c_grid();
    std::vector<double> rho(2, 1000.0), mu(2, 1.0);
    IncompPropertiesBasic props(2, SaturationPropsBasic::Quadratic, rho, mu, 1.0, 1.0, 3, 4);
    TransportSolverTwophaseReorder ts(g, props, 0, 1e-12, 100);
    TwophaseState st; st.init(g, 2);
    int bad = 0;
    for (int dir = -1; dir < 2; dir += 2) {
        for (int c = 0; c < 4; ++c) { st.saturation()[2*c] = 0.1*c; st.saturation()[2*c + 1] = 1 - 0.1*c; }
        // rotation 0-1-3-2 plus a source in 0 and a sink in 3
        for (int f = 0; f < g.number_of_faces; ++f) {
            const int a = g.face_cells[2*f], b = g.face_cells[2*f + 1];
            double q = 0;
            if (a >= 0 && b >= 0) {
                if (a == 0 && b == 1) q = dir*2.0 + 0.5; if (a == 1 && b == 3) q = dir*2.0 + 0.5;
                if (a == 0 && b == 2) q = -dir*2.0 + 0.5; if (a == 2 && b == 3) q = -dir*2.0 + 0.5;
            }
            st.faceflux()[f] = q;
        }
        double src[4] = {1, 0, 0, -1}, pv[4] = {1, 1, 1, 1};
        const double dt = 0.7;
        std::vector<double> s0 = st.saturation();
        ts.solve(pv, src, dt, st);
        double fw[4];
        for (int c = 0; c < 4; ++c) { double s = st.saturation()[2*c]; fw[c] = s*s/(s*s + (1 - s)*(1 - s)); }
        for (int c = 0; c < 4; ++c) {
            double r = st.saturation()[2*c] - s0[2*c] - dt*(src[c] > 0 ? src[c] : src[c]*fw[c]);
            for (int f = 0; f < g.number_of_faces; ++f) {
                const int a = g.face_cells[2*f], b = g.face_cells[2*f + 1];
                if (a < 0 || b < 0 || (a != c && b != c)) continue;
                const double q = st.faceflux()[f], w = q*(q > 0 ? fw[a] : fw[b]);
                r += dt*(a == c ? w : -w);
            }
            std::printf("cell %d: %g, imbalance %g\n", c, st.saturation()[2*c], r);
            if (!(std::fabs(r) < 1e-6)) bad = 1;
        }
    }
    return bad;
}
''')

seed("compressible-source-volume", "T04", [("opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp", "influx  =  src_is_inflow ? B_cell* src_flux : 0.0;", "influx  =  src_is_inflow ? src_flux : 0.0;")],
 "injection into a cell where the formation volume factor of water differs from one", "injected surface volumes are taken for reservoir volumes", PROPS + r'''
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
int main() {
    Opm::GridManager gm(2, 1, 1);
    const UnstructuredGrid& g = *gm.c_grid();
    Props props(2, 0.5, 0.9);
    Opm::TransportSolverCompressibleTwophaseReorder ts(g, props, 1e-12, 100);
    std::vector<double> q(g.number_of_faces, 0.0), s(4), z(4);
    double p[2] = {1, 1}, pv[2] = {1, 1}, src[2] = {0.1, -0.2};
    for (int f = 0; f < g.number_of_faces; ++f) if (g.face_cells[2*f] == 0 && g.face_cells[2*f + 1] == 1) q[f] = 0.2;
    double A[8]; props.matrix(2, p, 0, 0, A, 0);
    for (int c = 0; c < 2; ++c) { s[2*c] = 0; s[2*c + 1] = 1; z[2*c] = 0; z[2*c + 1] = A[4*c + 3]; }
    ts.solve(&q[0], p, pv, pv, src, 0.5, s, z);
    // nothing but the 0.05 of injected water has entered
    const double fw = s[2], out = 0.5*0.2*fw*A[0];
    std::printf("%g %g, left %g\n", z[0], z[2], out);
    return !(std::fabs(z[0] + z[2] + out - 0.05) < 1e-8);
}
''')

seed("tof-stale-face-values", "T06", [("opm/core/tof/TofReorder.cpp", "            std::fill(face_tof_.begin(), face_tof_.end(), 0.0);\n        }\n        num_tracers_ = 0;", "        }\n        num_tracers_ = 0;")],
 "the multidimensional method, flow across the boundary, and a second solve with the flow reversed", "fluid entering through a face keeps the age it had when it left through it", r'''
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/grid.h>
#include <opm/core/tof/TofReorder.hpp>
#include <cstdio>
#include <cmath>
#include <vector>
int main() {
    Opm::GridManager gm(3, 1, 1);
    const UnstructuredGrid& g = *gm.c_grid();
    Opm::TofReorder solver(g, true);
    std::vector<double> q(g.number_of_faces, 0.0), src(3, 0.0), pv(3, 1.0), tof;
    int bad = 0;
    for (int dir = 1; dir > -2; dir -= 2) {
        for (int f = 0; f < g.number_of_faces; ++f) if (std::fabs(g.face_normals[3*f]) > 0.5) q[f] = dir;
        solver.solveTof(&q[0], &pv[0], &src[0], tof);
        for (int c = 0; c < 3; ++c) { const double want = dir > 0 ? c + 1 : 3 - c; std::printf("%g ", tof[c]); if (!(std::fabs(tof[c] - want) < 1e-9)) bad = 1; }
        std::printf("\n");
    }
    return bad;
}
''')

seed("well-head-of-first-perforations", "P02", [("opm/core/pressure/tpfa/cfs_tpfa_residual.c", "dp = pw + wdp[i]- cpress[c];", "dp = pw + wdp[w]- cpress[c];", 0)],
 "gravity and a well with several perforations at different depths", "all perforations of a well see the pressure difference of one perforation", PROPS + r'''
#include <opm/core/pressure/CompressibleTpfa.hpp>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/wells.h>
int main() {
    Opm::GridManager gm(1, 1, 3);
    const UnstructuredGrid& g = *gm.c_grid();
    Props props(3, 1.0, 1.0);
    Wells* w = create_wells(2, 1, 3);
    int cells[3] = {0, 1, 2}; double wi[3] = {1, 1, 1}, frac[2] = {1, 0}, distr[2] = {1, 1};
    add_well(PRODUCER, 0.5, 3, frac, cells, wi, "P", w);
    append_well_controls(BHP, 9.0, distr, 0, w);
    set_current_control(0, 0, w);
    double grav[3] = {0, 0, 0.5};
    Opm::LinearSolverUmfpack ls;
    Opm::CompressibleTpfa ps(g, props, 0, ls, 1e-10, 0.0, 30, grav, w);
    Opm::BlackoilState st; st.init(g, 2); st.surfacevol().resize(6);
    for (int c = 0; c < 3; ++c) {
        st.pressure()[c] = 10 + 1.5*c; st.saturation()[2*c] = 1; st.saturation()[2*c + 1] = 0;
        double A[4]; props.matrix(1, &st.pressure()[c], 0, 0, A, 0);
        st.surfacevol()[2*c] = A[0]; st.surfacevol()[2*c + 1] = 0;
    }
    double head[3]; const std::vector<double> p0 = st.pressure();
    for (int c = 0; c < 3; ++c) head[c] = 3*(1 + 0.001*st.pressure()[c])*0.5*c;
    Opm::WellState ws; ws.init(w, st);
    ps.solve(0.01, st, ws);
    int bad = 0;
    double gained = 0, entered = 0, size = 0;
    for (int c = 0; c < 3; ++c) {
        gained += 0.25*0.001*(st.pressure()[c] - p0[c]);
        entered += 0.01*ws.perfRates()[c]; size += 0.01*std::fabs(ws.perfRates()[c]);
        const double want = ws.bhp()[0] + head[c] - st.pressure()[c];
        std::printf("%g %g\n", ws.perfRates()[c], want);
        if (!(std::fabs(ws.perfRates()[c] - want) < 1e-6)) bad = 1;
    }
    std::printf("gained %g, entered %g\n", gained, entered);
    if (!(std::fabs(gained - entered) < 0.05*size)) bad = 1;
    destroy_wells(w);
    return bad;
}
''')

seed("spu-explicit-oil-direction", "T07", [("opm/core/transport/minimal/spu_explicit.c", "if (dflux[f] - m1*gflux[f]>0) {", "if (dflux[f] + m1*gflux[f]>0) {")],
 "gravity and total flux of the same sign, strong enough gravity that oil flows the other way", "counter-current oil takes its mobility from the wrong cell", r'''
extern "C" {
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/transport/minimal/spu_explicit.h>
}
#include <cstdio>
#include <cmath>
#include <vector>
int main() {
    UnstructuredGrid* g = create_grid_cart2d(2, 1, 1.0, 1.0);
    std::vector<double> q(g->number_of_faces, 0.0), gf(g->number_of_faces, 0.0);
    for (int f = 0; f < g->number_of_faces; ++f) if (g->face_cells[2*f] == 0 && g->face_cells[2*f + 1] == 1) { q[f] = 1; gf[f] = 5; }
    double s0[2] = {0.5, 0.5}, s[2], mob[4] = {0.5, 0.7, 0.4, 0.2}, src[2] = {0, 0};
    spu_explicit(g, s0, s, mob, &q[0], &gf[0], src, 0.01);
    // oil: 1 - 0.5*5 < 0, so it comes from cell 1
    const double m1 = 0.5, m2 = 0.2, v = m1/(m1 + m2)*(1 + m2*5);
    std::printf("%g %g, want %g\n", s[0], s[1], 0.5 - 0.01*v);
    int bad = !(std::fabs(s[0] - (0.5 - 0.01*v)) < 1e-12);
    destroy_grid(g);
    return bad;
}
''')

seed("chop-layer-boundary", "I03", [("opm/core/io/eclipse/CornerpointChopper.hpp", "if (layer_max > zmin) {", "if (layer_max >= zmin) {")],
 "cutting exactly along the boundary between two layers", "the cut-out model begins with a layer of flat cells and one layer too many", r'''
#include <opm/core/io/eclipse/CornerpointChopper.hpp>
#include <cstdio>
#include <fstream>
int main() {
    {
        std::ofstream f("m.grdecl");
        f << "SPECGRID\n1 1 3 1 F /\n\nCOORD\n0 0 0 0 0 3\n1 0 0 1 0 3\n0 1 0 0 1 3\n1 1 0 1 1 3 /\n\nZCORN\n";
        for (int k = 0; k < 3; ++k) f << "4*" << k << " 4*" << k + 1 << "\n";
        f << "/\n\nPORO\n0.1 0.2 0.3 /\n\n";
    }
    Opm::CornerPointChopper ch("m.grdecl");
    ch.chop(0, 1, 0, 1, 1.0, 3.0);
    Opm::EclipseGridParser p = ch.subparser();
    const std::vector<int>& d = p.getSPECGRID().dimensions;
    std::printf("%d layers\n", d[2]);
    return d[2] != 2;
}
''')
