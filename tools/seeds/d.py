import sys; sys.path.insert(0, '/verif/tools')
from mkseed import seed
K = "opm/core/io/eclipse/EclipseGridParserHelpers.hpp"
which = set(sys.argv[1:])
def S(sid, *a):
    if not which or sid in which: seed(sid, *a)

S("param-files-reversed", "U03", [("opm/core/utility/parameters/ParameterGroup_impl.hpp", "for (int i = 0; i < int(files.size()); ++i) {", "for (int i = int(files.size()) - 1; i >= 0; --i) {")],
 "a command line naming two parameter files which give the same parameter", "the value of the first file wins over that of the last", r'''
#include "config.h"
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <cstdio>
#include <fstream>
int main() {
    { std::ofstream a("a.param"), b("b.param"); a << "steps=3\n"; b << "steps=4\n"; }
    const char* argv[] = { "prog", "a.param", "b.param" };
    Opm::parameter::ParameterGroup p(3, argv, false);
    int steps = p.get<int>("steps");
    std::printf("steps %d\n", steps);
    return steps != 4;
}
''')

S("repeat-count-16bit", "E01", [(K, "int multiplier = int(candidate);", "unsigned short multiplier = static_cast<unsigned short>(candidate);")],
 "a field given with one repeat count above 65535", "the repeat count is taken modulo 65536 and the field is too short", r'''
#include "config.h"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <cstdio>
#include <fstream>
int main() {
    { std::ofstream f("deck"); f << "PORO\n 70000*0.25 0.5 /\n"; }
    Opm::EclipseGridParser p("deck", false);
    size_t n = p.getFloatingPointValue("PORO").size();
    std::printf("%d values\n", (int)n);
    return n != 70001;
}
''')

S("pvt-record-leading-point", "E04", [(K, "\t\tif (ct.is(std::ctype_base::digit, c) || c== '.') {\n\t\t    break;   // Decimal digit. Read more records.", "\t\tif (ct.is(std::ctype_base::digit, c)) {\n\t\t    break;   // Decimal digit. Read more records.")],
 "a table of live oil or wet gas with a record whose first number starts with the decimal point", "the record is not recognised as belonging to the table", r'''
#include "config.h"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <cstdio>
#include <fstream>
int main() {
    { std::ofstream f("deck"); f << "PVTO\n 0.1 20 1.1 1.2 /\n .5 40 1.2 1.1\n 60 1.15 1.15 /\n/\n"; }
    try {
        Opm::EclipseGridParser p("deck", false);
        const std::vector<std::vector<std::vector<double> > >& t = p.getPVTO().pvto_;
        std::printf("%d tables, %d records\n", (int)t.size(), (int)t[0].size());
        return !(t.size() == 1 && t[0].size() == 2 && t[0][1].size() == 7 && t[0][1][0] == 0.5);
    } catch (const std::exception& e) {
        std::printf("refused: %s\n", e.what());
        return 1;
    }
}
''')

S("schedule-units-first-periods", "E02", [("opm/core/io/eclipse/EclipseGridParser.cpp", "    for (int epoch = 0; epoch < numberOfEpochs(); ++epoch) {\n        SpecialMap& sm = special_field_by_epoch_[epoch];\n        for (SpecialIt", "    for (int epoch = 0; epoch < (numberOfEpochs() + 1)/2 + 2; ++epoch) {\n        if (epoch >= numberOfEpochs()) break;\n        SpecialMap& sm = special_field_by_epoch_[epoch];\n        for (SpecialIt")],
 "a schedule of five or more periods", "well rates of the last periods stay in the units of the deck", r'''
#include "config.h"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <cmath>
#include <cstdio>
#include <fstream>
int main() {
    {
        std::ofstream f("deck");
        f << "METRIC\n\n";
        for (int i = 0; i < 8; ++i) f << "WCONINJE\n 'I' WATER OPEN RATE 86400 /\n/\nTSTEP\n 1 /\n";
    }
    Opm::EclipseGridParser p("deck");
    int bad = 0;
    for (int e = 0; e < p.numberOfEpochs(); ++e) {
        p.setCurrentEpoch(e);
        const double q = p.getWCONINJE().wconinje[0].surface_flow_max_rate_;
        std::printf("period %d: %g m^3/s\n", e, q);
        if (!(std::fabs(q - 1) < 1e-12)) bad = 1;
    }
    return bad || p.numberOfEpochs() < 8;
}
''')

S("peaceman-radius-swapped", "W02", [("opm/core/wells/WellsManager.cpp", "(sqrt(kyox)*cubical[0]*cubical[0])", "(sqrt(kxoy)*cubical[0]*cubical[0])")],
 "a well in a cell with different lateral permeabilities and edge lengths, without a given index", "the equivalent radius, and so the well index, is wrong", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/wells/WellsManager.hpp>
#include <opm/core/wells.h>
#include <cmath>
#include <cstdio>
#include <fstream>
int main() {
    UnstructuredGrid* g = create_grid_hexa3d(1, 1, 1, 10.0, 30.0, 2.0);
    {
        std::ofstream f("deck");
        f << "METRIC\n\nWATER\n\nOIL\n\nDIMENS\n 1 1 1 /\nWELSPECS\n 'I' 'G' 1 1 1 WATER /\n/\nCOMPDAT\n 'I' 1 1 1 1 OPEN 1* 1* 0.2 /\n/\nWCONINJE\n 'I' WATER OPEN RATE 5 /\n/\nTSTEP\n 1 /\n";
    }
    Opm::EclipseGridParser deck("deck");
    deck.setCurrentEpoch(0);
    const double kx = 4e-13, ky = 1e-13, perm[9] = { kx, 0, 0, 0, ky, 0, 0, 0, 1e-13 };
    Opm::WellsManager w(deck, *g, perm);
    const double r0 = 0.28*std::sqrt(std::sqrt(ky/kx)*100 + std::sqrt(kx/ky)*900)/(std::pow(ky/kx, 0.25) + std::pow(kx/ky, 0.25));
    const double want = 6.283185307179586*std::sqrt(kx*ky)*2.0/std::log(r0/0.1);
    const double got = w.c_wells()->WI[0];
    std::printf("well index %g, should be %g\n", got, want);
    destroy_grid(g);
    return !(std::fabs(got - want) < 1e-6*want);
}
''')

S("cellmap-decimal-accepted", "G04", [("opm/core/grid/grid.c", "        ok = i == nc;\n        if (! ok) {\n            input_error(fp, \"Unable to read global cellmap\");", "        ok = i > 0 || nc == 0;\n        if (! ok) {\n            input_error(fp, \"Unable to read global cellmap\");")],
 "a grid file whose map of cells holds a decimal in place of a later entry", "the grid is accepted with an undefined map and shifted volumes", r'''
#include "config.h"
extern "C" {
#include <opm/core/grid.h>
}
#include <cstdio>
#include <fstream>
#include <string>
int main() {
    const std::string head = "2 2 7 6 14 8\n0 1\n2 1\n", nodes = "0 0 1 0 2 0 0 1 1 1 2 1\n",
        fpos = "0 2 4 6 8 10 12 14\n", fnod = "0 3 1 4 2 5 0 1 1 2 3 4 4 5\n", fcell = "-1 0 0 1 1 -1 -1 0 -1 1 0 -1 1 -1\n",
        area = "1 1 1 1 1 1 1\n", cent = "0 0.5 1 0.5 2 0.5 0.5 0 1.5 0 0.5 1 1.5 1\n", norm = "1 0 1 0 1 0 0 1 0 1 0 1 0 1\n",
        cpos = "0 4 8\n", cfac = "0 1 3 5 1 2 4 6\n", rest = "1 1\n0.5 0.5 1.5 0.5\n";
    for (int good = 1; good >= 0; --good) {
        {
            std::ofstream o("grid.txt");
            o << head << nodes << fpos << fnod << fcell << area << cent << norm << cpos << cfac << (good ? "5 9\n" : "5 .9\n") << rest;
        }
        UnstructuredGrid* g = read_grid("grid.txt");
        std::printf("%s file: %s\n", good ? "good" : "bad", g ? "read" : "refused");
        if ((g != NULL) != (good == 1)) return 1;
        if (g) destroy_grid(g);
    }
    return 0;
}
''')

S("vag-edges-of-large-faces", "I02", [("opm/core/io/vag/vag.cpp", "for(int j=0; j < ne-1;++j){", "for(int j=0; j < (ne < 6 ? ne-1 : 4);++j){")],
 "a grid with a face of six or more corners, as left by a fault", "the last edges of such faces are missing", r'''
#include "config.h"
extern "C" {
#include <opm/core/grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
}
#include <opm/core/io/vag/vag.hpp>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <sstream>
int main() {
    const int n = 6;   // one hexagonal prism
    UnstructuredGrid* g = allocate_grid(3, 1, n + 2, 4*n + 2*n, n + 2, 2*n);
    for (int l = 0; l < 2; ++l) for (int i = 0; i < n; ++i) {
        double* x = g->node_coordinates + 3*(n*l + i);
        x[0] = std::cos(i*1.0471975511965976); x[1] = std::sin(i*1.0471975511965976); x[2] = l;
    }
    int p = 0;
    g->face_nodepos[0] = 0;
    for (int f = 0; f < n + 2; ++f) {
        if (f < n) { const int j = (f + 1) % n, q[4] = { f, j, n + j, n + f }; for (int k = 0; k < 4; ++k) g->face_nodes[p++] = q[k]; }
        else for (int k = 0; k < n; ++k) g->face_nodes[p++] = f == n ? n - 1 - k : n + k;
        g->face_nodepos[f + 1] = p;
        g->face_cells[2*f] = 0; g->face_cells[2*f + 1] = -1; g->cell_faces[f] = f;
    }
    g->cell_facepos[0] = 0; g->cell_facepos[1] = n + 2;
    Opm::VAG v;
    std::ostringstream s; std::streambuf* o = std::cout.rdbuf(s.rdbuf());
    Opm::unstructuredGridToVag(*g, v);
    std::cout.rdbuf(o);
    int bad = v.number_of_edges != 18 || (int)v.faces_to_edges.value.size() != v.faces_to_edges.pos[n + 2];
    std::printf("%d edges of faces\n", (int)v.faces_to_edges.value.size());
    for (int f = 0; f < n + 2; ++f) {
        const int e = v.faces_to_edges.pos[f + 1] - v.faces_to_edges.pos[f], m = g->face_nodepos[f + 1] - g->face_nodepos[f];
        std::printf("face %d: %d corners, %d edges\n", f, m, e);
        if (e != m) bad = 1;
    }
    destroy_grid(g);
    return bad;
}
''')

S("well-source-first-control", "U06", [("opm/core/utility/miscUtilities.cpp", "if (wells.ctrls[w]->distr[np*cur + p] != 1.0) {", "if (wells.ctrls[w]->distr[p] != 1.0) {")],
 "a well which runs on a later control that limits one phase only", "the well is turned into a source of its phase limit as if that were its total rate", r'''
#include "config.h"
#include <opm/core/wells.h>
#include <opm/core/utility/miscUtilities.hpp>
#include <cstdio>
#include <exception>
#include <vector>
int main() {
    Wells* w = create_wells(2, 1, 1);
    const double frac[2] = { 1, 0 }, wi = 1, all[2] = { 1, 1 }, oil[2] = { 0, 1 };
    const int cell = 1;
    add_well(PRODUCER, 0, 1, frac, &cell, &wi, "P", w);
    append_well_controls(RESERVOIR_RATE, -3, all, 0, w);
    append_well_controls(RESERVOIR_RATE, -2, oil, 0, w);
    set_current_control(0, 1, w);
    std::vector<double> src;
    bool refused = false;
    try { Opm::wellsToSrc(*w, 3, src); } catch (const std::exception&) { refused = true; }
    std::printf("%s\n", refused ? "refused" : "accepted");
    destroy_wells(w);
    return !refused;
}
''')

S("face-quadrature-wide-faces", "U05", [("opm/core/grid/FaceQuadrature.hpp", "const int node2 = fnodes[(index + 1) % nn];", "const int node2 = fnodes[(index + 1) % nn % 4];")],
 "a face with five or more corners", "the quadrature weights do not cover the face", r'''
#include "config.h"
#include <opm/core/utility/ErrorMacros.hpp>
#include <opm/core/grid/FaceQuadrature.hpp>
extern "C" {
#include <opm/core/grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
}
#include <cmath>
#include <cstdio>
int main() {
    const int n = 6;   // one hexagonal prism
    UnstructuredGrid* g = allocate_grid(3, 1, n + 2, 4*n + 2*n, n + 2, 2*n);
    g->dimensions = 3; g->number_of_cells = 1; g->number_of_faces = n + 2; g->number_of_nodes = 2*n;
    for (int l = 0; l < 2; ++l) for (int i = 0; i < n; ++i) {
        double* x = g->node_coordinates + 3*(n*l + i);
        x[0] = std::cos(i*1.0471975511965976); x[1] = std::sin(i*1.0471975511965976); x[2] = l;
    }
    int p = 0;
    g->face_nodepos[0] = 0;
    for (int f = 0; f < n + 2; ++f) {
        if (f < n) { const int j = (f + 1) % n, q[4] = { f, j, n + j, n + f }; for (int k = 0; k < 4; ++k) g->face_nodes[p++] = q[k]; }
        else for (int k = 0; k < n; ++k) g->face_nodes[p++] = f == n ? n - 1 - k : n + k;
        g->face_nodepos[f + 1] = p;
        g->face_cells[2*f] = 0; g->face_cells[2*f + 1] = -1; g->cell_faces[f] = f;
    }
    g->cell_facepos[0] = 0; g->cell_facepos[1] = n + 2;
    compute_geometry(g);
    int bad = 0;
    for (int f = 0; f < n + 2; ++f) {
        Opm::FaceQuadrature q(*g, f, 2);
        double s = 0;
        for (int k = 0; k < q.numQuadPts(); ++k) s += q.quadPtWeight(k);
        std::printf("face %d: area %g, weights sum to %g\n", f, g->face_areas[f], s);
        if (!(std::fabs(s - g->face_areas[f]) < 1e-10)) bad = 1;
    }
    destroy_grid(g);
    return bad;
}
''')

S("limiter-order-of-indices", "T08", [("opm/core/tof/TofDiscGalReorder.cpp", "const int cell = seq[i];\n            applyLimiter", "const int cell = i;\n            applyLimiter")],
 "the limiter as a post-processing step, and flow against the numbering of the cells", "cells are limited by the values of upstream cells before these are limited themselves", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/tof/TofDiscGalReorder.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/utility/SparseTable.hpp>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <vector>
// A flow through a small square and the same turned by half a circle.
static const int nx = 4, ny = 3, n = nx*ny, nfx = (nx + 1)*ny, nfy = nx*(ny + 1);
static std::vector<double> tof(bool forward) {
    UnstructuredGrid* g = create_grid_cart2d(nx, ny, 1.0, 1.0);
    Opm::parameter::ParameterGroup p;
    p.disableOutput();
    p.insertParameter("dg_degree", "1");
    p.insertParameter("use_cvi", "false");
    p.insertParameter("use_limiter", "true");
    p.insertParameter("limiter_method", "MinUpwindFace");
    p.insertParameter("limiter_usage", "AsPostProcess");
    std::vector<double> q(nfx + nfy), psi((nx + 1)*(ny + 1)), pv(n), src(n, 0.0), t;
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) psi[i + (nx + 1)*j] = (i + 1)*j*(i % 2 ? 2.0 : 0.3) - 0.1*i*i;
    for (int j = 0; j < ny; ++j) for (int i = 0; i <= nx; ++i) q[i + (nx + 1)*j] = psi[i + (nx + 1)*(j + 1)] - psi[i + (nx + 1)*j];
    for (int j = 0; j <= ny; ++j) for (int i = 0; i < nx; ++i) q[nfx + i + nx*j] = psi[i + (nx + 1)*j] - psi[i + 1 + (nx + 1)*j];
    for (int c = 0; c < n; ++c) pv[c] = c % 3 == 1 ? 0.05 : 1.0 + c % 5;
    if (!forward) {
        std::vector<double> o(q), v(pv);
        for (int f = 0; f < nfx; ++f) q[f] = -o[nfx - 1 - f];
        for (int f = 0; f < nfy; ++f) q[nfx + f] = -o[nfx + nfy - 1 - f];
        for (int c = 0; c < n; ++c) pv[c] = v[n - 1 - c];
    }
    Opm::TofDiscGalReorder s(*g, p);
    s.solveTof(&q[0], &pv[0], &src[0], t);
    destroy_grid(g);
    return t;
}
int main() {
    std::ostringstream z; std::streambuf* o = std::cout.rdbuf(z.rdbuf());
    std::vector<double> a = tof(true), b = tof(false);
    std::cout.rdbuf(o);
    const int nb = a.size()/n;
    int bad = 0;
    for (int c = 0; c < n; ++c) {
        const double* x = &a[nb*c]; const double* y = &b[nb*(n - 1 - c)];
        std::printf("cell %d: average %g slopes %g %g, turned %g %g %g\n", c, x[0], x[1], x[2], y[0], -y[1], -y[2]);
        if (!(std::fabs(x[0] - y[0]) < 1e-9 && std::fabs(x[1] + y[1]) + std::fabs(x[2] + y[2]) < 1e-9)) bad = 1;
    }
    return bad;
}
''')
