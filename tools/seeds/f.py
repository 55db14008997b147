import sys; sys.path.insert(0, '/verif/tools')
from mkseed import seed
which = set(sys.argv[1:])
def S(sid, *a):
    if not which or sid in which: seed(sid, *a)

S("dented-cell-volume", "G02", [("opm/core/grid/cpgpreprocess/geometry.c", "volume += tet_volume;", "volume += fabs(tet_volume);")],
 "a cell so dented that it is not visible from the mean of its face centroids", "the parts outside the cell are added instead of taken away: its volume is too large and its centroid wrong", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <cmath>
#include <cstdio>
int main() {
    // two apexes above the same square: the upper pyramid (height 2) less the lower one (height 1)
    const double p[6][3] = { { -1, -1, 0 }, { 1, -1, 0 }, { 1, 1, 0 }, { -1, 1, 0 }, { 0, 0, 2 }, { 0, 0, 1 } };
    UnstructuredGrid* g = allocate_grid(3, 1, 8, 24, 8, 6);
    g->dimensions = 3; g->number_of_cells = 1; g->number_of_faces = 8; g->number_of_nodes = 6;
    for (int i = 0; i < 6; ++i) for (int d = 0; d < 3; ++d) g->node_coordinates[3 * i + d] = p[i][d];
    for (int f = 0; f < 8; ++f) {
        const int a = f % 4, b = (a + 1) % 4, up = f < 4;
        g->face_nodes[3 * f] = up ? a : b; g->face_nodes[3 * f + 1] = up ? b : a; g->face_nodes[3 * f + 2] = up ? 4 : 5;
        g->face_nodepos[f] = 3 * f; g->face_cells[2 * f] = 0; g->face_cells[2 * f + 1] = -1; g->cell_faces[f] = f;
    }
    g->face_nodepos[8] = 24; g->cell_facepos[0] = 0; g->cell_facepos[1] = 8;
    compute_geometry(g);
    const double want = 4 * (2 - 1) / 3.0;
    std::printf("volume %g, expected %g; centroid at %g, expected 0.75\n", g->cell_volumes[0], want, g->cell_centroids[2]);
    return !(std::fabs(g->cell_volumes[0] - want) < 1e-9 && std::fabs(g->cell_centroids[2] - 0.75) < 1e-9);
}
''')

S("hybrid-stale-conditions", "P03", [("opm/core/pressure/fsh_common_impl.c", "    for (i = 0; i < pimpl->nf; i++) { pimpl->bdry_condition[ i ] = -1; }\n\n    if (fbc != NULL) {", "    if (fbc != NULL) {\n        for (i = 0; i < pimpl->nf; i++) { pimpl->bdry_condition[ i ] = -1; }\n")],
 "a system assembled with boundary conditions and then again without any", "the second system still contains the conditions of the first", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/fsh.h>
#include <opm/core/pressure/mimetic/mimetic.h>
#include <cmath>
#include <cstdio>
#include <vector>
static void make(fsh_data* h, FlowBoundaryConditions* bc, UnstructuredGrid* g, std::vector<double>& Binv, std::vector<double>& gp, std::vector<double>& src) {
    csrmatrix_zero(h->A); vector_zero(h->A->m, h->b);
    ifsh_assemble(bc, &src[0], &Binv[0], &gp[0], 0, 0, 0, h);
}
int main() {
    UnstructuredGrid* g = create_grid_cart3d(3, 1, 1);
    std::vector<double> perm(27, 0.0), Binv(3 * 36), gp(18, 0.0), src(3, 0.0);
    for (int c = 0; c < 3; ++c) for (int d = 0; d < 3; ++d) perm[9 * c + 4 * d] = 1;
    src[0] = 1; src[2] = -1;
    mim_ip_simple_all(3, 3, 6, g->cell_facepos, g->cell_faces, g->face_cells, g->face_centroids, g->face_normals, g->face_areas, g->cell_centroids, g->cell_volumes, &perm[0], &Binv[0]);
    FlowBoundaryConditions* bc = flow_conditions_construct(1);
    for (int f = 0; f < g->number_of_faces; ++f) if (g->face_cells[2 * f] < 0) { flow_conditions_append(BC_PRESSURE, f, 7, bc); break; }
    fsh_data *a = ifsh_construct(g, 0), *b = ifsh_construct(g, 0);
    make(a, bc, g, Binv, gp, src);
    make(a, 0, g, Binv, gp, src);
    make(b, 0, g, Binv, gp, src);
    double d = 0;
    for (size_t i = 0; i < a->A->nnz; ++i) d += std::fabs(a->A->sa[i] - b->A->sa[i]);
    for (size_t i = 0; i < a->A->m; ++i) d += std::fabs(a->b[i] - b->b[i]);
    std::printf("difference to a fresh system: %g\n", d);
    fsh_destroy(a); fsh_destroy(b); flow_conditions_destroy(bc); destroy_grid(g);
    return !(d < 1e-12);
}
''')

S("perm-yz-symmetric", "F03", [("opm/core/props/rock/RockFromDeck.cpp", "kmap[yz] = kmap[zy] = tensor.size();", "kmap[yz] = tensor.size();")],
 "a deck which gives PERMYZ", "the tensor gets the value above the diagonal only and is not symmetric", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/props/rock/RockFromDeck.hpp>
#include <cstdio>
#include <fstream>
int main() {
    { std::ofstream f("T.DATA"); f << "RUNSPEC\nDIMENS\n1 1 2 /\nGRID\nPORO\n2*0.3 /\nPERMX\n2*100 /\nPERMY\n2*200 /\nPERMZ\n2*300 /\nPERMYZ\n20 30 /\nSCHEDULE\nEND\n"; }
    Opm::EclipseGridParser deck("T.DATA", false);
    deck.convertToSI();
    UnstructuredGrid* g = create_grid_cart3d(1, 1, 2);
    Opm::RockFromDeck r; r.init(deck, *g);
    int bad = 0;
    for (int c = 0; c < 2; ++c) {
        const double* k = r.permeability() + 9 * c;
        std::printf("%g %g\n", k[5], k[7]);
        if (k[5] != k[7] || k[5] <= 0) bad = 1;
    }
    destroy_grid(g);
    return bad;
}
''')

S("initial-bhp-first-control", "S01", [("opm/core/simulator/WellState.hpp", "(ctrl->type[ctrl->current] != BHP)", "(ctrl->type[0] != BHP)")],
 "a rate-controlled well which also has a bottom hole pressure limit listed first", "its initial pressure is the target of its rate instead of the pressure of its cell", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/wells.h>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <cstdio>
int main() {
    UnstructuredGrid* g = create_grid_cart3d(2, 1, 1);
    Wells* w = create_wells(2, 1, 1);
    const double frac[2] = { 1, 0 }, wi = 1, d[2] = { 1, 1 };
    const int cell = 1;
    add_well(PRODUCER, 0, 1, frac, &cell, &wi, "P", w);
    append_well_controls(BHP, 5e6, 0, 0, w);
    append_well_controls(RESERVOIR_RATE, -3, d, 0, w);
    set_current_control(0, 1, w);
    Opm::TwophaseState s; s.init(*g, 2);
    s.pressure()[0] = 1e7; s.pressure()[1] = 2e7;
    Opm::WellState ws; ws.init(w, s);
    std::printf("bhp %g\n", ws.bhp()[0]);
    const bool ok = ws.bhp()[0] == 2e7;
    destroy_wells(w); destroy_grid(g);
    return !ok;
}
''')

S("csr-sort-16bit", "L01", [("opm/core/linalg/sparse_sys.c", "return *(const int * const)a0 - *(const int * const)b0;", "return (short) (*(const int * const)a0 - *(const int * const)b0);")],
 "a matrix row with entries over 32767 columns apart", "the row is not sorted and entries in it are not found", r'''
#include "config.h"
#include <opm/core/linalg/sparse_sys.h>
#include <cstdio>
int main() {
    const int n = 50000, col[3] = { 49000, 5, 20000 };
    CSRMatrix* A = csrmatrix_new_count_nnz(n);
    A->ia[1] = 3;
    csrmatrix_new_elms_pushback(A);
    for (int k = 0; k < 3; ++k) A->ja[A->ia[1]++] = col[k];
    csrmatrix_sortrows(A);
    int bad = 0;
    for (int k = A->ia[0]; k < A->ia[1]; ++k) { std::printf("%d ", A->ja[k]); if (k && A->ja[k] <= A->ja[k - 1]) bad = 1; }
    for (int k = 0; k < 3 && !bad; ++k) if (A->ja[csrmatrix_elm_index(0, col[k], A)] != col[k]) bad = 1;
    std::printf("\n");
    csrmatrix_delete(A);
    return bad;
}
''')

S("dzv-longer-accepted", "E05", [("opm/core/grid/GridManager.cpp", "if (dims[2] != int(dzv.size())) {", "if (dims[2] > int(dzv.size())) {")],
 "a deck with more layer thicknesses than layers", "the deck is accepted and the surplus silently ignored or read as layers", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <cstdio>
#include <exception>
#include <fstream>
int main() {
    { std::ofstream f("T.DATA"); f << "RUNSPEC\nDIMENS\n2 1 2 /\nGRID\nDXV\n1 1 /\nDYV\n1 /\nDZV\n1 1 1 /\nSCHEDULE\nEND\n"; }
    bool refused = false;
    try { Opm::EclipseGridParser deck("T.DATA"); Opm::GridManager gm(deck); std::printf("%d cells\n", gm.c_grid()->number_of_cells); } catch (const std::exception&) { refused = true; }
    { std::ofstream f("T.DATA"); f << "RUNSPEC\nDIMENS\n2 1 2 /\nGRID\nDXV\n1 1 /\nDYV\n1 /\nDZV\n1 1 /\nSCHEDULE\nEND\n"; }
    Opm::EclipseGridParser deck("T.DATA"); Opm::GridManager gm(deck);
    return !refused || gm.c_grid()->number_of_cells != 4;
}
''')

S("voidage-gas-at-surface", "W03", [("opm/core/wells/WellsGroup.cpp", "total_produced += getTotalProductionFlow(well_reservoirrates_phase, BlackoilPhases::Vapour);", "total_produced += getTotalProductionFlow(well_surfacerates_phase, BlackoilPhases::Vapour);")],
 "voidage replacement for producers of free gas", "the gas counts with its rate at the surface: the reservoir is not refilled by what was taken", r'''
#include "config.h"
#include <opm/core/wells.h>
#include <opm/core/wells/WellCollection.hpp>
#include <opm/core/wells/WellsGroup.hpp>
#include <cmath>
#include <cstdio>
#include <tr1/memory>
#include <vector>
using namespace Opm;
typedef std::tr1::shared_ptr<WellsGroupInterface> Node;
int main() {
    PhaseUsage pu; pu.num_phases = 3;
    for (int p = 0; p < 3; ++p) { pu.phase_used[p] = 1; pu.phase_pos[p] = p; }
    ProductionSpecification none, pw; InjectionSpecification gi, wi, no;
    gi.control_mode_ = InjectionSpecification::VREP; gi.voidage_replacment_fraction_ = 1; gi.injector_type_ = InjectionSpecification::WATER;
    wi.control_mode_ = InjectionSpecification::GRUP; wi.guide_rate_ = 1; wi.injector_type_ = InjectionSpecification::WATER;
    Node g(new WellsGroup("G", none, gi, pu)), p(new WellNode("P", pw, no, pu)), i(new WellNode("I", none, wi, pu));
    WellCollection wc;
    wc.addChild(g); wc.addChild(p, "G"); wc.addChild(i, "G");
    Wells* W = create_wells(3, 2, 2);
    const double frac[3] = { 1, 0, 0 }, w1 = 1; int cell = 0;
    add_well(PRODUCER, 0, 1, frac, &cell, &w1, "P", W);
    append_well_controls(BHP, 1e6, 0, 0, W);
    cell = 1;
    add_well(INJECTOR, 0, 1, frac, &cell, &w1, "I", W);
    append_well_controls(BHP, 1e8, 0, 1, W);
    wc.setWellsPointer(W);
    std::vector<double> res(6, 0.0), surf(6, 0.0);
    res[0] = -1; res[1] = -2; res[2] = -3;
    surf[0] = -1; surf[1] = -1.5; surf[2] = -500;
    wc.applyExplicitReinjectionControls(res, surf);
    const WellControls* c = W->ctrls[1];
    double t = 0;
    for (int k = 0; k < c->num; ++k) if (c->type[k] == RESERVOIR_RATE) t = c->target[k];
    std::printf("voidage 6, injection target %g\n", t);
    return !(std::fabs(t - 6) < 1e-9);
}
''')

S("partial-coordinates-used", "U07", [("opm/core/grid/cart_grid.c", "if ((x == NULL) || (y == NULL) || (z == NULL)) {", "if ((x == NULL) || (z == NULL)) {")],
 "no memory left for the coordinates of the second axis of a grid", "they are written all the same, through a null pointer", r'''
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <cstdio>
#include <cstdlib>
static long left = -1;
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) { if (left >= 0 && left-- == 0) return 0; return __libc_malloc(n); }
int main() {
    for (long k = 0; k < 200; ++k) {
        left = k;
        UnstructuredGrid* g = create_grid_hexa3d(2, 3, 2, 1, 1, 1);
        const bool done = left > 0;
        left = -1;
        if (g) {
            if (g->number_of_cells != 12) return 1;
            destroy_grid(g);
            if (done) { std::printf("%ld requests\n", k); return 0; }
        }
    }
    return 1;
}
''')
