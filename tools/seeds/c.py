import sys; sys.path.insert(0, '/verif/tools')
from mkseed import seed

seed("cfs-last-well-decides-datum", "P05", [("opm/core/pressure/tpfa/cfs_tpfa.c", "is_neumann = is_neumann && (! is_bhp);", "is_neumann = ! is_bhp;")],
 "incompressible, closed boundaries, a pressure-controlled well listed before a rate-controlled one", "the first cell's equation is altered although the pressure level is already fixed", r'''
extern "C" {
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/legacy_well.h>
#include <opm/core/pressure/tpfa/compr_quant.h>
#include <opm/core/pressure/tpfa/cfs_tpfa.h>
}
#include <cstdio>
#include <cmath>
#include <vector>
int main() {
    UnstructuredGrid* g = create_grid_cart2d(3, 1, 1.0, 1.0);
    const int nf = g->number_of_faces;
    std::vector<double> one(nf + 10, 1.0), zero(nf + 10, 0.0);
    compr_quantities cq = { 1, &zero[0], &zero[0], &one[0], &one[0], &one[0] };
    int pos[3] = { 0, 1, 2 }, cells[2] = { 2, 0 };
    well_t W = { 2, pos, cells };
    well_type ty[2] = { INJECTOR, INJECTOR };
    well_control ct[2] = { BHP, RATE };
    double target[2] = { 5.0, 0.25 };
    well_control_t wc = { ty, ct, target, &one[0] };
    completion_data cd = { &one[0], &zero[0], &one[0], &one[0] };
    cfs_tpfa_data* h = cfs_tpfa_construct(g, &W, 1);
    cfs_tpfa_assemble(g, 1.0, &W, 0, &zero[0], &cq, &one[0], &zero[0], &wc, &cd, &zero[0], &one[0], h);
    // 0.25 flows from the second well through cells 0, 1, 2 into the first: pressures 5.75, 5.5, 5.25, wells 5 and 6
    const double x[5] = { 5.75, 5.5, 5.25, 5.0, 6.0 };
    int bad = 0;
    for (int i = 0; i < 5; ++i) {
        double r = -h->b[i];
        for (int j = h->A->ia[i]; j < h->A->ia[i + 1]; ++j) r += h->A->sa[j]*x[h->A->ja[j]];
        std::printf("equation %d: residual %g\n", i, r);
        if (!(std::fabs(r) < 1e-12)) bad = 1;
    }
    cfs_tpfa_destroy(h);
    destroy_grid(g);
    return bad;
}
''')

seed("include-ends-period", "E03", [("opm/core/io/eclipse/EclipseGridParser.cpp", "                readImpl(include_is);", "                current_reading_mode_ = Regular;\n                readImpl(include_is);")],
 "a schedule whose steps are followed by an include file which starts with well events", "the events after the steps are merged into the period before them", r'''
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <cstdio>
#include <fstream>
int main() {
    {
        std::ofstream f("deck"), i("part.inc");
        f << "WELOPEN\n 'A' OPEN /\n/\nTSTEP\n 5 /\nINCLUDE\n'part.inc' /\n";
        i << "WELOPEN\n 'B' OPEN /\n/\nTSTEP\n 7 /\n";
    }
    Opm::EclipseGridParser p("deck", false);
    std::printf("%d periods, %d events in the first\n", p.numberOfEpochs(), (int)p.getWELOPEN().welopen.size());
    return !(p.numberOfEpochs() == 2 && p.getWELOPEN().welopen.size() == 1);
}
''')
