// extractColumn on every small corner-point / Cartesian grid: columns are the maximal vertically connected stacks.
#include "gridcheck.hpp"
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/grid/ColumnExtract.hpp>

static void check1(const UnstructuredGrid* g, const std::vector<std::vector<int> >& want_global)
{
    std::vector<std::vector<int> > cols;
    Opm::extractColumn(*g, cols);
    vh::tr();
    std::set<std::vector<int> > got, want(want_global.begin(), want_global.end());
    for (size_t c = 0; c < cols.size(); ++c) {
        std::vector<int> q;
        for (size_t k = 0; k < cols[c].size(); ++k) {
            if (cols[c][k] < 0 || cols[c][k] >= g->number_of_cells) { vh::fail("range", "column %d holds cell %d", (int)c, cols[c][k]); return; }
            q.push_back(g->global_cell ? g->global_cell[cols[c][k]] : cols[c][k]);
        }
        if (!got.insert(q).second) vh::fail("dup", "column %d repeated", (int)c);
    }
    if (got != want) {
        std::string s;
        for (std::set<std::vector<int> >::iterator i = got.begin(); i != got.end(); ++i) s += "[" + vh::str(*i) + "]";
        s += " expected ";
        for (std::set<std::vector<int> >::iterator i = want.begin(); i != want.end(); ++i) s += "[" + vh::str(*i) + "]";
        vh::fail("columns", "%s", s.c_str());
    }
    std::string s;
    for (std::set<std::vector<int> >::iterator i = got.begin(); i != got.end(); ++i) s += "[" + vh::str(*i) + "]";
    vh::outcome(s);
    if (cols.size() > 2) vh::sample(s);
}

// the same grid with its cells renumbered (new number of cell c: to[c]) and its faces turned around
static void renumber(UnstructuredGrid* g, const std::vector<int>& to, int turn)
{
    const int nc = g->number_of_cells, d = g->dimensions;
    std::vector<int> map(nc), pos(nc + 1, 0), cf(g->cell_faces, g->cell_faces + g->cell_facepos[nc]), tag(g->cell_facetag, g->cell_facetag + g->cell_facepos[nc]);
    std::vector<double> cc(d * nc), vol(nc); std::vector<int> from(nc);
    for (int c = 0; c < nc; ++c) from[to[c]] = c;
    for (int n = 0; n < nc; ++n) {
        const int c = from[n]; const int* b = g->cell_faces + g->cell_facepos[c]; const int m = g->cell_facepos[c + 1] - g->cell_facepos[c];
        map[n] = g->global_cell ? g->global_cell[c] : c; vol[n] = g->cell_volumes[c];
        for (int i = 0; i < d; ++i) cc[d * n + i] = g->cell_centroids[d * c + i];
        for (int i = 0; i < m; ++i) { cf[pos[n] + i] = b[i]; tag[pos[n] + i] = g->cell_facetag[g->cell_facepos[c] + i]; }
        pos[n + 1] = pos[n] + m;
    }
    for (int f = 0; f < g->number_of_faces; ++f) {
        for (int s = 0; s < 2; ++s) if (g->face_cells[2 * f + s] >= 0) g->face_cells[2 * f + s] = to[g->face_cells[2 * f + s]];
        if (turn == 1 || (turn == 2 && f % 2)) { std::swap(g->face_cells[2 * f], g->face_cells[2 * f + 1]); for (int i = 0; i < d; ++i) g->face_normals[d * f + i] *= -1; }
    }
    if (!g->global_cell) g->global_cell = (int*)malloc(nc * sizeof(int));
    std::copy(map.begin(), map.end(), g->global_cell); std::copy(pos.begin(), pos.end(), g->cell_facepos); std::copy(cf.begin(), cf.end(), g->cell_faces);
    std::copy(tag.begin(), tag.end(), g->cell_facetag); std::copy(vol.begin(), vol.end(), g->cell_volumes); std::copy(cc.begin(), cc.end(), g->cell_centroids);
}
static void check(UnstructuredGrid* g, const std::vector<std::vector<int> >& want)
{
    check1(g, want);
    const int nc = g->number_of_cells;
    std::vector<int> to(nc);
    for (int c = 0; c < nc; ++c) to[c] = nc - 1 - c;
    renumber(g, to, 1); check1(g, want);
    for (int c = 0; c < nc; ++c) to[c] = (c + nc / 2 + 1) % nc;
    renumber(g, to, 2); check1(g, want);
    for (int c = 0; c < nc; ++c) to[c] = c % 2 ? nc / 2 - 1 - c / 2 : nc / 2 + c / 2;
    renumber(g, to, 2); check1(g, want);
}

// thickness per cell (0 pinch), gap above per layer, ACTNUM bits
static void cp(int nx, int ny, int nz, const std::vector<int>& thick, const std::vector<int>& gap, unsigned act)
{
    const int nc = nx * ny * nz;
    std::vector<double> coord, z(8 * nc);
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { double a[6] = { 1. * i, 1. * j, 0, 1. * i, 1. * j, 9 }; coord.insert(coord.end(), a, a + 6); }
    std::vector<int> actnum(nc);
    std::vector<std::vector<int> > want;
    bool any = false;
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        double zz = 0.25 * i;
        std::vector<int> run;
        double last = -1;
        for (int k = 0; k < nz; ++k) {
            int c = i + nx * (j + ny * k);
            zz += gap[c];
            double top = zz;
            zz += thick[c];
            for (int q = 0; q < 8; ++q) z[2 * i + (q & 1) + 2 * nx * (2 * j + (q >> 1 & 1) + 2 * ny * (2 * k + (q >> 2)))] = q & 4 ? zz : top;
            actnum[c] = nc > 32 ? act == ~0u || (c * (int)(act % 13 + 1) + c / 7) % 5 != 0 : act >> c & 1;
            if (actnum[c] && thick[c]) {
                any = true;
                if (!run.empty() && last != top) { want.push_back(run); run.clear(); }
                run.push_back(c);
                last = zz;
            }
        }
        if (!run.empty()) want.push_back(run);
    }
    if (!any) return;
    struct grdecl in = { { nx, ny, nz }, &coord[0], &z[0], &actnum[0], 0 };
    UnstructuredGrid* g = create_grid_cornerpoint(&in, 0.0);
    check(g, want);
    destroy_grid(g);
}

void explore()
{
    const bool T = vh::thorough();
    // Cartesian grids (identity global map), and the same with a scattered map from a file-like construction
    for (int nx = 1; nx <= 4; ++nx) for (int ny = 1; ny <= 4; ++ny) for (int nz = 1; nz <= 4; ++nz) {
        if (!vh::begin(vh::fmt("cart/%d.%d.%d", nx, ny, nz))) continue;
        UnstructuredGrid* g = create_grid_cart3d(nx, ny, nz);
        std::vector<std::vector<int> > want(nx * ny);
        for (int c = 0; c < nx * ny * nz; ++c) want[c % (nx * ny)].push_back(c);
        check(g, want);
        destroy_grid(g);
    }
    // larger boxes
    const int big[][3] = { { 1, 1, 60 }, { 9, 7, 3 }, { 2, 2, 40 }, { 25, 1, 4 }, { 6, 5, 8 } };
    for (int b = 0; b < 5; ++b) for (unsigned a = 0; a < 14; ++a) for (int p = 0; p < 6; ++p) {
        if (!vh::begin(vh::fmt("large/%d/%u/%d", b, a, p))) continue;
        const int nc = big[b][0] * big[b][1] * big[b][2]; std::vector<int> th(nc, 1), gap(nc, 0);
        for (int c = 0; c < nc; ++c) { if (p & 1) th[c] = (c * 7 + c / 5) % 6 != 0; if (p > 1) gap[c] = (c * 3 + c / 11) % (3 + p) == 0; }
        cp(big[b][0], big[b][1], big[b][2], th, gap, a == 13 ? ~0u : a);
    }
    // every ACTNUM map of small boxes
    const int dims[][3] = { { 1, 1, 6 }, { 2, 1, 4 }, { 1, 2, 4 }, { 2, 2, 3 }, { 3, 1, 4 }, { 1, 3, 4 } };
    for (int d = 0; d < 6; ++d) {
        int nc = dims[d][0] * dims[d][1] * dims[d][2];
        for (unsigned a = 1; a < 1u << nc; a += (!T && nc == 12 ? 1 : 1)) {
            if (!vh::begin(vh::fmt("act/%d/%u", d, a))) continue;
            cp(dims[d][0], dims[d][1], dims[d][2], std::vector<int>(nc, 1), std::vector<int>(nc, 0), a);
        }
    }
    // pinches, gaps and inactive cells in one and two columns
    for (int nz = 1; nz <= (T ? 5 : 4); ++nz) {
        std::vector<int> q(2 * nz, 0);
        do for (unsigned a = 1; a < 1u << nz; ++a) {
            if (!vh::begin(vh::fmt("gap/%d/%s/%u", nz, vh::str(q).c_str(), a))) continue;
            cp(1, 1, nz, std::vector<int>(q.begin(), q.begin() + nz), std::vector<int>(q.begin() + nz, q.end()), a);
        } while (vh::next(q, 2));
    }
    {
        std::vector<int> q(12, 0);
        do {
            if (!vh::begin("gap2/" + vh::str(q))) continue;
            cp(2, 1, 3, std::vector<int>(q.begin(), q.begin() + 6), std::vector<int>(q.begin() + 6, q.end()), 63);
            if (T) for (unsigned a = 1; a < 63; ++a) cp(2, 1, 3, std::vector<int>(q.begin(), q.begin() + 6), std::vector<int>(q.begin() + 6, q.end()), a);
        } while (vh::next(q, 2));
    }
}
