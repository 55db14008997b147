// Every small Cartesian / tensor / layered grid, against an independent description.
#include "gridcheck.hpp"
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/GridManager.hpp>
using namespace gc;

static const double steps[3][5] = { { 1, 1, 1, 1, 1 }, { 0.5, 2, 0.25, 3, 1 }, { 3, 0.125, 1, 0.5, 7 } };
static std::vector<double> line(int n, int pat, double o)
{
    std::vector<double> x(1, o);
    for (int i = 0; i < n; ++i) x.push_back(x.back() + steps[pat][i % 5]);
    return x;
}

// Independent description of a logically Cartesian grid.
static void check_cart(const UnstructuredGrid* g, int dim, const int* n, const std::vector<double>& x,
                       const std::vector<double>& y, const std::vector<double>& z, const double* depth)
{
    const int nx = n[0], ny = n[1], nz = dim == 3 ? n[2] : 1;
    VH_CHECK(g->dimensions == dim, "dims", "dimensions=%d", g->dimensions);
    VH_CHECK(g->cartdims[0] == nx && g->cartdims[1] == ny && g->cartdims[2] == nz, "dims", "cartdims %d %d %d", g->cartdims[0], g->cartdims[1], g->cartdims[2]);
    int nc = nx * ny * nz;
    int nf = dim == 3 ? (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1) : (nx + 1) * ny + nx * (ny + 1);
    int nn = (nx + 1) * (ny + 1) * (dim == 3 ? nz + 1 : 1);
    if (g->number_of_cells != nc || g->number_of_faces != nf || g->number_of_nodes != nn) {
        vh::fail("counts", "cells/faces/nodes %d/%d/%d expected %d/%d/%d", g->number_of_cells, g->number_of_faces, g->number_of_nodes, nc, nf, nn);
        return;
    }
    if (!topology(g)) return;
    geometry(g);
    for (int c = 0; c < nc; ++c) {
        vh::tr();
        int I = c % nx, J = (c / nx) % ny, K = c / (nx * ny);
        if (g->global_cell) VH_CHECK(g->global_cell[c] == c, "global", "global_cell[%d]=%d", c, g->global_cell[c]);
        if (g->cell_facepos[c + 1] - g->cell_facepos[c] != 2 * dim) { vh::fail("faces", "cell %d has %d faces", c, g->cell_facepos[c + 1] - g->cell_facepos[c]); continue; }
        double vol = (x[I + 1] - x[I]) * (y[J + 1] - y[J]) * (dim == 3 ? z[K + 1] - z[K] : 1);
        VH_CHECK(vh::close_to(g->cell_volumes[c], vol, 1e-12), "volume", "cell %d volume %.17g expected %.17g", c, g->cell_volumes[c], vol);
        int seen = 0;
        for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) {
            int f = g->cell_faces[k], tag = g->cell_facetag[k];
            if (tag < 0 || tag >= 2 * dim || (seen >> tag & 1)) { vh::fail("tag", "cell %d has facetag %d (again?)", c, tag); continue; }
            seen |= 1 << tag;
            int d = tag / 2, up = tag % 2;
            int idx[3] = { I, J, K }, dims[3] = { nx, ny, nz };
            idx[d] += up ? 1 : -1;
            int nb = (idx[d] < 0 || idx[d] >= dims[d]) ? -1 : idx[0] + nx * (idx[1] + ny * idx[2]);
            int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
            // oriented in the positive direction
            VH_CHECK(up ? (a == c && b == nb) : (b == c && a == nb), "neighbour", "cell %d tag %d face cells (%d,%d), neighbour %d", c, tag, a, b, nb);
            // nodes: exactly the corners of that side
            int lo[3] = { I, J, K }, hi[3] = { I + 1, J + 1, K + 1 };
            lo[d] = hi[d] = (d == 0 ? I : d == 1 ? J : K) + up;
            if (dim == 2) lo[2] = hi[2] = 0;
            std::set<int> want, got(g->face_nodes + g->face_nodepos[f], g->face_nodes + g->face_nodepos[f + 1]);
            std::set<std::vector<double> > wantp, gotp;
            for (int kk = lo[2]; kk <= hi[2]; ++kk) for (int jj = lo[1]; jj <= hi[1]; ++jj) for (int ii = lo[0]; ii <= hi[0]; ++ii) {
                std::vector<double> p; p.push_back(x[ii]); p.push_back(y[jj]);
                if (dim == 3) p.push_back(z[kk] + (depth ? depth[ii + (nx + 1) * jj] : 0));
                wantp.insert(p);
            }
            for (std::set<int>::iterator it = got.begin(); it != got.end(); ++it)
                gotp.insert(std::vector<double>(g->node_coordinates + dim * *it, g->node_coordinates + dim * *it + dim));
            VH_CHECK(wantp == gotp, "nodes", "cell %d tag %d: face corners differ", c, tag);
        }
    }
}

static void done(UnstructuredGrid* g, const char* what)
{
    if (g) {
        std::string s = vh::fmt("%s %d cells %d faces %d nodes vol0=%g", what, g->number_of_cells, g->number_of_faces, g->number_of_nodes, g->cell_volumes[0]);
        vh::outcome(s);
        vh::sample(s);
    }
    destroy_grid(g);
}

void explore()
{
    const int M = vh::thorough() ? 5 : 4;
    std::vector<double> none(1, 0.0);
    for (int nx = 1; nx <= M; ++nx) for (int ny = 1; ny <= M; ++ny) {
        int n2[2] = { nx, ny };
        for (int px = 0; px < 3; ++px) for (int py = 0; py < 3; ++py) for (int o = 0; o < 2; ++o) {
            if (!vh::begin(vh::fmt("tensor2d/%dx%d/p%d%d/o%d", nx, ny, px, py, o))) continue;
            std::vector<double> x = line(nx, px, o ? -2.5 : 0), y = line(ny, py, o ? 10 : 0);
            UnstructuredGrid* g = create_grid_tensor2d(nx, ny, &x[0], &y[0]);
            check_cart(g, 2, n2, x, y, none, 0);
            done(g, "tensor2d");
        }
        if (vh::begin(vh::fmt("cart2d/%dx%d", nx, ny))) {
            for (int k = 0; k < 3; ++k) {
                double dx = k == 0 ? 1 : 0.5, dy = k == 2 ? 3 : 1;
                UnstructuredGrid* g = create_grid_cart2d(nx, ny, dx, dy);
                std::vector<double> x, y;
                for (int i = 0; i <= nx; ++i) x.push_back(i * dx);
                for (int i = 0; i <= ny; ++i) y.push_back(i * dy);
                check_cart(g, 2, n2, x, y, none, 0);
                done(g, "cart2d");
                Opm::GridManager gm(nx, ny, dx, dy);
                check_cart(gm.c_grid(), 2, n2, x, y, none, 0);
                if (k == 0) {
                    Opm::GridManager gm2(nx, ny);
                    check_cart(gm2.c_grid(), 2, n2, x, y, none, 0);
                }
            }
        }
        for (int nz = 1; nz <= M; ++nz) {
            int n3[3] = { nx, ny, nz };
            for (int p = 0; p < 27; ++p) for (int o = 0; o < 2; ++o) {
                if (!vh::begin(vh::fmt("tensor3d/%dx%dx%d/p%d/o%d", nx, ny, nz, p, o))) continue;
                std::vector<double> x = line(nx, p % 3, o ? -2.5 : 0), y = line(ny, p / 3 % 3, o ? 10 : 0), z = line(nz, p / 9, o ? 1000 : 0);
                UnstructuredGrid* g = create_grid_tensor3d(nx, ny, nz, &x[0], &y[0], &z[0], 0);
                check_cart(g, 3, n3, x, y, z, 0);
                done(g, "tensor3d");
            }
            if (vh::begin(vh::fmt("cart3d/%dx%dx%d", nx, ny, nz))) {
                std::vector<double> x, y, z;
                UnstructuredGrid* g;
                for (int k = 0; k < 2; ++k) {
                    double dx = k ? 2 : 1, dy = k ? 0.5 : 1, dz = k ? 3 : 1;
                    x.clear(); y.clear(); z.clear();
                    for (int i = 0; i <= nx; ++i) x.push_back(i * dx);
                    for (int i = 0; i <= ny; ++i) y.push_back(i * dy);
                    for (int i = 0; i <= nz; ++i) z.push_back(i * dz);
                    g = k ? create_grid_hexa3d(nx, ny, nz, dx, dy, dz) : create_grid_cart3d(nx, ny, nz);
                    check_cart(g, 3, n3, x, y, z, 0);
                    done(g, "hexa3d");
                    if (k) { Opm::GridManager gm(nx, ny, nz, dx, dy, dz); check_cart(gm.c_grid(), 3, n3, x, y, z, 0); }
                    else { Opm::GridManager gm(nx, ny, nz); check_cart(gm.c_grid(), 3, n3, x, y, z, 0); }
                }
            }
        }
    }
    // larger ones
    static const int S[][3] = { { 40, 1, 1 }, { 1, 37, 1 }, { 1, 1, 50 }, { 13, 11, 7 }, { 3, 17, 12 }, { 20, 2, 9 } };
    for (int s = 0; s < 6; ++s) for (int p = 0; p < 27; ++p) if (vh::begin(vh::fmt("tensor/large%d/%d", s, p))) {
        const int nx = S[s][0], ny = S[s][1], nz = S[s][2];
        std::vector<double> x = line(nx, p % 3, p % 2 ? -2.5 : 0), y = line(ny, p / 3 % 3, p % 2 ? 10 : 0), z = line(nz, p / 9, p % 2 ? 1000 : 0);
        UnstructuredGrid* g = create_grid_tensor3d(nx, ny, nz, &x[0], &y[0], &z[0], 0); check_cart(g, 3, S[s], x, y, z, 0); done(g, "tensor3d");
        std::vector<double> dz((nx + 1) * (ny + 1)); for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) dz[i + (nx + 1) * j] = 0.5 * x[i] - 0.25 * y[j];
        g = create_grid_tensor3d(nx, ny, nz, &x[0], &y[0], &z[0], &dz[0]); check_cart(g, 3, S[s], x, y, z, &dz[0]); done(g, "layered");
        g = create_grid_tensor2d(nx, ny * nz, &x[0], &(y = line(ny * nz, p / 3 % 3, 3))[0]); const int n2[2] = { nx, ny * nz }; check_cart(g, 2, n2, x, y, none, 0); done(g, "tensor2d");
    }
    // layered grids: every depth surface over {0,1,2}^nodes that keeps top faces planar is checked
    // fully; all surfaces are checked for topology, pillars and volumes.
    const int L = vh::thorough() ? 3 : 2;
    for (int nx = 1; nx <= 2; ++nx) for (int ny = 1; ny <= 2; ++ny) for (int nz = 1; nz <= 2; ++nz) {
        int n3[3] = { nx, ny, nz }, nn = (nx + 1) * (ny + 1);
        std::vector<int> d(nn, 0);
        std::vector<double> x = line(nx, 1, 0), y = line(ny, 2, 5), z = line(nz, 1, -1);
        do {
            if (!vh::begin(vh::fmt("layered/%dx%dx%d/%s", nx, ny, nz, vh::str(d).c_str()))) continue;
            std::vector<double> dz(nn);
            for (int i = 0; i < nn; ++i) dz[i] = 0.75 * d[i];
            UnstructuredGrid* g = create_grid_tensor3d(nx, ny, nz, &x[0], &y[0], &z[0], &dz[0]);
            bool planar = true;
            for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
                const double* q = &dz[i + (nx + 1) * j];
                if (q[0] + q[nx + 2] != q[1] + q[nx + 1]) planar = false;
            }
            if (planar) check_cart(g, 3, n3, x, y, z, &dz[0]);
            else if (topology(g)) {
                geometry(g, 1e-10, true, false);
                for (int c = 0; c < g->number_of_cells; ++c) {
                    int I = c % nx, J = (c / nx) % ny, K = c / (nx * ny);
                    double vol = (x[I + 1] - x[I]) * (y[J + 1] - y[J]) * (z[K + 1] - z[K]);
                    VH_CHECK(vh::close_to(g->cell_volumes[c], vol, 1e-10), "volume", "layered cell %d volume %.17g expected %.17g", c, g->cell_volumes[c], vol);
                }
                for (int k = 0; k < g->number_of_nodes; ++k) {
                    int I = k % (nx + 1), J = k / (nx + 1) % (ny + 1), K = k / nn;
                    const double* p = g->node_coordinates + 3 * k;
                    VH_CHECK(p[0] == x[I] && p[1] == y[J] && p[2] == z[K] + dz[I + (nx + 1) * J], "node", "layered node %d at (%g,%g,%g)", k, p[0], p[1], p[2]);
                }
                vh::tr(g->number_of_cells);
            }
            done(g, "layered");
        } while (vh::next(d, L));
    }
}
