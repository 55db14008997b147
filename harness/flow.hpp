// Small grids, an analytic two-phase fluid/rock, and a dense reference for two-point flux methods.
#ifndef FLOW_HPP
#define FLOW_HPP
#include "vh.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
#ifndef FLOW_NO_WELLS
#include <opm/core/wells.h>
#endif
#include <iostream>
#include <algorithm>
#include <cmath>

namespace fl {
    typedef long double LD;
    struct Quiet {
        std::streambuf *o, *e; std::ostringstream s;
        Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {}
        ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
    };
    enum { NGRID = 8, LARGE = 20, NLARGE = 23 };       // LARGE to NLARGE - 1: larger grids
    enum { NPATTERN = 12 };
    // the p'th of some patterns of n digits below 3
    inline std::vector<int> pattern(int p, int n) {
        std::vector<int> s(n);
        for (int i = 0; i < n; ++i) s[i] = p == 0 ? 2 : p == 1 ? 0 : p == 2 ? (i & 1) * 2 : p == 3 ? (i % 5 == 4 ? 0 : 2) : p == 4 ? (i * i + i / 3) % 3 : p == 5 ? (i / 7) % 2 * 2 : p == 6 ? (i * 7 % 11) % 3 : p == 7 ? (i < n / 2 ? 2 : 0) : p == 8 ? (i < n / 2 ? 0 : 2) : p == 9 ? (i * 13 % 17 < 9 ? 2 : 0) : p == 10 ? (i == n / 2 ? 1 : 2) : (i * i * 5 + i * 3) % 7 % 3;
        return s;
    }
    inline const char* gridname(int k) {
        static const char* n[] = { "cart2d3x2", "tens3d2x1x2", "hexa3d2x2x1", "cpfault2x1x3", "cpskew1x2x2", "line5", "column4", "cart2d2x2" };
        static const char* l[] = { "large2d9x7", "large3d4x3x3", "line120" };
        return k >= LARGE ? l[k - LARGE] : n[k];
    }
    inline struct UnstructuredGrid* grid(int k) {
        switch (k) {
        case 0: return create_grid_cart2d(3, 2, 1.0, 2.0);
        case 1: { double x[] = { 0, 1, 3 }, y[] = { 0, 2 }, z[] = { 0, 1, 1.5 }; return create_grid_tensor3d(2, 1, 2, x, y, z, 0); }
        case 2: return create_grid_hexa3d(2, 2, 1, 1.0, 0.5, 2.0);
        case 3: case 4: {
            // two columns with a fault and an inactive cell / tilted pillars and dipping layers
            const int nx = k == 3 ? 2 : 1, ny = k == 3 ? 1 : 2, nz = k == 3 ? 3 : 2;
            std::vector<double> coord, z(8 * nx * ny * nz);
            std::vector<int> act(nx * ny * nz, 1);
            for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
                double t = k == 4 ? 2.0 : 0.0, a[6] = { 2. * i, 1.5 * j, 0, 2. * i + t, 1.5 * j + t / 2, 10 };
                coord.insert(coord.end(), a, a + 6);
            }
            for (int kk = 0; kk < nz; ++kk) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i)
                for (int q = 0; q < 8; ++q) {
                    double zz = 1.0 * (kk + (q >> 2)) + 1.0;
                    if (k == 3) zz += 0.6 * i;
                    else zz += 0.3 * (i + (q & 1)) - 0.2 * (j + (q >> 1 & 1));
                    z[2 * i + (q & 1) + 2 * nx * (2 * j + (q >> 1 & 1) + 2 * ny * (2 * kk + (q >> 2)))] = zz;
                }
            if (k == 3) act[5] = 0;
            struct grdecl g; g.dims[0] = nx; g.dims[1] = ny; g.dims[2] = nz;
            g.coord = &coord[0]; g.zcorn = &z[0]; g.actnum = &act[0]; g.mapaxes = 0;
            return create_grid_cornerpoint(&g, 0.0);
        }
        case 5: return create_grid_cart2d(5, 1, 1.0, 1.0);
        case 6: { double x[] = { 0, 1 }, y[] = { 0, 1 }, z[] = { 0, 1, 3, 3.5, 5 }; return create_grid_tensor3d(1, 1, 4, x, y, z, 0); }
        case 7: return create_grid_cart2d(2, 2, 1.0, 2.0);
        // larger ones: every internal table, stack and work array is used beyond its first few entries
        case 20: return create_grid_cart2d(9, 7, 1.0, 2.0);
        case 21: { double x[] = { 0, 1, 3, 3.5, 5 }, y[] = { 0, 2, 3, 3.25 }, z[] = { 0, 1, 1.5, 2.5 }; return create_grid_tensor3d(4, 3, 3, x, y, z, 0); }
        case 22: return create_grid_hexa3d(120, 1, 1, 1.0, 0.5, 2.0);
        }
        return 0;
    }
    // A stack of prisms over a convex polygon with n corners (their outer sides facing either way), closed by a pyramid if tip is set.
    inline struct UnstructuredGrid* prisms(int n, int layers, bool tip, unsigned flip) {
        const int nc = layers + tip, nf = layers * (n + 1) + 1 + (tip ? n : 0), nn = n * (layers + 1) + tip;
        std::vector<std::vector<int> > fn; std::vector<int> fc; std::vector<std::vector<int> > cf(nc);
        for (int l = 0; l <= layers; ++l) {                    // faces between the layers, seen from above
            std::vector<int> f; for (int i = 0; i < n; ++i) f.push_back(n * l + i);
            fc.push_back(l - 1); fc.push_back(l < nc ? l : -1);
            if (l) cf[l - 1].push_back(fn.size());
            if (l < nc) cf[l].push_back(fn.size());
            fn.push_back(f);
        }
        for (int c = 0; c < nc; ++c) for (int i = 0; i < n; ++i) {
            const int j = (i + 1) % n; std::vector<int> f; f.push_back(n * c + i); f.push_back(n * c + j);
            if (c < layers) { f.push_back(n * (c + 1) + j); f.push_back(n * (c + 1) + i); } else f.push_back(nn - 1);
            const bool in = flip >> (fn.size() % 16) & 1; if (in) std::reverse(f.begin(), f.end());
            fc.push_back(in ? -1 : c); fc.push_back(in ? c : -1); cf[c].push_back(fn.size()); fn.push_back(f);
        }
        int nfn = 0, ncf = 0;
        for (size_t i = 0; i < fn.size(); ++i) nfn += fn[i].size();
        for (int c = 0; c < nc; ++c) ncf += cf[c].size();
        struct UnstructuredGrid* g = allocate_grid(3, nc, nf, nfn, ncf, nn);
        g->dimensions = 3; g->number_of_cells = nc; g->number_of_faces = nf; g->number_of_nodes = nn;
        for (int l = 0; l <= layers; ++l) for (int i = 0; i < n; ++i) {
            const double a = 6.283185307179586 * (i + 0.2 * (i % 2)) / n, x[3] = { 3 + 2 * std::cos(a), std::sin(a) - 1, 1.5 * l };
            std::copy(x, x + 3, g->node_coordinates + 3 * (n * l + i));
        }
        if (tip) { const double x[3] = { 3.25, -1, 1.5 * layers + 2 }; std::copy(x, x + 3, g->node_coordinates + 3 * (nn - 1)); }
        g->face_nodepos[0] = g->cell_facepos[0] = 0;
        for (int f = 0; f < nf; ++f) { std::copy(fn[f].begin(), fn[f].end(), g->face_nodes + g->face_nodepos[f]); g->face_nodepos[f + 1] = g->face_nodepos[f] + fn[f].size(); }
        for (int c = 0; c < nc; ++c) { std::copy(cf[c].begin(), cf[c].end(), g->cell_faces + g->cell_facepos[c]); g->cell_facepos[c + 1] = g->cell_facepos[c] + cf[c].size(); }
        std::copy(fc.begin(), fc.end(), g->face_cells);
        compute_geometry(g);
        return g;
    }
    // Solve A x = b densely with full pivoting; false if singular.
    inline bool dense(std::vector<LD> A, std::vector<LD> b, std::vector<LD>& x) {
        const int n = b.size();
        std::vector<int> q(n);
        for (int i = 0; i < n; ++i) q[i] = i;
        LD big = 0;
        for (size_t i = 0; i < A.size(); ++i) big = std::max(big, std::fabs(A[i]));
        for (int k = 0; k < n; ++k) {
            int pi = k, pj = k; LD m = 0;
            for (int i = k; i < n; ++i) for (int j = k; j < n; ++j)
                if (std::fabs(A[i * n + j]) > m) { m = std::fabs(A[i * n + j]); pi = i; pj = j; }
            if (!(m > big * 1e-17L)) return false;
            if (pi != k) { for (int j = 0; j < n; ++j) std::swap(A[k * n + j], A[pi * n + j]); std::swap(b[k], b[pi]); }
            if (pj != k) { for (int i = 0; i < n; ++i) std::swap(A[i * n + k], A[i * n + pj]); std::swap(q[k], q[pj]); }
            for (int i = k + 1; i < n; ++i) {
                LD f = A[i * n + k] / A[k * n + k];
                if (f == 0) continue;
                for (int j = k; j < n; ++j) A[i * n + j] -= f * A[k * n + j];
                b[i] -= f * b[k];
            }
        }
        std::vector<LD> y(n);
        for (int i = n - 1; i >= 0; --i) {
            LD s = b[i];
            for (int j = i + 1; j < n; ++j) s -= A[i * n + j] * y[j];
            y[i] = s / A[i * n + i];
        }
        x.assign(n, 0);
        for (int i = 0; i < n; ++i) x[q[i]] = y[i];
        return true;
    }

    // One-sided transmissibility of face f seen from cell c:  |n.K.d| / |d|^2  (n area-weighted)
    inline LD halftrans(const UnstructuredGrid* g, const double* perm, int c, int f) {
        const int d = g->dimensions;
        LD num = 0, den = 0;
        for (int i = 0; i < d; ++i) {
            LD kn = 0, di = (LD)g->face_centroids[f * d + i] - g->cell_centroids[c * d + i];
            for (int j = 0; j < d; ++j) kn += (LD)perm[c * d * d + i + d * j] * g->face_normals[f * d + j];
            num += di * kn; den += di * di;
        }
        return std::fabs(num) / den;
    }

    // kr = s^2, viscosity and density fixed by phase; permeability per cell
    struct Incomp : public Opm::IncompPropertiesInterface {
        int dim, nc, np;
        std::vector<double> poro, perm, mu, rho;
        double smin, smax;
        Incomp(const UnstructuredGrid* g, int np_ = 2) : dim(g->dimensions), nc(g->number_of_cells), np(np_), poro(nc, 0.25), perm(nc * dim * dim, 0.0), smin(0), smax(1) {
            mu.push_back(1); rho.push_back(3); mu.push_back(5); rho.push_back(2);
            for (int c = 0; c < nc; ++c) for (int i = 0; i < dim; ++i) perm[c * dim * dim + i * (dim + 1)] = 1;
        }
        int numDimensions() const { return dim; }
        int numCells() const { return nc; }
        const double* porosity() const { return &poro[0]; }
        const double* permeability() const { return &perm[0]; }
        int numPhases() const { return np; }
        const double* viscosity() const { return &mu[0]; }
        const double* density() const { return &rho[0]; }
        const double* surfaceDensity() const { return &rho[0]; }
        void relperm(const int n, const double* s, const int*, double* kr, double* d) const {
            for (int i = 0; i < n * np; ++i) kr[i] = s[i] * s[i];
            if (d) for (int i = 0; i < n; ++i) for (int a = 0; a < np; ++a) for (int b = 0; b < np; ++b) d[i * np * np + a + np * b] = a == b ? 2 * s[i * np + a] : 0;
        }
        void capPress(const int n, const double*, const int*, double* pc, double* d) const {
            std::fill(pc, pc + n * np, 0.0); if (d) std::fill(d, d + n * np * np, 0.0);
        }
        void satRange(const int n, const int*, double* a, double* b) const {
            for (int i = 0; i < n * np; ++i) { a[i] = smin; b[i] = smax; }
        }
    };
    // Analytic black-oil fluid: 1/B = b0 (1 + c (p - 1)), optional dissolved gas Rs = r0 + r1 p (three phases)
    struct Black : public Opm::BlackoilPropertiesInterface {
        int dim, nc, np;
        std::vector<double> poro, perm;
        double b0[3], c[3], r0, r1, mu0[3], muc[3], rs[3];
        Black(const UnstructuredGrid* g, int np_, int kind) : dim(g->dimensions), nc(g->number_of_cells), np(np_), poro(nc, 0.25), perm(nc * dim * dim, 0.0), r0(0), r1(0) {
            const double bb[3] = { 1.0, 0.9, 2.0 }, cc[3] = { 0.002, 0.01, 0.05 }, m[3] = { 1, 5, 0.2 }, r[3] = { 3, 2, 0.5 };
            for (int i = 0; i < 3; ++i) { b0[i] = bb[i]; c[i] = kind ? cc[i] : 0; mu0[i] = m[i]; muc[i] = kind ? 0.01 * i : 0; rs[i] = r[i]; }
            if (kind == 2) { r0 = 0.3; r1 = 0.02; }
            if (kind == 3) { c[0] = 0; muc[0] = muc[1] = 0.04; } // the first phase is incompressible
            for (int q = 0; q < nc; ++q) for (int i = 0; i < dim; ++i) perm[q * dim * dim + i * (dim + 1)] = 1 + 0.5 * (q % 3);
        }
        int numDimensions() const { return dim; }
        int numCells() const { return nc; }
        const double* porosity() const { return &poro[0]; }
        const double* permeability() const { return &perm[0]; }
        int numPhases() const { return np; }
        void viscosity(const int n, const double* p, const double*, const int*, double* mu, double* d) const {
            for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) { mu[i * np + q] = mu0[q] * (1 + muc[q] * (p[i] - 1)); if (d) d[i * np + q] = mu0[q] * muc[q]; }
        }
        void matrix(const int n, const double* p, const double*, const int*, double* A, double* dA) const {
            for (int i = 0; i < n; ++i) {
                double* a = A + i * np * np, *d = dA ? dA + i * np * np : 0;
                std::fill(a, a + np * np, 0.0); if (d) std::fill(d, d + np * np, 0.0);
                for (int q = 0; q < np; ++q) { a[q + np * q] = b0[q] * (1 + c[q] * (p[i] - 1)); if (d) d[q + np * q] = b0[q] * c[q]; }
                if (np == 3) { a[2 + 3] = (r0 + r1 * p[i]) * a[1 + 3]; if (d) d[2 + 3] = r1 * a[1 + 3] + (r0 + r1 * p[i]) * d[1 + 3]; }
            }
        }
        void density(const int n, const double* A, double* rho) const {
            for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) {
                rho[i * np + q] = 0;
                for (int k = 0; k < np; ++k) rho[i * np + q] += rs[k] * A[i * np * np + k + np * q];
            }
        }
        const double* surfaceDensity() const { return rs; }
        void relperm(const int n, const double* s, const int*, double* kr, double* d) const {
            for (int i = 0; i < n * np; ++i) kr[i] = s[i] * s[i];
            if (d) for (int i = 0; i < n; ++i) for (int a = 0; a < np; ++a) for (int b = 0; b < np; ++b) d[i * np * np + a + np * b] = a == b ? 2 * s[i * np + a] : 0;
        }
        void capPress(const int n, const double*, const int*, double* pc, double* d) const {
            std::fill(pc, pc + n * np, 0.0); if (d) std::fill(d, d + n * np * np, 0.0);
        }
        void satRange(const int n, const int*, double* a, double* b) const {
            for (int i = 0; i < n * np; ++i) { a[i] = 0; b[i] = 1; }
        }
    };
    // permeability patterns
    inline void setperm(Incomp& p, int pat) {
        const int d = p.dim;
        for (int c = 0; c < p.nc; ++c) {
            double* K = &p.perm[c * d * d];
            std::fill(K, K + d * d, 0.0);
            double s = 1;
            if (pat & 1) s = (c * 7 + 3) % 5 == 0 ? 1e-3 : 1.0 + 0.5 * (c % 3);
            for (int i = 0; i < d; ++i) K[i * (d + 1)] = s * (pat & 2 ? 1.0 + i : 1.0);
            if (pat & 4) { K[1] = K[d] = 0.3 * s; if (d == 3) { K[5] = K[7] = -0.2 * s; } }
        }
    }
}
#endif
