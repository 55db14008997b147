// Shared by the transport harnesses: relative permeability families, flux patterns on small grids.
#ifndef TRANSPORT_HPP
#define TRANSPORT_HPP
#include "flow.hpp"
#include <bitset>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/utility/miscUtilities.hpp>
namespace tr {
    typedef std::vector<double> V;
    typedef long double LD;
    enum { NKR = 4 };
    // 0 linear, 1 quadratic, 2 residual saturations differing between cells, 3 as 1 but different in odd cells
    inline double smin(int k, int c) { return k == 2 ? (c % 2 ? 0.1 : 0.2) : 0.0; }
    inline double smax(int k, int c) { return k == 2 ? (c % 2 ? 0.95 : 0.9) : 1.0; }
    inline double level(int k, int c, int i) { return i == 0 ? smin(k, c) : i == 1 ? 0.35 : smax(k, c); }
    template <class T> T krw(int k, T s, int c) { T x = (s - smin(k, c)) / (smax(k, c) - smin(k, c)); x = x < 0 ? T(0) : x > 1 ? T(1) : x; return k == 0 ? x : (k == 3 && c % 2) ? x * (T(0.5) + T(0.5) * x) : x * x; }
    template <class T> T kro(int k, T s, int c) { T x = (s - smin(k, c)) / (smax(k, c) - smin(k, c)); x = x < 0 ? T(0) : x > 1 ? T(1) : x; x = 1 - x; return k == 0 ? x : x * x; }
    // saturations that do not sum to one have no relative permeabilities
    inline void relperm(int kind, int n, const double* s, const int* cells, double* kr) { for (int i = 0; i < n; ++i) { const double bad = std::fabs(s[2 * i] + s[2 * i + 1] - 1) < 1e-9 ? 0 : std::nan(""); kr[2 * i] = krw(kind, s[2 * i], cells[i]) + bad; kr[2 * i + 1] = kro(kind, s[2 * i], cells[i]) + bad; } }
    // derivative with each phase's curve a function of its own saturation
    inline void slopes(int kind, int n, const double* s, const int* cells, double* d) {
        for (int i = 0; i < n; ++i) {
            const double lo = smin(kind, cells[i]), L = smax(kind, cells[i]) - lo, x = (s[2 * i] - lo) / L, in = x < 0 || x > 1 ? 0 : 1;
            d[4 * i + 1] = d[4 * i + 2] = 0;
            d[4 * i] = in * (kind == 0 ? 1 : kind == 3 && cells[i] % 2 ? 0.5 + x : 2 * x) / L;
            d[4 * i + 3] = in * (kind == 0 ? 1 : 2 * (1 - x)) / L;
        }
    }
    inline void range(int k, int n, const int* c, double* a, double* b) { for (int i = 0; i < n; ++i) { a[2 * i] = smin(k, c[i]); b[2 * i] = smax(k, c[i]); a[2 * i + 1] = 1 - b[2 * i]; b[2 * i + 1] = 1 - a[2 * i]; } }
    struct Fluid : public fl::Incomp {
        int kind;
        Fluid(const UnstructuredGrid* g, int k) : fl::Incomp(g, 2), kind(k) {}
        void relperm(const int n, const double* s, const int* cells, double* kr, double* d) const { tr::relperm(kind, n, s, cells, kr); if (d) slopes(kind, n, s, cells, d); }
        void satRange(const int n, const int* c, double* a, double* b) const { range(kind, n, c, a, b); }
    };
    struct Oil : public fl::Black {
        int kind;
        Oil(const UnstructuredGrid* g, int k, int compr) : fl::Black(g, 2, compr), kind(k) {}
        void relperm(const int n, const double* s, const int* cells, double* kr, double* d) const { tr::relperm(kind, n, s, cells, kr); if (d) slopes(kind, n, s, cells, d); }
        void satRange(const int n, const int* c, double* a, double* b) const { range(kind, n, c, a, b); }
    };
    inline int interior(const UnstructuredGrid* g) { int k = 0; for (int f = 0; f < g->number_of_faces; ++f) k += g->face_cells[2 * f] >= 0 && g->face_cells[2 * f + 1] >= 0; return k; }
    // signs in {0,1,2} -> {-,0,+} with different magnitudes
    inline V fluxes(const UnstructuredGrid* g, const std::vector<int>& sign) {
        V q(g->number_of_faces, 0.0); int k = 0;
        for (int f = 0; f < g->number_of_faces; ++f) if (g->face_cells[2 * f] >= 0 && g->face_cells[2 * f + 1] >= 0) { q[f] = (sign[k] - 1) * (0.4 + 0.15 * (k * 3 % 5)); ++k; }
        return q;
    }
    // net outflow of a cell over interior faces
    inline LD netout(const UnstructuredGrid* g, const V& q, int c) {
        LD s = 0;
        for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
            int f = g->cell_faces[j];
            if (g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0) continue;
            s += g->face_cells[2 * f] == c ? q[f] : -q[f];
        }
        return s;
    }
    // which cells circulate together (size of the strong component of each cell)
    inline std::vector<int> loops(const UnstructuredGrid* g, const V& q) {
        const int n = g->number_of_cells; std::vector<std::bitset<128> > r(n);
        for (int i = 0; i < n; ++i) r[i].set(i);
        for (int f = 0; f < g->number_of_faces; ++f) { int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; if (q[f] > 0) r[a].set(b); if (q[f] < 0) r[b].set(a); }
        for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (r[i][k]) r[i] |= r[k];
        std::vector<int> sz(n, 0);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sz[i] += r[i][j] && r[j][i];
        return sz;
    }
    // water flux across a face for total flux d and drive g (both from the first cell to the second); false if undefined
    inline bool waterflux(LD d, LD g, const LD* wa, const LD* ob, LD& q)
    {   // wa: water mobilities of both cells, ob: oil mobilities
        for (int k = 0; k < 4; ++k) {
            LD w = wa[k & 1], o = ob[k >> 1]; if (!(w + o > 0)) continue;
            LD fw = w / (w + o) * (d + o * g), fo = o / (w + o) * (d - w * g);
            LD tw = d + o * g, to = d - w * g;   // direction of each phase
            if ((k & 1 ? tw <= 0 : tw >= 0) && (k >> 1 ? to <= 0 : to >= 0)) { q = fw; (void)fo; return true; }
        }
        return false;
    }
}
#endif
