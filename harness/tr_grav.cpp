// Gravity segregation in vertical columns: three solvers on every small column grid, initial distribution, gravity direction
// and density order; the returned saturations must balance the exchanged volumes in every cell.
#include "transport.hpp"
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
#include <opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp>
#include <opm/core/transport/implicit/SimpleFluid2pWrappingProps.hpp>
#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <opm/core/grid/ColumnExtract.hpp>
using namespace tr;
using namespace Opm;
static const double TOL = 1e-10;

// Cells strictly above one another that share a face, found from the logical positions.
struct Pair { int a, b, f; };
static std::vector<Pair> pairs(const UnstructuredGrid* g)
{
    std::vector<Pair> r;
    for (int f = 0; f < g->number_of_faces; ++f) {
        int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
        if (a < 0 || b < 0) continue;
        int ga = g->global_cell ? g->global_cell[a] : a, gb = g->global_cell ? g->global_cell[b] : b, col = g->cartdims[0] * g->cartdims[1];
        if (ga % col != gb % col) continue;
        Pair p = { a, b, f }; r.push_back(p);
    }
    return r;
}
static LD transmissibility(const UnstructuredGrid* g, const double* perm, int f)
{
    LD a = fl::halftrans(g, perm, g->face_cells[2 * f], f), b = fl::halftrans(g, perm, g->face_cells[2 * f + 1], f);
    return 1 / (1 / a + 1 / b);
}
// d: water flow a->b for unit mobility product: T (rho_w - rho_o) g.(x_b - x_a)
static LD drive(const UnstructuredGrid* g, const double* perm, const Pair& p, const double* grav, LD drho_a, LD drho_b)
{
    LD s = 0;
    for (int i = 0; i < 3; ++i) s += grav[i] * (drho_a * ((LD)g->face_centroids[3 * p.f + i] - g->cell_centroids[3 * p.a + i]) + drho_b * ((LD)g->cell_centroids[3 * p.b + i] - g->face_centroids[3 * p.f + i]));
    return transmissibility(g, perm, p.f) * s;
}
template <class Mob> static void verify(const UnstructuredGrid* g, const V& s0, const V& s1, const V& pv, double dt, const std::vector<LD>& d, const Mob& mob, double slack, int kr, const std::string& what)
{
    const int nc = g->number_of_cells;
    std::vector<Pair> pr = pairs(g);
    std::vector<LD> res(nc), scale(nc, 0);
    for (int c = 0; c < nc; ++c) {
        if (!(s1[2 * c] >= smin(kr, c) - 1e-9 && s1[2 * c] <= smax(kr, c) + 1e-9) || !(std::fabs(s1[2 * c] + s1[2 * c + 1] - 1) < 1e-14)) { vh::fail("bounds", "%s: cell %d: %.12g + %.12g", what.c_str(), c, s1[2 * c], s1[2 * c + 1]); return; }
        res[c] = s1[2 * c] - s0[c];
    }
    for (size_t k = 0; k < pr.size(); ++k) {
        const int up = d[k] > 0 ? pr[k].a : pr[k].b, dn = d[k] > 0 ? pr[k].b : pr[k].a;
        LD w = mob(s1[2 * up], up, 0), o = mob(s1[2 * dn], dn, 1), F = w + o > 0 ? std::fabs(d[k]) * w * o / (w + o) : 0;
        res[up] += dt / pv[up] * F; res[dn] -= dt / pv[dn] * F;
        scale[up] += dt / pv[up] * std::fabs(d[k]); scale[dn] += dt / pv[dn] * std::fabs(d[k]);
    }
    LD tot = 0, allow = 0;
    for (int c = 0; c < nc; ++c) {
        LD tol = 8 * TOL + slack * (1 + 4 * scale[c]);
        if (!(std::fabs(res[c]) < tol)) { vh::fail("balance", "%s: cell %d is off by %.3Lg of its pore volume (%.9g was %.9g)", what.c_str(), c, res[c], s1[2 * c], s0[c]); return; }
        tot += pv[c] * (s1[2 * c] - s0[c]); allow += pv[c] * tol;
    }
    VH_CHECK(std::fabs(tot) <= allow, "conservation", "%s: water changed by %.3Lg", what.c_str(), tot);
    vh::outcome(vh::hash(&s1[0], 8 * s1.size()));
}
struct IncompMob { const Fluid& f; template <class T> LD operator()(T s, int c, int p) const { return (p ? kro<LD>(f.kind, s, c) : krw<LD>(f.kind, s, c)) / f.mu[p]; } };
struct OilMob { const Oil& f; const V& press; template <class T> LD operator()(T s, int c, int p) const { return (p ? kro<LD>(f.kind, s, c) : krw<LD>(f.kind, s, c)) / ((LD)f.mu0[p] * (1 + f.muc[p] * (press[c] - 1))); } };

static int starts(int nc) { if (nc > 12) return fl::NPATTERN; int n = 1; for (int c = 0; c < nc; ++c) n *= 3; return n; }
static V start(int pat, int nc, int kr) { V s; if (nc > 12) { std::vector<int> d = fl::pattern(pat, nc); for (int c = 0; c < nc; ++c) s.push_back(d[c] == 1 ? 0.4 : level(kr, c, d[c])); return s; } for (int c = 0; c < nc; ++c, pat /= 3) s.push_back(pat % 3 == 1 ? 0.4 : level(kr, c, pat % 3)); return s; }
static UnstructuredGrid* colgrid(int k)
{
    // 0-4: grids of flow.hpp with columns; 5: column of five in two columns with faces listed from below; 6: gap in the middle
    static const int map[5] = { 1, 2, 3, 4, 6 };
    if (k < 5) return fl::grid(map[k]);
    if (k == 7) { double x[] = { 0, 1, 2 }, y[] = { 0, 1 }, z[26]; for (int i = 0; i < 26; ++i) z[i] = i + 0.25 * (i % 3); return create_grid_tensor3d(2, 1, 25, x, y, z, 0); }
    if (k == 5) {                      // all interior faces reversed
        UnstructuredGrid* g = fl::grid(6);
        for (int f = 0; f < g->number_of_faces; ++f) { if (g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0) continue; std::swap(g->face_cells[2 * f], g->face_cells[2 * f + 1]); for (int i = 0; i < 3; ++i) g->face_normals[3 * f + i] *= -1; }
        return g;
    }
    std::vector<double> coord, z; std::vector<int> act(5, 1); act[2] = 0;
    for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { double a[6] = { 1. * i, 1. * j, 0, 1. * i, 1. * j, 10 }; coord.insert(coord.end(), a, a + 6); }
    for (int k2 = 0; k2 < 5; ++k2) for (int q = 0; q < 8; ++q) z.push_back(k2 + (q >> 2) * 1.0 + 0.125 * k2 * k2 + (q >> 2) * 0.125 * (2 * k2 + 1));
    struct grdecl gr; gr.dims[0] = gr.dims[1] = 1; gr.dims[2] = 5; gr.coord = &coord[0]; gr.zcorn = &z[0]; gr.actnum = &act[0]; gr.mapaxes = 0;
    return create_grid_cornerpoint(&gr, 0.0);
}
static const char* colname(int k) { static const char* n[] = { "tens2x1x2", "hexa2x2x1", "cpfault", "cpskew", "column4", "column4rev", "cpgap", "long2x1x25" }; return n[k]; }

// limit: iterations the solvers are allowed; too few must be reported, never passed off as a solution
static void segregation(int gi, int kr, int gr, int rho, double dt, int limit)
{
    if (!vh::begin(vh::fmt("grav/%s/kr%d/g%d/rho%d/dt%g/n%d", colname(gi), kr, gr, rho, dt, limit))) return;
    UnstructuredGrid* g = colgrid(gi);
    const int nc = g->number_of_cells;
    const double grav[3] = { 0, 0, gr == 0 ? 1.0 : gr == 1 ? -1.0 : 0.0 };
    Fluid f(g, kr);
    if (rho == 1) { f.rho[0] = 1.5; f.rho[1] = 2.5; } else if (rho == 2) f.rho[0] = f.rho[1];
    fl::setperm(f, 1);
    V pv; for (int c = 0; c < nc; ++c) pv.push_back(0.5 + 0.25 * (c * 2 % 3));
    std::vector<Pair> pr = pairs(g); std::vector<LD> d;
    for (size_t k = 0; k < pr.size(); ++k) d.push_back(drive(g, &f.perm[0], pr[k], grav, f.rho[0] - f.rho[1], f.rho[0] - f.rho[1]));
    LD fast = 0; for (size_t k = 0; k < d.size(); ++k) fast = std::max(fast, std::fabs(d[k]) * dt / 0.5L);
    TransportSolverTwophaseReorder one(*g, f, grav, TOL, limit);
    std::vector<std::vector<int> > cols; extractColumn(*g, cols);
    SimpleFluid2pWrappingProps w(f);
    SinglePointUpwindTwoPhase<SimpleFluid2pWrappingProps> model(w, *g, pv, grav, true);
    V ht(g->cell_facepos[nc]); tpfa_htrans_compute(g, &f.perm[0], &ht[0]);
    model.initGravityTrans(*g, ht);
    GravityColumnSolver<SinglePointUpwindTwoPhase<SimpleFluid2pWrappingProps> > two(model, *g, 1e-11, std::min(40, limit));
    const int n = starts(nc);
    IncompMob mob = { f };
    for (int p = 0; p < n; ++p) {
        vh::state(); vh::tr(2);
        V s0 = start(p, nc, kr);
        TwophaseState st; st.init(*g, 2);
        for (int c = 0; c < nc; ++c) { st.saturation()[2 * c] = s0[c]; st.saturation()[2 * c + 1] = 1 - s0[c]; }
        V keep(st.saturation());
        bool ok = true;
        try { fl::Quiet q; one.solveGravity(&pv[0], dt, st); if (limit < 40 && q.s.str().find("Maximum number of iterations exceeded") != std::string::npos) ok = false; }
        catch (const std::exception& e) { ok = false; if (fast < 3 && limit > 40) vh::fail("failure", "start %d: %s", p, e.what()); }
        for (int c = 0; ok && c < nc; ++c) VH_CHECK(one.getReorderIterations()[c] >= 0, "iterations", "start %d, cell %d: %d", p, c, one.getReorderIterations()[c]);
        if (ok) verify(g, s0, st.saturation(), pv, dt, d, mob, 2e-9, kr, vh::fmt("reorder, start %d", p));
        // Newton on columns: converges from the previous step when it is short
        V s(keep); ok = true;
        try { fl::Quiet q; two.solve(cols, dt, s); }
        catch (const std::exception& e) { ok = false; if (fast < 0.2 && limit > 40) vh::fail("failure", "Newton, start %d: %s", p, e.what()); }
        // values at the kinks of the curves can be clamped by up to the tolerance of the model
        if (ok) verify(g, s0, s, pv, dt, d, mob, 1e-7, kr, vh::fmt("Newton, start %d", p));
    }
    destroy_grid(g);
}
static void compressible(int gi, int kr, int gr, int rho, int compr, double dt)
{
    if (!vh::begin(vh::fmt("cgrav/%s/kr%d/g%d/rho%d/c%d/dt%g", colname(gi), kr, gr, rho, compr, dt))) return;
    UnstructuredGrid* g = colgrid(gi);
    const int nc = g->number_of_cells;
    const double grav[3] = { 0, 0, gr == 0 ? 1.0 : -1.0 };
    Oil f(g, kr, compr);
    if (rho == 1) { f.rs[0] = 1.5; f.rs[1] = 2.5; }
    V pv, press; for (int c = 0; c < nc; ++c) { pv.push_back(0.5 + 0.25 * (c * 2 % 3)); press.push_back(1 + 4 * ((c * 3) % 4)); }
    std::vector<Pair> pr = pairs(g); std::vector<LD> d;
    V A(4 * nc), den(2 * nc); std::vector<int> cells(nc); f.matrix(nc, &press[0], 0, &cells[0], &A[0], 0); f.density(nc, &A[0], &den[0]);
    LD fast = 0;
    for (size_t k = 0; k < pr.size(); ++k) { d.push_back(drive(g, &f.perm[0], pr[k], grav, (LD)den[2 * pr[k].a] - den[2 * pr[k].a + 1], (LD)den[2 * pr[k].b] - den[2 * pr[k].b + 1])); fast = std::max(fast, std::fabs(d[k]) * dt / 0.5L); }
    TransportSolverCompressibleTwophaseReorder solver(*g, f, TOL, 200);
    solver.initGravity(grav);
    std::vector<std::vector<int> > cols; extractColumn(*g, cols);
    const int n = starts(nc);
    OilMob mob = { f, press };
    V zero(g->number_of_faces, 0.0), src(nc, 0.0);
    for (int p = 0; p < n; ++p) {
        vh::state(); vh::tr(2);
        V s0 = start(p, nc, kr), s(2 * nc), z(2 * nc);
        for (int c = 0; c < nc; ++c) { s[2 * c] = s0[c]; s[2 * c + 1] = 1 - s0[c]; for (int q = 0; q < 2; ++q) z[2 * c + q] = A[4 * c + 3 * q] * s[2 * c + q]; }
        bool ok = true;
        try {
            fl::Quiet q;
            // a step without flow sets the fluid state and changes nothing
            solver.solve(&zero[0], &press[0], &pv[0], &pv[0], &src[0], dt, s, z);
            for (int c = 0; c < nc; ++c) if (!vh::close_to(s[2 * c], s0[c], 0, 4 * TOL)) { vh::fail("still", "start %d: no flow changed cell %d from %.12g to %.12g", p, c, s0[c], s[2 * c]); break; }
            if (p % 2) {   // a step that ends elsewhere and shrank the pores; segregation starts from what it is given
                V pv0(pv), s2(2 * nc), z2(2 * nc); for (int c = 0; c < nc; ++c) { pv0[c] *= 0.75 + 0.125 * (c % 2); s2[2 * c] = 0.3 + 0.1 * (c % 4); s2[2 * c + 1] = 1 - s2[2 * c]; for (int q = 0; q < 2; ++q) z2[2 * c + q] = A[4 * c + 3 * q] * s2[2 * c + q]; }
                solver.solve(&zero[0], &press[0], &pv0[0], &pv[0], &src[0], dt, s2, z2);
            }
            for (int c = 0; c < nc; ++c) { s[2 * c] = s0[c]; s[2 * c + 1] = 1 - s0[c]; }
            solver.solveGravity(cols, dt, s, z);
        } catch (const std::exception& e) { ok = false; if (fast < 3) vh::fail("failure", "start %d: %s", p, e.what()); }
        if (!ok) continue;
        verify(g, s0, s, pv, dt, d, mob, 2e-9, kr, vh::fmt("start %d", p));
        for (int i = 0; i < 2 * nc; ++i) if (!vh::close_to(z[i], A[4 * (i / 2) + 3 * (i % 2)] * s[i], 1e-12, 1e-14)) { vh::fail("surfacevol", "start %d: %d", p, i); break; }
    }
    destroy_grid(g);
}

void explore()
{
    const bool T = vh::thorough();
    const double dts[4] = { 0.02, 0.3, 5, 100 };
    for (int gi = 0; gi < 8; ++gi) for (int kr = 0; kr < NKR; ++kr) for (int rho = 0; rho < 3; ++rho) for (int d = 0; d < (T ? 4 : 3); ++d) {
        for (int gr = 0; gr < 3; ++gr) if (T || gi != 2 || (kr + rho + d + gr) % 3 == 0) {
            segregation(gi, kr, gr, rho, dts[d], 200);
            if (rho == 0 && gi != 2) for (int n = 1; n < 12; n += n < 4 ? 1 : 4) segregation(gi, kr, gr, rho, dts[d], n);
        }
        if (rho < 2) for (int gr = 0; gr < 2; ++gr) for (int c = 0; c < 2; ++c) if (T || gi != 2 || (kr + rho + d + gr) % 3 == 0) compressible(gi, kr, gr, rho, c, dts[d]);
    }
}
