// Reordering transport with compressible fluids and rock: every flux sign pattern, source arrangement, pressure change and
// initial saturation on small grids, and histories of one solver; surface volumes of water must balance in every cell.
#include "transport.hpp"
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>
using namespace tr;
using namespace Opm;
static const double TOL = 1e-10;

struct Setup {
    UnstructuredGrid* g; Oil f; TransportSolverCompressibleTwophaseReorder solver; int compr;
    V pv, p, s, z;               // pore volume, pressure, saturation (both), surface volumes at the start of the next step
    Setup(int gi, int kr, int compr_, int pat) : g(fl::grid(gi)), f(g, kr, compr_), solver(g_(), f, TOL, 60), compr(compr_) {
        const int nc = g->number_of_cells;
        std::vector<int> d; if (gi >= fl::LARGE) d = fl::pattern(pat % fl::NPATTERN, nc);
        for (int c = 0; c < nc; ++c, pat /= 3) { pv.push_back(0.5 + 0.25 * (c * 2 % 3)); p.push_back(10); s.push_back(level(kr, c, d.empty() ? pat % 3 : d[c])); s.push_back(1 - s.back()); }
        z.resize(2 * nc); V A = matrix(p); for (int i = 0; i < 2 * nc; ++i) z[i] = A[4 * (i / 2) + 3 * (i % 2)] * s[i];
    }
    const UnstructuredGrid& g_() { return *g; }
    V matrix(const V& press) { const int nc = g->number_of_cells; V A(4 * nc); std::vector<int> cells(nc); f.matrix(nc, &press[0], 0, &cells[0], &A[0], 0); return A; }
    ~Setup() { destroy_grid(g); }
};
// pch: 0 pressures stay, 1 rise and pore space swells, 2 fall and pore space shrinks, 3 mixed
// mode 0: sources close the volume balance for the new pressures, 1: they close the flux balance only, 2: no sources
static bool step(Setup& S, const V& q, int mode, int pch, double dt, const std::string& what)
{
    const UnstructuredGrid* g = S.g;
    const int nc = g->number_of_cells, kr = S.f.kind;
    V p(S.p), pv(S.pv), src(nc, 0.0);
    for (int c = 0; c < nc; ++c) {
        int dir = pch == 0 ? 0 : pch == 1 ? 1 : pch == 2 ? -1 : (c + 2) % 3 - 1;
        p[c] += dir * (2 + c % 2); pv[c] *= 1 + 0.01 * dir * (1 + c % 2);
    }
    V A = S.matrix(p), A0 = S.matrix(S.p);
    for (int c = 0; c < nc && mode < 2; ++c) {
        LD need = netout(g, q, c);
        // what the contents would occupy after the change, less the room there is
        if (mode == 0) { LD v = 0; for (int k = 0; k < 2; ++k) v += S.z[2 * c + k] / A[4 * c + 3 * k]; need += (pv[c] - v * S.pv[c]) / dt; }
        src[c] = need > 0 ? need * A[4 * c] : need;   // surface volume of water in, reservoir volume out
    }
    std::vector<int> sz = loops(g, q);
    const bool loop = *std::max_element(sz.begin(), sz.end()) > 1;
    V s(S.s), z(S.z);
    vh::tr();
    try { fl::Quiet quiet; S.solver.solve(&q[0], &p[0], &S.pv[0], &pv[0], &src[0], dt, s, z); }
    catch (const std::exception& e) {
        LD cfl = 0; for (int c = 0; c < nc; ++c) for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) cfl = std::max<LD>(cfl, std::fabs(q[g->cell_faces[j]]) * dt / S.pv[c]);
        if (!loop || cfl < 5) vh::fail("failure", "%s: %s", what.c_str(), e.what());
        return false;
    }
    std::vector<LD> f(nc);
    for (int c = 0; c < nc; ++c) {
        if (!(s[2 * c] >= -1e-12 && s[2 * c] <= 1 + 1e-12)) { vh::fail("bounds", "%s: saturation %.12g in cell %d", what.c_str(), s[2 * c], c); return false; }
        if (s[2 * c + 1] != 1 - s[2 * c]) { vh::fail("sum", "%s: cell %d", what.c_str(), c); return false; }
        for (int k = 0; k < 2; ++k) if (!vh::close_to(z[2 * c + k], (double)(A[4 * c + 3 * k] * s[2 * c + k]), 1e-12, 1e-14)) { vh::fail("surfacevol", "%s: cell %d phase %d: %.12g", what.c_str(), c, k, z[2 * c + k]); return false; }
        LD mw = krw<LD>(kr, s[2 * c], c) / (S.f.mu0[0] * (1 + (LD)S.f.muc[0] * (p[c] - 1))), mo = kro<LD>(kr, s[2 * c], c) / (S.f.mu0[1] * (1 + (LD)S.f.muc[1] * (p[c] - 1)));
        f[c] = mw / (mw + mo);
    }
    LD tot = 0, in = 0, out = 0, allow = 0; bool full = false;
    for (int c = 0; c < nc; ++c) {
        const LD b = A[4 * c];
        LD win = 0, wout = 0, thru = 0, maxout = 0;
        for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
            int k = g->cell_faces[j], a0 = g->face_cells[2 * k], b0 = g->face_cells[2 * k + 1];
            if (a0 < 0 || b0 < 0) continue;
            LD v = a0 == c ? q[k] : -q[k]; int o = a0 == c ? b0 : a0;
            if (v < 0) win += -v * A[4 * o] * f[o]; else { wout += v * b * f[c]; maxout += v * b; }
            thru += std::fabs(v);
        }
        if (src[c] > 0) { win += src[c]; in += src[c] * dt; } else { wout -= src[c] * b * f[c]; out -= src[c] * b * f[c] * dt; maxout -= src[c] * b; }
        // surface volume of water
        LD res = (LD)z[2 * c] * pv[c] - (LD)S.z[2 * c] * S.pv[c] + dt * (wout - win);
        LD tol = (b * S.pv[c]) * (4 * TOL + 1e-12 + (loop ? 2e-8L : 0) * (1 + dt / S.pv[c] * thru * 10));
        // more water than the cell can hold even at full outflow: fluxes and pressures contradict each other
        LD most = (LD)S.z[2 * c] * S.pv[c] + dt * win - dt * maxout - b * pv[c];
        if (most > -tol) { full = true; if (!(s[2 * c] > 1 - 1e-6 || most < tol)) { vh::fail("full", "%s: cell %d should be full of water, is %.9g", what.c_str(), c, s[2 * c]); return false; } continue; }
        if (!(std::fabs(res) < tol)) { vh::fail("balance", "%s: cell %d is off by %.4Lg of %.4Lg (saturation %.9g was %.9g)", what.c_str(), c, res, b * S.pv[c], s[2 * c], S.s[2 * c]); return false; }
        tot += (LD)z[2 * c] * pv[c] - (LD)S.z[2 * c] * S.pv[c]; allow += tol;
    }
    if (!full) VH_CHECK(std::fabs(tot - in + out) <= allow + 1e-12, "conservation", "%s: injected %.9Lg produced %.9Lg stored %.9Lg", what.c_str(), in, out, tot);
    // with sources that fit, the oil balances as well up to the change of volume by mixing, and curves end where they should
    if (mode == 0 && pch == 0 && S.compr == 0 && !full) for (int c = 0; c < nc; ++c) if (S.s[2 * c] >= smin(kr, c) && S.s[2 * c] <= smax(kr, c) && !(s[2 * c] >= smin(kr, c) - 1e-7 && s[2 * c] <= smax(kr, c) + 1e-7)) { vh::fail("bounds", "%s: cell %d at %.9g beyond residual", what.c_str(), c, s[2 * c]); break; }
    vh::outcome(vh::hash(&s[0], 8 * s.size()));
    S.s = s; S.z = z; S.p = p; S.pv = pv;
    return true;
}
static void fields(int gi, int kr, int compr, int mode, int pch, double dt, const std::vector<int>& sign, int stride)
{
    if (!vh::begin(vh::fmt("adv/%s/kr%d/c%d/m%d/p%d/dt%g/%s", fl::gridname(gi), kr, compr, mode, pch, dt, vh::str(sign).c_str()))) return;
    UnstructuredGrid* g = fl::grid(gi); int n = 1; for (int c = 0; c < g->number_of_cells; ++c) n *= 3;
    V q = fluxes(g, sign); destroy_grid(g);
    for (int p = stride == 1 ? 0 : (sign[0] + kr + 2 * mode) % stride; p < n; p += stride) {
        vh::state();
        Setup S(gi, kr, compr, p);
        step(S, q, mode, pch, dt, vh::fmt("saturation %d", p));
    }
}
static void large(int gi, int kr, int compr, int mode, int pch, double dt)
{
    if (!vh::begin(vh::fmt("adv/%s/kr%d/c%d/m%d/p%d/dt%g", fl::gridname(gi), kr, compr, mode, pch, dt))) return;
    for (int p = 0; p < fl::NPATTERN; ++p) {
        vh::state();
        Setup S(gi, kr, compr, p * 5 + kr);
        step(S, fluxes(S.g, fl::pattern(p, interior(S.g))), mode, pch, dt, vh::fmt("pattern %d", p));
    }
}
static void history(int gi, int kr, int compr, const std::vector<int>& h)
{
    if (!vh::begin(vh::fmt("hist/%s/kr%d/c%d/%s", fl::gridname(gi), kr, compr, vh::str(h).c_str()))) return;
    Setup S(gi, kr, compr, 5);
    const int k = interior(S.g);
    for (size_t t = 0; t < h.size(); ++t) {
        std::vector<int> sign(k);
        for (int i = 0; i < k; ++i) sign[i] = h[t] == 0 ? 2 : h[t] == 1 ? 0 : h[t] == 2 ? (i * 2) % 3 : h[t] == 3 ? (i & 1) * 2 : 1;
        const double dt = h[t] & 1 ? 0.3 : 1.7;
        Setup F(gi, kr, compr, 5); F.s = S.s; F.z = S.z; F.p = S.p; F.pv = S.pv;
        bool a = step(S, fluxes(S.g, sign), h[t] % 3, (int)(t + h[t]) % 4, dt, vh::fmt("step %d", (int)t)), b = step(F, fluxes(S.g, sign), h[t] % 3, (int)(t + h[t]) % 4, dt, vh::fmt("fresh step %d", (int)t));
        if (a != b) { vh::fail("history", "step %d", (int)t); return; }
        if (!a) return;
        for (size_t c = 0; c < S.s.size(); ++c) if (!vh::close_to(S.s[c], F.s[c], 0, 1e-7)) { vh::fail("history", "step %d: %d %.12g, with a new solver %.12g", (int)t, (int)c, S.s[c], F.s[c]); return; }
    }
}
struct Miscible : public Oil {
    double add; int at;
    Miscible(const UnstructuredGrid* g, double a, int k) : Oil(g, 0, 1), add(a), at(k) {}
    void matrix(const int n, const double* p, const double* zz, const int* c, double* A, double* dA) const { Oil::matrix(n, p, zz, c, A, dA); for (int i = 0; i < n; ++i) A[4 * i + at] = add; }
};

void explore()
{
    const bool T = vh::thorough();
    const double dts[4] = { 0.05, 0.7, 20, 300 };
    for (int gi = 0; gi < fl::NGRID; ++gi) {
        UnstructuredGrid* g = fl::grid(gi); const int k = interior(g), nc = g->number_of_cells; destroy_grid(g);
        for (int kr = 0; kr < NKR; ++kr) for (int compr = 0; compr < 2; ++compr) for (int mode = 0; mode < 3; ++mode) for (int pch = 0; pch < 4; ++pch) for (int d = 0; d < (T ? 4 : 3); ++d) {
            if (!T && (kr + compr + 2 * mode + 3 * pch + d) % (nc > 5 ? 40 : nc > 4 ? 16 : 8)) continue;
            if (T && (kr + compr + 2 * mode + 3 * pch + d) % (nc > 5 ? 4 : 1)) continue;
            std::vector<int> s(k, 0);
            do fields(gi, kr, compr, mode, pch, dts[d], s, nc > 5 ? (T ? 61 : 181) : nc > 4 ? (T ? 5 : 11) : T ? 2 : 5); while (vh::next(s, 3));
        }
    }
    for (int gi = fl::LARGE; gi < fl::NLARGE; ++gi) for (int kr = 0; kr < NKR; ++kr) for (int compr = 0; compr < 2; ++compr) for (int mode = 0; mode < 3; ++mode) for (int pch = 0; pch < 4; ++pch)
        if (T || (gi + kr + compr + mode + pch) % 3 == 0) { large(gi, kr, compr, mode, pch, 0.7); large(gi, kr, compr, mode, pch, T ? 0.05 : 20); }
    for (int gi = 0; gi < fl::NGRID; ++gi) for (int kr = 0; kr < NKR; ++kr) for (int compr = 0; compr < 2; ++compr) for (int n = 2; n <= (T ? 4 : 3); ++n) { std::vector<int> h(n, 0); do history(gi, kr, compr, h); while (vh::next(h, 5)); }
    for (int at = 0; at < 4; ++at) if (vh::begin(vh::fmt("miscible/%d", at))) {
        UnstructuredGrid* g = fl::grid(7); Miscible p(g, 0.5, at); bool threw = false; V q(g->number_of_faces, 0.0), c(4, 1.0), s(8, 0.5), z(8, 0.5), src(4, 0.0);
        TransportSolverCompressibleTwophaseReorder t(*g, p, TOL, 20);
        try { fl::Quiet qq; t.solve(&q[0], &c[0], &c[0], &c[0], &src[0], 1, s, z); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw == (at == 1 || at == 2), "phases", "off-diagonal %d: %d", at, (int)threw);
        destroy_grid(g);
    }
    if (vh::begin("threephase")) {
        UnstructuredGrid* g = fl::grid(7); fl::Black p(g, 3, 1); bool threw = false;
        try { fl::Quiet q; TransportSolverCompressibleTwophaseReorder s(*g, p, TOL, 10); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "phases", "three phases accepted");
        destroy_grid(g);
    }
}
