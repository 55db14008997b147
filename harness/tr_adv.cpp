// Reordering two-phase transport: every flux sign pattern, source arrangement and initial saturation on small grids, and
// histories of one solver; every cell's water balance is checked against the returned saturations.
#include "transport.hpp"
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
using namespace tr;
using namespace Opm;
static const double TOL = 1e-10;

struct Setup {
    UnstructuredGrid* g; Fluid f; TransportSolverTwophaseReorder solver; V pv; double grav[3];
    Setup(int gi, int kr, bool gravity) : g(fl::grid(gi)), f(g, kr), solver(g_(), f, gravity_(gravity), TOL, 60) {
        for (int c = 0; c < g->number_of_cells; ++c) pv.push_back(0.5 + 0.25 * (c * 2 % 3));
    }
    const UnstructuredGrid& g_() { return *g; }
    const double* gravity_(bool on) { grav[0] = grav[1] = 0; grav[2] = 9.8; return on ? grav : 0; }
    ~Setup() { destroy_grid(g); }
};
// mode: 0 sources close the balance, 1 boundary fluxes do, 2 half of it is left to compressibility of the rock
static bool step(Setup& S, const V& q0, int mode, double dt, V& s, const std::string& what)
{
    const UnstructuredGrid* g = S.g;
    const int nc = g->number_of_cells, kr = S.f.kind;
    V q(q0), src(nc, 0.0), ts(nc, 0.0);
    std::vector<LD> net(nc);
    for (int c = 0; c < nc; ++c) net[c] = netout(g, q, c);
    if (mode == 1) {
        for (int c = 0; c < nc; ++c) {
            int bf = -1;
            for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) { int f = g->cell_faces[j]; if (g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0) bf = f; }
            if (bf < 0) { src[c] = net[c]; continue; }
            q[bf] = (g->face_cells[2 * bf] == c ? -1 : 1) * net[c];
        }
        fl::Quiet quiet;
        computeTransportSource(*g, src, q, 1.0, 0, V(), ts);
    } else for (int c = 0; c < nc; ++c) ts[c] = net[c] * (mode == 2 ? 0.5 : 1.0);
    TwophaseState st; st.init(*g, 2);
    st.faceflux() = q;
    for (int c = 0; c < nc; ++c) { st.saturation()[2 * c] = s[c]; st.saturation()[2 * c + 1] = 1 - s[c]; }
    std::vector<int> sz = loops(g, q);
    bool loop = *std::max_element(sz.begin(), sz.end()) > 1;
    vh::tr();
    try { fl::Quiet quiet; S.solver.solve(&S.pv[0], &ts[0], dt, st); }
    catch (const std::exception& e) {
        // circulating groups are solved by sweeps, which may give up (loudly) for time steps much longer than the circulation
        LD cfl = 0; for (int c = 0; c < nc; ++c) for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) cfl = std::max<LD>(cfl, std::fabs(q[g->cell_faces[j]]) * dt / S.pv[c]);
        if (!loop || cfl < 5) vh::fail("failure", "%s: %s", what.c_str(), e.what());
        return false;
    }
    const V& r = st.saturation();
    LD in = 0, out = 0, change = 0;
    for (int c = 0; c < nc; ++c) {
        if (mode != 2 && !(r[2 * c] >= smin(kr, c) - 1e-9 && r[2 * c] <= smax(kr, c) + 1e-9) && s[c] >= smin(kr, c) && s[c] <= smax(kr, c)) { vh::fail("bounds", "%s: saturation %.12g in cell %d", what.c_str(), r[2 * c], c); return false; }
        if (!(r[2 * c] >= -1e-12 && r[2 * c] <= 1 + 1e-12)) { vh::fail("bounds", "%s: saturation %.12g in cell %d", what.c_str(), r[2 * c], c); return false; }
        if (r[2 * c + 1] != 1 - r[2 * c]) { vh::fail("sum", "%s: cell %d", what.c_str(), c); return false; }
    }
    std::vector<LD> f(nc);
    for (int c = 0; c < nc; ++c) { LD a = krw<LD>(kr, r[2 * c], c) / S.f.mu[0], b = kro<LD>(kr, r[2 * c], c) / S.f.mu[1]; f[c] = a / (a + b); }
    for (int c = 0; c < nc; ++c) {
        LD win = 0, wout = 0, dil = 0, thru = 0;
        for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
            int k = g->cell_faces[j], a = g->face_cells[2 * k], b = g->face_cells[2 * k + 1];
            if (a < 0 || b < 0) continue;
            LD v = a == c ? q[k] : -q[k]; int o = a == c ? b : a;
            (v < 0 ? win : wout) += v < 0 ? -v * f[o] : v * f[c];
            dil -= v; thru += std::fabs(v);
        }
        if (ts[c] > 0) win += ts[c]; else wout += -ts[c] * f[c];
        dil += ts[c];
        // water now in the (possibly changed) pore space
        LD res = (r[2 * c] - s[c]) + dt / S.pv[c] * (wout - win + r[2 * c] * dil);
        LD scale = 4 * TOL + 1e-12 + (loop ? 2e-8L : 0) * (1 + dt / S.pv[c] * thru * 10);
        if (!(std::fabs(res) < scale)) { vh::fail("balance", "%s: cell %d is off by %.4Lg of its pore volume (saturation %.9g was %.9g)", what.c_str(), c, res, r[2 * c], s[c]); return false; }
        change += S.pv[c] * (r[2 * c] - s[c]);
        if (ts[c] > 0) in += ts[c] * dt; else out += -ts[c] * dt * f[c];
        s[c] = r[2 * c];
    }
    if (mode != 2) {
        // injected minus produced stays in the model, by the library's own accounts
        double inj[2], prd[2]; V src2(ts);
        computeInjectedProduced(S.f, st.saturation(), src2, dt, inj, prd);
        LD tol = 1e-12; for (int c = 0; c < nc; ++c) tol += S.pv[c] * (4 * TOL + (loop ? 1e-5L : 0) + 1e-11 * dt);
        if (!(std::fabs(inj[0] - prd[0] - change) < tol)) vh::fail("account", "%s: injected %.9g - produced %.9g, stored %.9Lg", what.c_str(), inj[0], prd[0], change);
    }
    vh::outcome(vh::hash(&r[0], 8 * r.size()));
    return true;
}
static V initial(int pat, int nc, int kr)
{
    V s; for (int c = 0; c < nc; ++c, pat /= 3) s.push_back(level(kr, c, pat % 3));
    return s;
}
static void fields(int gi, int kr, int mode, double dt, const std::vector<int>& sign, int stride)
{
    if (!vh::begin(vh::fmt("adv/%s/kr%d/m%d/dt%g/%s", fl::gridname(gi), kr, mode, dt, vh::str(sign).c_str()))) return;
    Setup S(gi, kr, mode == 1 && (gi == 1 || gi == 2 || gi == 6));
    V q = fluxes(S.g, sign);
    int n = 1; for (int c = 0; c < S.g->number_of_cells; ++c) n *= 3;
    for (int p = stride == 1 ? 0 : (sign[0] + kr) % stride; p < n; p += stride) {
        vh::state();
        V s = initial(p, S.g->number_of_cells, kr);
        step(S, q, mode, dt, s, vh::fmt("saturation %d", p));
    }
}
// a solver used for one step after another with changing fluxes gives what a new one gives
static void history(int gi, int kr, const std::vector<int>& h)
{
    if (!vh::begin(vh::fmt("hist/%s/kr%d/%s", fl::gridname(gi), kr, vh::str(h).c_str()))) return;
    Setup S(gi, kr, false);
    const int k = interior(S.g);
    V s = initial(5, S.g->number_of_cells, kr);
    for (size_t t = 0; t < h.size(); ++t) {
        std::vector<int> sign(k);
        for (int i = 0; i < k; ++i) sign[i] = h[t] == 0 ? 2 : h[t] == 1 ? 0 : h[t] == 2 ? (i * 2) % 3 : h[t] == 3 ? (i & 1) * 2 : 1;
        V s2(s); Setup fresh(gi, kr, false);
        const double dt = h[t] & 1 ? 0.3 : 1.7;
        bool a = step(S, fluxes(S.g, sign), h[t] % 2, dt, s, vh::fmt("step %d", (int)t)), b = step(fresh, fluxes(S.g, sign), h[t] % 2, dt, s2, vh::fmt("fresh step %d", (int)t));
        if (a != b) { vh::fail("history", "step %d", (int)t); return; }
        if (!a) return;
        for (size_t c = 0; c < s.size(); ++c) if (!vh::close_to(s[c], s2[c], 0, 1e-7)) { vh::fail("history", "step %d: cell %d %.12g, with a new solver %.12g", (int)t, (int)c, s[c], s2[c]); return; }
    }
}

static void large(int gi, int kr, int mode, double dt)
{
    if (!vh::begin(vh::fmt("adv/%s/kr%d/m%d/dt%g", fl::gridname(gi), kr, mode, dt))) return;
    Setup S(gi, kr, false);
    const int nc = S.g->number_of_cells, k = interior(S.g);
    for (int p = 0; p < fl::NPATTERN; ++p) {
        vh::state();
        std::vector<int> d = fl::pattern((p * 5 + kr) % fl::NPATTERN, nc);
        V s; for (int c = 0; c < nc; ++c) s.push_back(level(kr, c, d[c]));
        step(S, fluxes(S.g, fl::pattern(p, k)), mode, dt, s, vh::fmt("pattern %d", p));
    }
}

void explore()
{
    const bool T = vh::thorough();
    for (int gi = fl::LARGE; gi < fl::NLARGE; ++gi) for (int kr = 0; kr < NKR; ++kr) for (int mode = 0; mode < 3; ++mode) { large(gi, kr, mode, 0.7); large(gi, kr, mode, T ? 0.05 : 20); }
    const double dts[4] = { 0.05, 0.7, 20, 300 };
    for (int gi = 0; gi < fl::NGRID; ++gi) {
        UnstructuredGrid* g = fl::grid(gi); const int k = interior(g), nc = g->number_of_cells; destroy_grid(g);
        for (int kr = 0; kr < NKR; ++kr) for (int mode = 0; mode < 3; ++mode) for (int d = 0; d < (T ? 4 : 3); ++d) {
            if (nc > 5 && !T && (kr + mode + d) % 4) continue;
            std::vector<int> s(k, 0);
            do fields(gi, kr, mode, dts[d], s, nc > 5 ? (T ? 41 : 181) : nc > 4 ? (T ? 1 : 11) : T ? 1 : 4); while (vh::next(s, 3));
        }
    }
    for (int gi = 0; gi < fl::NGRID; ++gi) for (int kr = 0; kr < NKR; ++kr) for (int n = 2; n <= (T ? 4 : 3); ++n) { std::vector<int> h(n, 0); do history(gi, kr, h); while (vh::next(h, 5)); }
    if (vh::begin("threephase")) {
        UnstructuredGrid* g = fl::grid(7); fl::Incomp p(g, 3); p.mu.push_back(1); p.rho.push_back(1); bool threw = false;
        try { fl::Quiet q; TransportSolverTwophaseReorder s(*g, p, 0, 1e-9, 10); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "phases", "three phases accepted");
        destroy_grid(g);
    }
}
