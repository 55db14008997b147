// Implicit (Newton) two-phase transport: face fluxes and their derivatives for every combination of flow, gravity, capillarity
// and saturations; whole steps on every flux sign pattern of small grids, checked for balance where convergence is reported.
#include "transport.hpp"
#include <opm/core/transport/implicit/TransportSolverTwophaseImplicit.hpp>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace tr;
using namespace Opm;

// capillary pressure 0 none, 1 linear, 2 curved, 3 depends on the cell
static LD pcap(int k, LD s, int c) { return k == 0 ? 0 : k == 1 ? 0.4L * (1 - s) : k == 2 ? 0.5L * (1 - s) * (1 - s) : (0.3L + 0.2L * (c % 2)) * (1 - s); }
static LD dpcap(int k, LD s, int c) { return k == 0 ? 0 : k == 1 ? -0.4L : k == 2 ? -(1 - s) : -(0.3L + 0.2L * (c % 2)); }
struct Rock : public Fluid {
    int pck;
    Rock(const UnstructuredGrid* g, int kr, int pc) : Fluid(g, kr), pck(pc) {}
    void capPress(const int n, const double* s, const int* cells, double* pc, double* d) const {
        for (int i = 0; i < n; ++i) { pc[2 * i] = pcap(pck, s[2 * i], cells[i]); pc[2 * i + 1] = 0; if (d) { d[4 * i] = dpcap(pck, s[2 * i], cells[i]); d[4 * i + 1] = d[4 * i + 2] = d[4 * i + 3] = 0; } }
    }
};
struct ZeroState { V q; V s; const V& faceflux() const { return q; } const V& saturation() const { return s; } V& saturation() { return s; } };
struct Vecs { V x; const V& solution() const { return x; } V& writableSolution() { return x; } };
struct Sys { typedef V vector_type; Vecs v; const Vecs& vector() const { return v; } Vecs& vector() { return v; } };

static void connection(int kr, int pck, int rev, int gr)
{
    if (!vh::begin(vh::fmt("face/kr%d/pc%d/rev%d/g%d", kr, pck, rev, gr))) return;
    double xs[3] = { 0, 1, 3 }, ys[2] = { 0, 2 }, zs[2] = { 0, 1 };
    UnstructuredGrid* g = create_grid_tensor3d(2, 1, 1, xs, ys, zs, 0);
    int f = -1; for (int k = 0; k < g->number_of_faces; ++k) if (g->face_cells[2 * k] >= 0 && g->face_cells[2 * k + 1] >= 0) f = k;
    if (rev) { std::swap(g->face_cells[2 * f], g->face_cells[2 * f + 1]); for (int i = 0; i < 3; ++i) g->face_normals[3 * f + i] *= -1; }
    const double grav[3] = { gr % 3 == 0 ? 0.0 : gr % 3 == 1 ? 0.7 : -0.7, 0, 3 };
    Rock fluid(g, kr, pck); fl::setperm(fluid, 3); if (gr > 2) std::swap(fluid.rho[0], fluid.rho[1]);
    SimpleFluid2pWrappingProps w(fluid); V pv(2); pv[0] = 0.5; pv[1] = 0.75;
    SinglePointUpwindTwoPhase<SimpleFluid2pWrappingProps> m(w, *g, pv, grav, true);
    V ht(g->cell_facepos[2]); tpfa_htrans_compute(g, &fluid.perm[0], &ht[0]); m.initGravityTrans(*g, ht);
    const int n0 = g->face_cells[2 * f], n1 = g->face_cells[2 * f + 1];
    LD a = fl::halftrans(g, &fluid.perm[0], n0, f), b = fl::halftrans(g, &fluid.perm[0], n1, f), T = 1 / (1 / a + 1 / b), G = 0;
    for (int i = 0; i < 3; ++i) G += T * grav[i] * (fluid.rho[0] - fluid.rho[1]) * ((LD)g->cell_centroids[3 * n1 + i] - g->cell_centroids[3 * n0 + i]);
    const double fr[6] = { 0, 0.13, 0.42, 0.71, 0.96, 1 }, dv[9] = { -3, -0.5, -0.02, -1e-4, 0, 1e-4, 0.02, 0.5, 3 };
    const double dt = 0.7;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) for (int k = 0; k < 9; ++k) {
        vh::state(); vh::tr(2);
        ZeroState st; st.q.assign(g->number_of_faces, 0.0); st.q[f] = dv[k]; st.s.resize(4);
        Sys sys; sys.v.x.assign(2, 0.0);
        // half of the saturation is in the state, half in the change
        double s[2]; for (int c = 0; c < 2; ++c) { const int k1 = c == n0 ? i : j; s[c] = k1 == 5 ? smax(kr, c) : smin(kr, c) + fr[k1] * (smax(kr, c) - smin(kr, c)); }
        for (int c = 0; c < 2; ++c) { double base = smin(kr, c) + 0.5 * (s[c] - smin(kr, c)); st.s[2 * c] = base; st.s[2 * c + 1] = 1 - base; sys.v.x[c] = s[c] - base; }
        m.initIteration(st, *g, sys);
        struct Ref { const Rock& r; LD d, G, T; int n0, n1; bool operator()(const LD* s, LD& q) const {
            LD wa[2], ob[2]; const int n[2] = { n0, n1 };
            for (int c = 0; c < 2; ++c) { wa[c] = krw<LD>(r.kind, s[n[c]], n[c]) / r.mu[0]; ob[c] = kro<LD>(r.kind, s[n[c]], n[c]) / r.mu[1]; }
            return waterflux(d, G + T * (pcap(r.pck, s[n1], n1) - pcap(r.pck, s[n0], n0)), wa, ob, q);
        } } ref = { fluid, dv[k], G, T, n0, n1 };
        LD sl[2] = { s[0], s[1] }, q;
        if (!ref(sl, q)) continue;
        LD der[2]; bool kink[2];
        for (int c = 0; c < 2; ++c) {
            const LD h = 1e-6L; LD t[2] = { sl[0], sl[1] }, qp, qm; t[c] = sl[c] + h; bool ok = ref(t, qp); t[c] = sl[c] - h; ok = ref(t, qm) && ok;
            der[c] = (qp - qm) / (2 * h);
            kink[c] = !ok || std::fabs((qp - q) / h - (q - qm) / h) > 1e-5L * (1 + std::fabs(der[c])) || s[c] - smin(kr, c) < 1e-5 || smax(kr, c) - s[c] < 1e-5;
        }
        for (int c = 0; c < 2; ++c) {
            double J1 = 0, J2 = 0, F = 0;
            m.fluxConnection(st, *g, dt, c, f, &J1, &J2, &F);
            const LD sg = c == n0 ? 1 : -1;
            if (!(std::fabs(F - dt * sg * q) < 1e-12 * (1 + std::fabs(q)))) vh::fail("flux", "flow %g, saturations %g %g: water flux from cell %d is %.12g, should be %.12Lg", dv[k], s[n0], s[n1], c, F / dt, sg * q);
            if (!kink[c] && !(std::fabs(J1 - dt * sg * der[c]) < 1e-5 * (1 + std::fabs(der[c])))) vh::fail("derivative", "flow %g, saturations %g %g: cell %d by its own saturation %.9g, should be %.9Lg", dv[k], s[n0], s[n1], c, J1 / dt, sg * der[c]);
            if (!kink[1 - c] && !(std::fabs(J2 - dt * sg * der[1 - c]) < 1e-5 * (1 + std::fabs(der[1 - c])))) vh::fail("derivative", "flow %g, saturations %g %g: cell %d by its neighbour's saturation %.9g, should be %.9Lg", dv[k], s[n0], s[n1], c, J2 / dt, sg * der[1 - c]);
            vh::outcome(vh::hash(&F, 8));
            if (k != 0) continue;
            // accumulation and sources
            double J = 0, R = 0; m.accumulation(*g, c, &J, &R);
            VH_CHECK(vh::close_to(R, pv[c] * sys.v.x[c], 1e-13) && J == pv[c], "accumulation", "cell %d", c);
            TransportSource* src = create_transport_source(0, 2); double comp[2] = { 0.8, 0.2 }, z[2] = { 0, 0 };
            append_transport_source(c, 2, 1, 1.3, comp, z, src); append_transport_source(c, 2, 1, -1.3, comp, z, src);
            J = R = 0; m.sourceTerms(*g, src, 0, dt, &J, &R);
            VH_CHECK(vh::close_to(R, -dt * 1.3 * 0.8, 1e-13) && J == 0, "source", "injection into cell %d: %g, %g", c, R, J);
            J = R = 0; m.sourceTerms(*g, src, 1, dt, &J, &R);
            LD mw = krw<LD>(kr, sl[c], c) / fluid.mu[0], mo = kro<LD>(kr, sl[c], c) / fluid.mu[1], h = 1e-6L, fp[2];
            for (int e = 0; e < 2; ++e) { LD x = sl[c] + (e ? h : -h), A = krw<LD>(kr, x, c) / fluid.mu[0], B = kro<LD>(kr, x, c) / fluid.mu[1]; fp[e] = A / (A + B); }
            VH_CHECK(std::fabs(R - dt * 1.3L * mw / (mw + mo)) < 1e-12, "source", "production from cell %d: %g", c, R);
            if (s[c] - smin(kr, c) > 1e-5 && smax(kr, c) - s[c] > 1e-5) VH_CHECK(std::fabs(J - dt * 1.3L * (fp[1] - fp[0]) / (2 * h)) < 1e-5 * (1 + std::fabs(J)), "source", "production from cell %d: derivative %g", c, J);
            destroy_transport_source(src);
        }
    }
    destroy_grid(g);
}

static UnstructuredGrid* maybe_split(int gi)
{
    UnstructuredGrid* g = fl::grid(gi == fl::NGRID ? 7 : gi);
    if (gi != fl::NGRID) return g;
    // two cells meeting at two faces: one interior face listed as two halves
    int f = -1; for (int k = 0; k < g->number_of_faces; ++k) if (g->face_cells[2 * k] >= 0 && g->face_cells[2 * k + 1] >= 0) f = k;
    const int nf = g->number_of_faces, nh = g->cell_facepos[g->number_of_cells], d = 2;
    UnstructuredGrid* h = allocate_grid(2, g->number_of_cells, nf + 1, 2 * (nf + 1), nh + 2, g->number_of_nodes);
    std::copy(g->cell_centroids, g->cell_centroids + d * g->number_of_cells, h->cell_centroids); std::copy(g->cell_volumes, g->cell_volumes + g->number_of_cells, h->cell_volumes);
    std::copy(g->node_coordinates, g->node_coordinates + d * g->number_of_nodes, h->node_coordinates);
    for (int k = 0; k <= nf; ++k) {
        int o = k == nf ? f : k; double sc = o == f ? 0.5 : 1;
        for (int i = 0; i < 2; ++i) { h->face_cells[2 * k + i] = g->face_cells[2 * o + i]; h->face_centroids[2 * k + i] = g->face_centroids[2 * o + i]; h->face_normals[2 * k + i] = g->face_normals[2 * o + i] * sc; h->face_nodes[2 * k + i] = g->face_nodes[2 * o + i]; }
        h->face_areas[k] = g->face_areas[o] * sc; h->face_nodepos[k + 1] = 2 * (k + 1);
    }
    h->face_nodepos[0] = 0; int p = 0; h->cell_facepos[0] = 0;
    for (int c = 0; c < g->number_of_cells; ++c) { for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) { h->cell_faces[p] = g->cell_faces[j]; h->cell_facetag[p++] = g->cell_facetag[j]; if (g->cell_faces[j] == f) { h->cell_faces[p] = nf; h->cell_facetag[p++] = g->cell_facetag[j]; } } h->cell_facepos[c + 1] = p; }
    h->dimensions = 2; h->number_of_cells = g->number_of_cells; h->number_of_faces = nf + 1; h->number_of_nodes = g->number_of_nodes;
    for (int i = 0; i < 3; ++i) h->cartdims[i] = g->cartdims[i];
    destroy_grid(g);
    return h;
}
static const char* name(int gi) { return gi != fl::NGRID ? fl::gridname(gi) : "cart2d2x2split"; }
struct Setup {
    UnstructuredGrid* g; Rock f; V pv, ht; double grav[3]; bool on; parameter::ParameterGroup param; TransportSolverTwophaseImplicit* solver;
    Setup(int gi, int kr, int pc, int gr, bool old) : g(maybe_split(gi)), f(g, kr, pc), on(gr != 0) {
        for (int c = 0; c < g->number_of_cells; ++c) pv.push_back(0.5 + 0.25 * (c * 2 % 3));
        grav[0] = gr == 2 ? 0.3 : 0.1; grav[1] = 0.2; grav[2] = gr == 2 ? -0.8 : 0.8;
        fl::setperm(f, 0); ht.resize(g->cell_facepos[g->number_of_cells]); tpfa_htrans_compute(g, &f.perm[0], &ht[0]);
        fl::Quiet q;
        param.disableOutput();
        param.insertParameter("guess_old_solution", old ? "true" : "false"); param.insertParameter("max_it", "40");
        solver = new TransportSolverTwophaseImplicit(*g, f, pv, on ? grav : 0, ht, param);
    }
    ~Setup() { { fl::Quiet q; delete solver; } destroy_grid(g); }
};
// 1 converged and balanced, 0 reported as not converged, -1 wrong
static int step(Setup& S, const V& q, double dt, V& s, bool must, const std::string& what)
{
    const UnstructuredGrid* g = S.g; const int nc = g->number_of_cells, kr = S.f.kind, d = g->dimensions;
    V src(nc, 0.0); for (int c = 0; c < nc; ++c) src[c] = netout(g, q, c);
    TwophaseState st; st.init(*g, 2); st.faceflux() = q;
    for (int c = 0; c < nc; ++c) { st.saturation()[2 * c] = s[c]; st.saturation()[2 * c + 1] = 1 - s[c]; }
    bool conv;
    vh::tr();
    {
        fl::Quiet quiet;
        try { S.solver->solve(&S.pv[0], &src[0], dt, st); } catch (const std::exception& e) { vh::fail("failure", "%s: %s", what.c_str(), e.what()); return -1; }
        conv = quiet.s.str().find("Process converged:       1") != std::string::npos;
    }
    const V& r = st.saturation();
    for (int c = 0; c < nc; ++c) if (!(r[2 * c] >= smin(kr, c) - 1e-14 && r[2 * c] <= smax(kr, c) + 1e-14) || r[2 * c + 1] != 1 - r[2 * c]) { vh::fail("bounds", "%s: cell %d: %.12g, %.12g", what.c_str(), c, r[2 * c], r[2 * c + 1]); return -1; }
    if (!conv) { if (must) vh::fail("convergence", "%s: gave up", what.c_str()); return 0; }
    std::vector<LD> wa(nc), ob(nc), pc(nc), res(nc), thru(nc, 0);
    for (int c = 0; c < nc; ++c) { wa[c] = krw<LD>(kr, r[2 * c], c) / S.f.mu[0]; ob[c] = kro<LD>(kr, r[2 * c], c) / S.f.mu[1]; pc[c] = pcap(S.f.pck, r[2 * c], c); res[c] = S.pv[c] * ((LD)r[2 * c] - s[c]); }
    for (int f = 0; f < g->number_of_faces; ++f) {
        const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue;
        LD T = 0, G = 0, F = 0;
        for (int e = 0; e < 2; ++e) { int c = e ? b : a; for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) if (g->cell_faces[j] == f) T += 1 / (LD)S.ht[j]; }
        T = 1 / T;
        if (S.on) for (int i = 0; i < d; ++i) G += T * S.grav[i] * (S.f.rho[0] - S.f.rho[1]) * ((LD)g->cell_centroids[d * b + i] - g->cell_centroids[d * a + i]);
        G += T * (pc[b] - pc[a]);
        LD w[2] = { wa[a], wa[b] }, o[2] = { ob[a], ob[b] };
        if (!waterflux(q[f], G, w, o, F)) F = 0;
        res[a] += dt * F; res[b] -= dt * F; thru[a] += std::fabs(q[f]) + std::fabs(G) / 2; thru[b] += std::fabs(q[f]) + std::fabs(G) / 2;
    }
    for (int c = 0; c < nc; ++c) {
        res[c] -= dt * (src[c] > 0 ? src[c] : src[c] * wa[c] / (wa[c] + ob[c]));
        LD tol = 3e-5L * (S.pv[c] + dt * (thru[c] + std::fabs(src[c])) * 4);
        if (!(std::fabs(res[c]) < tol)) { vh::fail("balance", "%s: cell %d is off by %.4Lg of %.3g (saturation %.9g was %.9g)", what.c_str(), c, res[c], S.pv[c], r[2 * c], s[c]); return -1; }
    }
    for (int c = 0; c < nc; ++c) s[c] = r[2 * c];
    vh::outcome(vh::hash(&r[0], 8 * r.size()));
    return 1;
}
static V initial(int pat, int nc, int kr) { V s; for (int c = 0; c < nc; ++c, pat /= 3) s.push_back(level(kr, c, pat % 3)); return s; }
static void fields(int gi, int kr, int pc, int gr, bool old, double dt, const std::vector<int>& sign, int stride)
{
    if (!vh::begin(vh::fmt("step/%s/kr%d/pc%d/g%d/old%d/dt%g/%s", name(gi), kr, pc, gr, (int)old, dt, vh::str(sign).c_str()))) return;
    Setup S(gi, kr, pc, gr, old);
    V q = fluxes(S.g, sign);
    int n = 1; for (int c = 0; c < S.g->number_of_cells; ++c) n *= 3;
    for (int p = (sign[0] + kr + gr) % stride; p < n; p += stride) { vh::state(); V s = initial(p, S.g->number_of_cells, kr); step(S, q, dt, s, false, vh::fmt("saturation %d", p)); }
    // from the middle of the range short steps always converge
    V s(S.g->number_of_cells, 0.35); vh::state(); step(S, q, dt, s, dt < 1, "evenly filled");
}
static void large(int gi, int kr, int pc, int gr, bool old, double dt)
{
    if (!vh::begin(vh::fmt("step/%s/kr%d/pc%d/g%d/old%d/dt%g", name(gi), kr, pc, gr, (int)old, dt))) return;
    Setup S(gi, kr, pc, gr, old); const int nc = S.g->number_of_cells;
    for (int p = 0; p < fl::NPATTERN; ++p) {
        vh::state(); std::vector<int> d = fl::pattern((p * 5 + kr) % fl::NPATTERN, nc); V q = fluxes(S.g, fl::pattern(p, interior(S.g)));
        V s; for (int c = 0; c < nc; ++c) s.push_back(level(kr, c, d[c]));
        step(S, q, dt, s, false, vh::fmt("pattern %d", p));
        s.assign(nc, 0.35); step(S, q, dt, s, dt < 0.1, vh::fmt("evenly filled, pattern %d", p));
    }
}
static void history(int gi, int kr, int pc, const std::vector<int>& h)
{
    if (!vh::begin(vh::fmt("hist/%s/kr%d/pc%d/%s", name(gi), kr, pc, vh::str(h).c_str()))) return;
    Setup S(gi, kr, pc, 1, true);
    const int k = interior(S.g); V s = initial(5, S.g->number_of_cells, kr);
    for (size_t t = 0; t < h.size(); ++t) {
        std::vector<int> sign(k);
        for (int i = 0; i < k; ++i) sign[i] = h[t] == 0 ? 2 : h[t] == 1 ? 0 : h[t] == 2 ? (i * 2) % 3 : h[t] == 3 ? (i & 1) * 2 : 1;
        V s2(s); Setup F(gi, kr, pc, 1, true); const double dt = h[t] & 1 ? 0.1 : 0.4;
        int a = step(S, fluxes(S.g, sign), dt, s, false, vh::fmt("step %d", (int)t)), b = step(F, fluxes(S.g, sign), dt, s2, false, vh::fmt("fresh step %d", (int)t));
        if (a != b) { vh::fail("history", "step %d: %d, with a new solver %d", (int)t, a, b); return; }
        if (a < 1) return;
        for (size_t c = 0; c < s.size(); ++c) if (!vh::close_to(s[c], s2[c], 0, 1e-9)) { vh::fail("history", "step %d: cell %d %.12g, with a new solver %.12g", (int)t, (int)c, s[c], s2[c]); return; }
    }
}

void explore()
{
    const bool T = vh::thorough();
    for (int kr = 0; kr < NKR; ++kr) for (int pc = 0; pc < 4; ++pc) for (int rev = 0; rev < 2; ++rev) for (int gr = 0; gr < 6; ++gr) connection(kr, pc, rev, gr);
    const double dts[4] = { 0.02, 0.3, 3, 40 };
    for (int gi = 0; gi <= fl::NGRID; ++gi) {
        UnstructuredGrid* g = maybe_split(gi); const int k = interior(g), nc = g->number_of_cells; destroy_grid(g);
        for (int kr = 0; kr < NKR; ++kr) for (int pc = 0; pc < 4; ++pc) for (int gr = 0; gr < 3; ++gr) for (int old = 0; old < 2; ++old) for (int d = 0; d < 4; ++d) {
            if (!T && (kr + pc + 2 * gr + 3 * old + d) % (nc > 5 ? 48 : nc > 4 ? 16 : 4)) continue;
            if (T && (kr + pc + 2 * gr + 3 * old + d) % (nc > 5 ? 6 : 1)) continue;
            std::vector<int> s(k, 0);
            do fields(gi, kr, pc, gr, old, dts[d], s, nc > 5 ? 243 : nc > 4 ? (T ? 27 : 61) : T ? 7 : 20); while (vh::next(s, 3));
        }
    }
    for (int gi = fl::LARGE; gi < fl::NLARGE; ++gi) for (int kr = 0; kr < NKR; ++kr) for (int pc = 0; pc < 4; ++pc) for (int gr = 0; gr < 3; ++gr) if (T || (kr + pc + gr + gi) % 3 == 0) { large(gi, kr, pc, gr, pc & 1, 0.05); large(gi, kr, pc, gr, gr & 1, T ? 3 : 0.3); }
    for (int gi = 0; gi <= fl::NGRID; ++gi) for (int kr = 0; kr < NKR; ++kr) for (int pc = 0; pc < 4; pc += 3) for (int n = 2; n <= (T ? 4 : 2); ++n) { std::vector<int> h(n, 0); do history(gi, kr, pc, h); while (vh::next(h, 5)); }
    for (int less = 0; less < 2; ++less) if (vh::begin(vh::fmt("porevolume/%d", less))) {
        Setup S(7, 0, 0, 0, true); TwophaseState st; st.init(*S.g, 2); V src(4, 0.0), pv(S.pv); pv[0] *= less ? 0.99 : 1.01; bool threw = false;
        { fl::Quiet q; try { S.solver->solve(&pv[0], &src[0], 1, st); } catch (const std::exception&) { threw = true; } }
        VH_CHECK(threw, "refuse", "changed pore volume accepted");
    }
    if (vh::begin("threephase")) {
        UnstructuredGrid* g = fl::grid(7); fl::Incomp p(g, 3); p.mu.push_back(1); p.rho.push_back(1); bool threw = false; V pv(4, 1.0), ht(16, 1.0); parameter::ParameterGroup pa;
        { fl::Quiet q; try { TransportSolverTwophaseImplicit s(*g, p, pv, 0, ht, pa); } catch (const std::exception&) { threw = true; } }
        VH_CHECK(threw, "refuse", "three phases accepted");
        destroy_grid(g);
    }
}
