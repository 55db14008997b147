// CompressibleTpfa / cfs_tpfa_residual: the volume balance, the well equations and the reported flows are
// recomputed in extended precision from the returned pressures, for every configuration and short history.
#include "flow.hpp"
#include <cctype>
#include <opm/core/pressure/CompressibleTpfa.hpp>
#include <opm/core/pressure/tpfa/cfs_tpfa_residual.h>
#include <opm/core/pressure/tpfa/compr_quant_general.h>
#include <opm/core/pressure/tpfa/compr_source.h>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace fl;
typedef std::vector<LD> V;

static V solve_np(int np, const double* A, const V& z)
{
    std::vector<LD> M(np * np), x;
    for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) M[i * np + j] = A[i + np * j];
    dense(M, z, x);
    return x;
}

struct Conf {
    const UnstructuredGrid* g; Black* f; Wells* W; double grav; double cr, pref, dt;
    double poromult(double p) const { double x = cr * (p - pref); return cr > 0 ? 1 + x + x * x / 2 : 1; }
};

// Recompute everything at the solution.  p0: pressure before the step, wdp from the state before the step.
static void verify(const char* kind, const Conf& k, const std::vector<double>& p0, const std::vector<double>& bhp0,
                   const Opm::BlackoilState& st, const Opm::WellState& ws, double tol)
{
    vh::tr();
    const UnstructuredGrid* g = k.g; Black& F = *k.f;
    const int nc = g->number_of_cells, nf = g->number_of_faces, d = g->dimensions, np = F.np, nw = k.W ? k.W->number_of_wells : 0;
    const std::vector<double>& p = st.pressure(), & z = st.surfacevol(), & s = st.saturation();
    std::vector<double> A(nc * np * np), mu(nc * np), kr(nc * np), rho(nc * np);
    F.matrix(nc, &p[0], &z[0], 0, &A[0], 0);
    F.viscosity(nc, &p[0], &z[0], 0, &mu[0], 0);
    F.relperm(nc, &s[0], 0, &kr[0], 0);
    F.density(nc, &A[0], &rho[0]);
    std::vector<V> dz(nc, V(np, 0));         // net outflow of surface volume per cell
    LD fscale = 1e-3L;
    for (int f = 0; f < nf; ++f) {
        int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
        LD tot = 0;
        LD fp = 0, den = 0;
        for (int q = 0; q < 2; ++q) { int c = q ? b : a; if (c < 0) continue; LD h = halftrans(g, F.permeability(), c, f); fp += h * p[c]; den += h; }
        VH_CHECK(vh::close_to(st.facepressure()[f], fp / den, 1e-10), kind, "face pressure %d is %.12g, expected %.12Lg", f, st.facepressure()[f], fp / den);
        if (a >= 0 && b >= 0) {
            LD T = 1 / (1 / halftrans(g, F.permeability(), a, f) + 1 / halftrans(g, F.permeability(), b, f));
            V v(np); std::vector<int> up(np);
            for (int q = 0; q < np; ++q) {
                LD zf = g->face_centroids[f * d + d - 1];
                LD gc = k.grav * (rho[a * np + q] * (zf - g->cell_centroids[a * d + d - 1]) - rho[b * np + q] * (zf - g->cell_centroids[b * d + d - 1]));
                LD dp = (LD)p[a] - p[b] + gc;
                up[q] = dp < 0 ? b : a;
                v[q] = T * kr[up[q] * np + q] / mu[up[q] * np + q] * dp;
                tot += v[q];
            }
            for (int comp = 0; comp < np; ++comp) {
                LD cf = 0;
                for (int q = 0; q < np; ++q) cf += A[up[comp] * np * np + comp + np * q] * v[q];
                dz[a][comp] += cf; dz[b][comp] -= cf;
            }
        }
        fscale = std::max(fscale, std::fabs(tot));
        VH_CHECK(std::fabs(st.faceflux()[f] - tot) <= tol * std::max(fscale, (LD)1), kind, "flux of face %d (cells %d,%d) is %.12g, expected %.12Lg", f, a, b, st.faceflux()[f], tot);
    }
    for (int w = 0; w < nw; ++w) {
        const WellControls* ct = k.W->ctrls[w];
        const bool prod = k.W->type[w] == PRODUCER;
        LD resv = 0, surf = 0;
        for (int j = k.W->well_connpos[w]; j < k.W->well_connpos[w + 1]; ++j) {
            int c = k.W->well_cells[j];
            LD wdp = 0;
            {   // density at the state before the step
                std::vector<double> a0(np * np), r0(np);
                F.matrix(1, &p0[c], &z[c * np], &c, &a0[0], 0); F.density(1, &a0[0], &r0[0]);
                for (int q = 0; q < np; ++q) wdp += (LD)s[c * np + q] * r0[q] * k.grav * (g->cell_centroids[c * d + d - 1] - k.W->depth_ref[w]);
            }
            VH_CHECK(vh::close_to(ws.perfPress()[j], ws.bhp()[w] + wdp, 1e-10, 1e-10), kind, "pressure of perforation %d is %.12g, expected %.12Lg", j, ws.perfPress()[j], ws.bhp()[w] + wdp);
            if (ct->current < 0) { VH_CHECK(ws.perfRates()[j] == 0, kind, "shut well %d has rate %g", w, ws.perfRates()[j]); continue; }
            LD dp = ws.bhp()[w] + wdp - p[c], tot = 0;
            std::vector<double> Ap(np * np), m(np);
            if (prod) { for (int i = 0; i < np * np; ++i) Ap[i] = A[c * np * np + i]; for (int q = 0; q < np; ++q) m[q] = kr[c * np + q] / mu[c * np + q]; }
            else {
                double pp = ws.bhp()[w] + (double)wdp; const double* cf = k.W->comp_frac + np * w;
                std::vector<double> mm(np), kk(np);
                F.matrix(1, &pp, cf, &c, &Ap[0], 0); F.viscosity(1, &pp, cf, &c, &mm[0], 0); F.relperm(1, cf, &c, &kk[0], 0);
                for (int q = 0; q < np; ++q) m[q] = kk[q] / mm[q];
                if (dp < 0) vh::outcome("injector flowing back");
            }
            V v(np);
            for (int q = 0; q < np; ++q) { v[q] = k.W->WI[j] * m[q] * dp; tot += v[q]; if (ct->type[ct->current] == RESERVOIR_RATE) resv += ct->distr[ct->current * np + q] * v[q]; }
            for (int comp = 0; comp < np; ++comp) {
                LD cf = 0;
                for (int q = 0; q < np; ++q) cf += Ap[comp + np * q] * v[q];
                dz[c][comp] -= cf;
                if (ct->type[ct->current] == SURFACE_RATE) surf += ct->distr[ct->current * np + comp] * cf;
            }
            VH_CHECK(std::fabs(ws.perfRates()[j] - tot) <= tol * std::max((LD)1, std::fabs(tot)), kind, "rate of perforation %d is %.12g, expected %.12Lg", j, ws.perfRates()[j], tot);
        }
        if (ct->current < 0) { VH_CHECK(ws.bhp()[w] == bhp0[w], kind, "bhp of shut well %d changed", w); continue; }
        double target = ct->target[ct->current];
        LD got = ct->type[ct->current] == BHP ? (LD)ws.bhp()[w] : ct->type[ct->current] == RESERVOIR_RATE ? resv : surf;
        VH_CHECK(std::fabs(got - target) <= tol * std::max(1.0, std::fabs(target)) * std::max(1.0, 1 / k.dt), kind, "well %d gives %.12Lg for its target %.12g (control type %d)", w, got, target, (int)ct->type[ct->current]);
    }
    for (int c = 0; c < nc; ++c) {
        LD pv0 = (LD)g->cell_volumes[c] * F.poro[c] * k.poromult(p0[c]), pv = (LD)g->cell_volumes[c] * F.poro[c] * k.poromult(p[c]);
        V m(np);
        for (int q = 0; q < np; ++q) m[q] = z[c * np + q] * pv0 - k.dt * dz[c][q];
        V u = solve_np(np, &A[c * np * np], m);
        LD r = pv;
        for (int q = 0; q < np; ++q) r -= u[q];
        VH_CHECK(std::fabs(r) <= tol * std::max((LD)1, std::max(pv, (LD)k.dt)), kind, "cell %d: fluid volume differs from the pore volume by %Lg", c, r);
    }
}

// well letters: '.' none, 'b' bhp, 'r' reservoir rate, 'q' surface rate, 's' shut; capitals: the first cell is perforated twice
static Wells* makewells(const UnstructuredGrid* g, int np, const std::string& ws)
{
    if (ws == "..") return 0;
    Wells* W = create_wells(np, 0, 0);
    const int nc = g->number_of_cells;
    double inj[3] = { 1, 0, 0 }, rd[3] = { 1, 1, 1 }, sd[3] = { 1, 0, 0 }, sp[3] = { 0, 1, 0 };
    for (int w = 0; w < (int)ws.size(); ++w) {
        if (ws[w] == '.') continue;
        int cells[2] = { w ? nc - 1 : 0, w ? 0 : nc / 2 };
        double wi[2] = { 0.7 + w, 1.5 };
        int tcells[3] = { cells[0], cells[0], cells[1] };
        double twi[3] = { 0.4, 0.9 + w, 1.1 };
        const bool twice = isupper(ws[w]);
        add_well(w ? PRODUCER : INJECTOR, 0.3 + 0.2 * w, twice ? 2 + (nc > 1) : w ? 1 : 2, w ? 0 : inj, twice ? tcells : cells, twice ? twi : wi, w ? "P" : "I", W);
        int k = W->number_of_wells - 1;
        append_well_controls(BHP, w ? -2.0 : 12.0, 0, k, W);
        append_well_controls(RESERVOIR_RATE, w ? -0.8 : 0.9, rd, k, W);
        append_well_controls(SURFACE_RATE, w ? -0.1 : 0.7, w ? sp : sd, k, W);
        const int l = tolower(ws[w]);
        set_current_control(k, l == 'b' ? 0 : l == 'r' ? 1 : l == 'q' ? 2 : -1, W);
    }
    return W;
}

static void setstate(const Black& F, const UnstructuredGrid* g, int pat, Opm::BlackoilState& st)
{
    const int nc = g->number_of_cells, np = F.np, d = g->dimensions;
    st.surfacevol().resize(nc * np);
    for (int c = 0; c < nc; ++c) {
        double v = pat == 3 ? (c ? 1 : 0.4) : pat == 0 ? 0.5 : pat == 1 ? (c % 2 ? 0.7 : 0.3) : 1.0 - 0.8 * (c + 0.5) / nc;
        double* s = &st.saturation()[c * np];
        s[0] = v; s[1] = np == 3 ? (1 - v) * 0.6 : 1 - v; if (np == 3) s[2] = 1 - s[0] - s[1];
        st.pressure()[c] = 3.0 + 0.3 * (c % 3);
        std::vector<double> A(np * np);
        F.matrix(1, &st.pressure()[c], 0, &c, &A[0], 0);
        for (int i = 0; i < np; ++i) { st.surfacevol()[c * np + i] = 0; for (int j = 0; j < np; ++j) st.surfacevol()[c * np + i] += A[i + np * j] * s[j]; }
    }
    (void)d;
}
static Opm::RockCompressibility* rock(double cr, double pref)
{
    Opm::parameter::ParameterGroup pg;
    pg.disableOutput();
    std::ostringstream o1, o2; o1.precision(17); o2.precision(17);
    o1 << pref / 1e5; o2 << cr * 1e5;
    pg.insertParameter("rock_compressibility_pref", o1.str());
    pg.insertParameter("rock_compressibility", o2.str());
    return new Opm::RockCompressibility(pg);
}

// a sequence of steps on one solver; each op changes controls or the state first (-1: nothing)
static void run(const std::string& id, const UnstructuredGrid* g, int np, int kind, double cr, double dt, double grav, int pat, const std::string& wl, const std::vector<int>& ops, int maxiter = 60)
{
    if (!vh::begin(id)) return;
    Black F(g, np, kind);
    Wells* W = makewells(g, np, wl);
    Conf k = { g, &F, W, grav, cr, 2.0, dt };
    Quiet q;
    std::vector<double> gv(g->dimensions, 0.0); gv.back() = grav;
    Opm::RockCompressibility* rc = rock(cr, 2.0);
    Opm::LinearSolverUmfpack ls;
    {
        Opm::CompressibleTpfa solver(*g, F, cr > 0 ? rc : 0, ls, 1e-10 * std::min(1.0, dt), 0.0, maxiter, grav ? &gv[0] : 0, W);
        Opm::BlackoilState st; st.init(*g, np);
        setstate(F, g, pat, st);
        Opm::WellState wst; wst.init(W, st);
        for (size_t i = 0; i < ops.size(); ++i) {
            int o = ops[i];
            if (o >= 0 && o < 3) { std::vector<double> keep = st.pressure(); setstate(F, g, o, st); }
            else if (o == 3) set_current_control(0, 1, W);
            else if (o == 4) set_current_control(1, -1, W);
            else if (o == 5) { set_current_control(1, 0, W); set_current_control(0, -1, W); }
            else if (o == 6) { set_current_control(0, 2, W); set_current_control(1, 2, W); }
            else if (o == 7) { set_current_control(0, 0, W); W->ctrls[0]->target[0] += 1.0; }
            else if (o == 8) { set_current_control(0, 0, W); W->ctrls[0]->target[0] = 2.5; }
            else if (o == 9) { set_current_control(0, 1, W); W->ctrls[0]->target[1] = 0.01; }
            else if (o == 10) { set_current_control(0, -1, W); set_current_control(1, -1, W); }
            bool press = kind != 0 || cr > 0, rate = false;
            if (W) for (int w = 0; w < W->number_of_wells; ++w) { press = press || W->ctrls[w]->current == 0; rate = rate || W->ctrls[w]->current > 0; }
            if (!press && rate) break; // no solution
            std::vector<double> p0 = st.pressure(), b0 = wst.bhp();
            std::fill(st.faceflux().begin(), st.faceflux().end(), 1e30);
            std::fill(wst.perfRates().begin(), wst.perfRates().end(), -1e30);
            try { solver.solve(dt, st, wst); }
            catch (...) { if (pat == 3 && wl.size() == 2 && tolower(wl[1]) == 'q') { vh::outcome("rate of what the cell does not hold"); break; }
                if (maxiter < 60) { vh::outcome("refused"); break; }
                if (grav != 0) { vh::outcome("did not converge"); break; } // the upwind directions may cycle
                std::string m = q.s.str(); vh::fail("converge", "step %d: the solver failed: %s", (int)i, m.substr(m.size() > 400 ? m.size() - 400 : 0).c_str()); break; }
            VH_CHECK(solver.singularPressure() == !press, "singular", "step %d: singularPressure is %d", (int)i, (int)solver.singularPressure());
            verify("balance", k, p0, b0, st, wst, 1e-8);
            uint64_t h = 0;
            for (size_t c = 0; c < st.pressure().size(); ++c) { long v = lrint(1e4 * st.pressure()[c]); h = vh::hash(&v, sizeof v, h); }
            vh::outcome(h); vh::state();
        }
        if (vh::ctx().samples.size() < 2) vh::sample(id + " p=" + vh::str(st.pressure()) + " rates=" + vh::str(wst.perfRates()));
    }
    delete rc;
    if (W) destroy_wells(W);
}

// Assembly: the matrix is the derivative of the residual with upwind quantities held fixed.
static void jacobian(int gi, const UnstructuredGrid* g, int np, int kind, int pat, const std::string& wl, int rockc, int nsrc)
{
    if (!vh::begin(vh::fmt("jacobian %s np=%d fluid=%d pattern=%d wells=%s rock=%d src=%d", gridname(gi), np, kind, pat, wl.c_str(), rockc, nsrc))) return;
    Black F(g, np, kind);
    Wells* W = makewells(g, np, wl);
    const int nc = g->number_of_cells, nf = g->number_of_faces, nw = W ? W->number_of_wells : 0, nperf = W ? W->well_connpos[nw] : 0;
    const double dt = 0.37;
    UnstructuredGrid* G = const_cast<UnstructuredGrid*>(g);
    cfs_tpfa_res_wells cw = { W, 0 };
    CompletionData cd;
    cfs_tpfa_res_data* h = cfs_tpfa_res_construct(G, &cw, np);
    std::vector<double> p(nc), bhp(nw + 1), z(nc * np), Ac(nc * np * np), dAc(nc * np * np), Af(nf * np * np), mf(nf * np), gc(nf * np), tr(nf), pv(nc), pv0(nc), rcomp(nc);
    std::vector<double> wdp(nperf + 1), wA(nperf * np * np + 1), wm(nperf * np + 1), vd(nc, 0.0);
    for (int c = 0; c < nc; ++c) {
        p[c] = 2 + 0.7 * ((c * 5 + pat) % 7);
        for (int q = 0; q < np; ++q) z[c * np + q] = 0.2 + 0.13 * ((c + q + pat) % 4);
        pv0[c] = 0.5 + 0.2 * (c % 3); rcomp[c] = rockc ? 0.03 * (1 + c % 2) : 0; pv[c] = pv0[c] * (1 + (rockc ? 0.01 * c : 0));
    }
    F.matrix(nc, &p[0], 0, 0, &Ac[0], &dAc[0]);
    for (int f = 0; f < nf; ++f) {
        tr[f] = 0.3 + 0.1 * (f % 5);
        double pf = 1.5 + 0.3 * (f % 4);
        F.matrix(1, &pf, 0, 0, &Af[f * np * np], 0);
        for (int q = 0; q < np; ++q) { mf[f * np + q] = 0.1 + 0.2 * ((f + q) % 3); gc[f * np + q] = 0.15 * ((f + 2 * q) % 5) - 0.2; }
    }
    for (int j = 0; j < nperf; ++j) {
        wdp[j] = 0.2 * j - 0.1; double pp = 4 + j;
        F.matrix(1, &pp, 0, 0, &wA[j * np * np], 0);
        for (int q = 0; q < np; ++q) wm[j * np + q] = 0.3 + 0.2 * ((j + q) % 3);
    }
    for (int w = 0; w < nw; ++w) bhp[w] = 5 + 2 * w;
    cd.wdp = &wdp[0]; cd.A = &wA[0]; cd.phasemob = &wm[0];
    cw.data = &cd;
    compr_src* src = nsrc ? compr_src_allocate(np, 0) : 0;
    double ss[3] = { 1, 0, 0 };
    for (int i = 0; i < nsrc; ++i) VH_CHECK(append_compr_source_term((i + 1) * 2 % nc, np, 0.3 - 0.5 * i, ss, src), "jacobian", "source not appended");
    cfs_tpfa_res_forces fo = { &cw, src };
    compr_quantities_gen cq; cq.nphases = np; cq.Ac = &Ac[0]; cq.dAc = &dAc[0]; cq.Af = &Af[0]; cq.phasemobf = &mf[0]; cq.voldiscr = &vd[0];
    const int n = nc + nw;
    bool pressctl = kind != 0 || rockc;
    for (int w = 0; w < nw; ++w) pressctl = pressctl || W->ctrls[w]->current == 0;
    struct Eval {
        static int at(UnstructuredGrid* G, double dt, cfs_tpfa_res_forces& fo, std::vector<double>& z, compr_quantities_gen& cq, std::vector<double>& tr, std::vector<double>& gc,
                      const double* p, const double* b, std::vector<double>& pv, std::vector<double>& pv0, std::vector<double>& rc, int rockc, cfs_tpfa_res_data* h) {
            return rockc ? cfs_tpfa_res_comprock_assemble(G, dt, &fo, &z[0], &cq, &tr[0], &gc[0], p, b, &pv[0], &pv0[0], &rc[0], h)
                : cfs_tpfa_res_assemble(G, dt, &fo, &z[0], &cq, &tr[0], &gc[0], p, b, &pv0[0], h);
        }
    };
    int sing = Eval::at(G, dt, fo, z, cq, tr, gc, &p[0], &bhp[0], pv, pv0, rcomp, rockc, h);
    VH_CHECK(sing == !pressctl, "jacobian", "singularity reported as %d", sing);
    std::vector<double> J(n * n, 0.0), F0(h->F, h->F + n);
    VH_CHECK((int)h->J->m == n, "jacobian", "matrix has %d rows", (int)h->J->m);
    for (int i = 0; i < n; ++i) for (int q = h->J->ia[i]; q < h->J->ia[i + 1]; ++q) J[i * n + h->J->ja[q]] += h->J->sa[q];
    if (sing) J[0] /= 2;
    // the residual itself
    {
        std::vector<V> dz(nc, V(np, 0)), out(nc, V(np, 0));
        std::vector<LD> E(n, 0), wsum(nw + 1, 0);
        for (int f = 0; f < nf; ++f) {
            int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
            if (a < 0 || b < 0) continue;
            for (int i = 0; i < np; ++i) { LD cf = 0; for (int q = 0; q < np; ++q) cf += Af[f * np * np + i + np * q] * (tr[f] * mf[f * np + q] * ((LD)p[a] - p[b] + gc[f * np + q])); dz[a][i] += cf; dz[b][i] -= cf; }
        }
        for (int w = 0; w < nw; ++w) {
            WellControls* ct = W->ctrls[w];
            LD mob = 0;
            for (int j = W->well_connpos[w]; j < W->well_connpos[w + 1]; ++j) {
                int c = W->well_cells[j]; LD dp = (LD)bhp[w] + wdp[j] - p[c];
                for (int i = 0; i < np; ++i) {
                    LD cf = 0; for (int q = 0; q < np; ++q) cf += wA[j * np * np + i + np * q] * (W->WI[j] * wm[j * np + q] * dp);
                    mob += W->WI[j] * wm[j * np + i];
                    if (ct->current < 0) continue;
                    dz[c][i] -= cf;
                    if (ct->type[ct->current] == RESERVOIR_RATE) E[nc + w] += dt * ct->distr[ct->current * np + i] * W->WI[j] * wm[j * np + i] * dp;
                    if (ct->type[ct->current] == SURFACE_RATE) E[nc + w] += dt * ct->distr[ct->current * np + i] * cf;
                }
            }
            if (ct->current >= 0) E[nc + w] -= ct->type[ct->current] == BHP ? -dt * mob * (bhp[w] - ct->target[0]) : dt * ct->target[ct->current];
        }
        for (int c = 0; c < nc; ++c) {
            V m(np);
            for (int i = 0; i < np; ++i) m[i] = (LD)z[c * np + i] * pv0[c] - dt * dz[c][i];
            V u = solve_np(np, &Ac[c * np * np], m);
            E[c] = rockc ? pv[c] : pv0[c];
            for (int i = 0; i < np; ++i) E[c] -= u[i];
        }
        for (int i = 0; i < nsrc; ++i) E[(i + 1) * 2 % nc] -= dt * (0.3 - 0.5 * i);
        for (int i = 0; i < n; ++i) VH_CHECK(vh::close_to(F0[i], E[i], 1e-9, 1e-10), "jacobian", "residual %d is %.12g, expected %.12Lg", i, F0[i], E[i]);
    }
    // and its derivatives
    const double eps = 1e-4;
    for (int j = 0; j < n; ++j) {
        std::vector<double> Fp[2];
        for (int sgn = 0; sgn < 2; ++sgn) {
            std::vector<double> pp = p, bb = bhp, A2 = Ac, pv2 = pv;
            double e = sgn ? eps : -eps;
            if (j < nc) { pp[j] += e; for (int i = 0; i < np * np; ++i) A2[j * np * np + i] += e * dAc[j * np * np + i]; pv2[j] += e * pv[j] * rcomp[j]; }
            else bb[j - nc] += e;
            cq.Ac = &A2[0];
            Eval::at(G, dt, fo, z, cq, tr, gc, &pp[0], &bb[0], pv2, pv0, rcomp, rockc, h);
            Fp[sgn].assign(h->F, h->F + n);
            vh::tr();
        }
        for (int i = 0; i < n; ++i) {
            double fd = (Fp[1][i] - Fp[0][i]) / (2 * eps);
            if (i >= nc && W->ctrls[i - nc]->current < 0) {
                VH_CHECK(i == j ? J[i * n + j] != 0 : J[i * n + j] == 0, "jacobian", "entry (%d,%d) of a shut well's row is %g", i, j, J[i * n + j]);
                continue;
            }
            if (!(std::fabs(J[i * n + j] - fd) <= 1e-6 * std::max(1.0, std::fabs(fd)))) { vh::fail("jacobian", "entry (%d,%d) is %.10g, the residual changes by %.10g", i, j, J[i * n + j], fd); i = j = n; break; }
        }
    }
    if (src) compr_src_deallocate(src);
    cfs_tpfa_res_destroy(h);
    if (W) destroy_wells(W);
}

void explore()
{
    const bool T = vh::thorough();
    static const char* wl[] = { "..", "b.", ".b", "bb", "br", "rb", "bq", "qb", "qr", "rr", "sb", "bs", "rs", "ss", "qs", "s.", "qq", "rq", ".q", "q.", "B.", "bR", "QB", "Bs", "RB" };
    for (int gi = LARGE; gi < NLARGE; ++gi) {
        UnstructuredGrid* g = grid(gi);
        for (int np = 2; np <= 3; ++np) for (int kind = 0; kind < 4; kind += np == 2 && kind == 1 ? 2 : 1) for (int pat = 0; pat < 3; ++pat) for (int w = 0; w < 25; ++w) {
            if (!T && (np + kind + pat + w + gi) % 8) continue;
            if (strpbrk(wl[w], "bB")) run(vh::fmt("solve %s np=%d fluid=%d pattern=%d wells=%s", gridname(gi), np, kind, pat, wl[w]), g, np, kind, w % 2 ? 0.02 : 0, 0.2, pat == 1 ? 1.5 : 0, pat, wl[w], std::vector<int>(T ? 3 : 2, -1), gi == LARGE + 2 ? 20 : 60);
            jacobian(gi, g, np, kind, pat, wl[w], w % 2, w % 3);
        }
        destroy_grid(g);
    }
    for (int gi = 0; gi < NGRID; ++gi) {
        UnstructuredGrid* g = grid(gi);
        const double dts[] = { 0.01, 0.2, 1.0 };
        for (int np = 2; np <= 3; ++np) for (int kind = 0; kind < 4; kind += np == 2 && kind == 1 ? 2 : 1)
            for (int pat = 0; pat < (kind == 3 ? 4 : 3); ++pat) for (int w = 0; w < 25; ++w) for (int gk = 0; gk < 2; ++gk) {
                for (int ri = 0; ri < 2; ++ri) for (int di = 0; di < 3; ++di) {
                    if (!T && (pat + w + gk + ri + di) % 2) continue;
                    double cr = ri ? 0.02 : 0;
                    // rates on a closed incompressible system must balance
                    bool press = strpbrk(wl[w], "bB") != 0;
                    bool rate = strpbrk(wl[w], "rqRQ") != 0;
                    if (!press && rate && kind == 0 && !ri) continue;
                    double pv = 0;
                    for (int c = 0; c < g->number_of_cells; ++c) pv += 0.25 * g->cell_volumes[c];
                    if (!press && dts[di] * 1.2 > 0.02 * pv) continue;
                    run(vh::fmt("solve %s np=%d fluid=%d rock=%d dt=%g grav=%d pattern=%d wells=%s", gridname(gi), np, kind, ri, dts[di], gk, pat, wl[w]),
                        g, np, kind, cr, dts[di], gk ? 1.5 : 0, pat, wl[w], std::vector<int>(T ? 3 : 2, -1));
                    // few iterations: either refused or solved
                    if (gk == 0 && ri && pat < 2 + T) for (int it = 1; it <= 3; ++it)
                        run(vh::fmt("solve %s np=%d fluid=%d rock=%d dt=%g grav=%d pattern=%d wells=%s iterations=%d", gridname(gi), np, kind, ri, dts[di], gk, pat, wl[w], it),
                            g, np, kind, cr, dts[di], gk ? 1.5 : 0, pat, wl[w], std::vector<int>(2, -1), it);
                }
                if (pat < 2 && gk == 0)
                    for (int rk = 0; rk < 2; ++rk) for (int ns = 0; ns < 3; ++ns) jacobian(gi, g, np, kind, pat, wl[w], rk, ns);
            }
        for (int np = 2; np <= 3; ++np) for (int len = 2; len <= (T ? 4 : 2); ++len) {
            std::vector<int> ops(len, 0);
            do {
                run(vh::fmt("history %s np=%d ops=%s", gridname(gi), np, vh::str(ops).c_str()), g, np, np - 1, 0.02, 0.05, 1.5, 0, "bb", ops);
                run(vh::fmt("incompressible history %s np=%d ops=%s", gridname(gi), np, vh::str(ops).c_str()), g, np, 0, 0, 0.05, 0, 0, "bb", ops);
            } while (vh::next(ops, 11));
        }
        destroy_grid(g);
    }
}
