// IncompTpfa / ifs_tpfa on every combination of boundary conditions, wells, rock and gravity on small
// grids, against a dense extended-precision solution of the same balance equations.
#include "flow.hpp"
#include <cctype>
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/pressure/FlowBCManager.hpp>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/tpfa/ifs_tpfa.h>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace fl;

// well letters: '.' none, 'b' bhp, 'r' reservoir rate, 's' shut; capitals: the first cell is perforated twice
struct Setup {
    const UnstructuredGrid* g;
    Incomp* props;
    std::vector<double> sat, src;
    const double* grav;
    std::vector<int> bc;      // per face: 0 none, 1 pressure, 2 flux
    std::vector<double> bcv;
    Wells* W;
};
struct Ref { std::vector<LD> p, flux, bhp, perf; bool neumann, ok; };

static void mobility(const Setup& s, int c, LD& mob, LD& rhow, LD& rhos)
{
    LD l = 0, r = 0, ss = 0, sr = 0;
    for (int p = 0; p < 2; ++p) {
        LD sp = s.sat[2 * c + p], lam = sp * sp / s.props->mu[p];
        l += lam; r += lam * s.props->rho[p];
        ss += sp; sr += sp * s.props->rho[p];
    }
    mob = l; rhow = r / l; rhos = sr / ss;
}

// accum: per-cell extra diagonal a and rhs contribution a*p0 (rock compressibility, linear)
static Ref reference(const Setup& s, const std::vector<LD>* acc = 0, const std::vector<LD>* accrhs = 0)
{
    const UnstructuredGrid* g = s.g;
    const int nc = g->number_of_cells, nf = g->number_of_faces, d = g->dimensions, nw = s.W ? s.W->number_of_wells : 0;
    Ref r; r.neumann = true; r.ok = true;
    const int n = nc + nw;
    std::vector<LD> A(n * n, 0), b(n, 0), mob(nc), rho(nc), rhos(nc);
    for (int c = 0; c < nc; ++c) { mobility(s, c, mob[c], rho[c], rhos[c]); b[c] += s.src.empty() ? 0 : s.src[c]; }
    std::vector<LD> T(nf), G(nf, 0);
    for (int f = 0; f < nf; ++f) {
        LD inv = 0;
        for (int k = 0; k < 2; ++k) {
            int c = g->face_cells[2 * f + k];
            if (c < 0) continue;
            inv += 1 / (mob[c] * halftrans(g, s.props->permeability(), c, f));
            if (s.grav) for (int i = 0; i < d; ++i)
                G[f] += (k ? -1 : 1) * rho[c] * s.grav[i] * ((LD)g->face_centroids[f * d + i] - g->cell_centroids[c * d + i]);
        }
        T[f] = 1 / inv;
        int a = g->face_cells[2 * f], q = g->face_cells[2 * f + 1];
        if (a >= 0 && q >= 0) {
            A[a * n + a] += T[f]; A[a * n + q] -= T[f]; b[a] -= T[f] * G[f];
            A[q * n + q] += T[f]; A[q * n + a] -= T[f]; b[q] += T[f] * G[f];
        } else {
            int c = a >= 0 ? a : q, sg = a >= 0 ? 1 : -1;
            if (s.bc[f] == 1) { A[c * n + c] += T[f]; b[c] += T[f] * s.bcv[f] - sg * T[f] * G[f]; r.neumann = false; }
            if (s.bc[f] == 2) b[c] += s.bcv[f];
        }
    }
    std::vector<LD> wdp(s.W ? s.W->well_connpos[nw] : 0, 0);
    for (int w = 0; w < nw; ++w) {
        WellControls* ct = s.W->ctrls[w];
        bool shut = ct->current < 0;
        for (int i = s.W->well_connpos[w]; i < s.W->well_connpos[w + 1]; ++i) {
            int c = s.W->well_cells[i];
            wdp[i] = s.grav ? rhos[c] * s.grav[d - 1] * ((LD)g->cell_centroids[c * d + d - 1] - s.W->depth_ref[w]) : 0;
            if (shut) continue;
            LD t = mob[c] * s.W->WI[i];
            A[c * n + c] += t; A[c * n + nc + w] -= t; b[c] += t * wdp[i];
            if (ct->type[ct->current] == RESERVOIR_RATE) { A[(nc + w) * n + c] -= t; A[(nc + w) * n + nc + w] += t; b[nc + w] -= t * wdp[i]; }
        }
        if (shut) A[(nc + w) * n + nc + w] = 1;
        else if (ct->type[ct->current] == BHP) { A[(nc + w) * n + nc + w] = 1; b[nc + w] = ct->target[ct->current]; r.neumann = false; }
        else b[nc + w] += ct->target[ct->current];
    }
    if (acc) { r.neumann = false; for (int c = 0; c < nc; ++c) { A[c * n + c] += (*acc)[c]; b[c] += (*accrhs)[c]; } }
    if (r.neumann) A[0] *= 2;
    std::vector<LD> x;
    r.ok = dense(A, b, x);
    if (!r.ok) return r;
    r.p.assign(x.begin(), x.begin() + nc);
    r.bhp.assign(x.begin() + nc, x.end());
    r.flux.assign(nf, 0);
    for (int f = 0; f < nf; ++f) {
        int a = g->face_cells[2 * f], q = g->face_cells[2 * f + 1];
        if (a >= 0 && q >= 0) r.flux[f] = T[f] * (x[a] - x[q] + G[f]);
        else if (s.bc[f] == 1) r.flux[f] = T[f] * (a >= 0 ? x[a] - s.bcv[f] + G[f] : s.bcv[f] - x[q] + G[f]);
        else if (s.bc[f] == 2) r.flux[f] = a >= 0 ? -s.bcv[f] : s.bcv[f];
    }
    for (int w = 0; w < nw; ++w)
        for (int i = s.W->well_connpos[w]; i < s.W->well_connpos[w + 1]; ++i) {
            int c = s.W->well_cells[i];
            r.perf.push_back(s.W->ctrls[w]->current < 0 ? 0 : mob[c] * s.W->WI[i] * (r.bhp[w] + wdp[i] - x[c]));
        }
    return r;
}

static bool cmp(const char* kind, const Setup& s, const Ref& r, const std::vector<double>& p, const std::vector<double>& flux,
                const std::vector<double>& bhp, const std::vector<double>& perf, double tol = 1e-8)
{
    vh::tr();
    const int nc = s.g->number_of_cells, nf = s.g->number_of_faces;
    LD ps = 1, fs = 1e-3L;
    for (int c = 0; c < nc; ++c) ps = std::max(ps, std::fabs(r.p[c]));
    for (size_t w = 0; w < r.bhp.size(); ++w) ps = std::max(ps, std::fabs(r.bhp[w]));
    for (int f = 0; f < nf; ++f) fs = std::max(fs, std::fabs(r.flux[f]));
    for (size_t i = 0; i < r.perf.size(); ++i) fs = std::max(fs, std::fabs(r.perf[i]));
    LD shift = r.neumann ? p[0] - r.p[0] : 0;
    for (int c = 0; c < nc; ++c)
        if (!(std::fabs(p[c] - shift - r.p[c]) <= tol * ps)) { vh::fail(kind, "pressure of cell %d is %.12g, expected %.12Lg", c, p[c], r.p[c] + shift); return false; }
    for (int f = 0; f < nf; ++f)
        if (!(std::fabs(flux[f] - r.flux[f]) <= tol * fs)) {
            vh::fail(kind, "flux of face %d (cells %d,%d) is %.12g, expected %.12Lg", f, s.g->face_cells[2 * f], s.g->face_cells[2 * f + 1], flux[f], r.flux[f]); return false; }
    if (s.W) for (int w = 0; w < s.W->number_of_wells; ++w)
        if (s.W->ctrls[w]->current >= 0 && !(std::fabs(bhp[w] - shift - r.bhp[w]) <= tol * ps)) { vh::fail(kind, "bhp of well %d is %.12g, expected %.12Lg", w, bhp[w], r.bhp[w] + shift); return false; }
    for (size_t i = 0; i < r.perf.size(); ++i)
        if (!(std::fabs(perf[i] - r.perf[i]) <= tol * fs)) { vh::fail(kind, "rate of perforation %d is %.12g, expected %.12Lg", (int)i, perf[i], r.perf[i]); return false; }
    // conservation, independently of the reference solution
    for (int c = 0; c < nc; ++c) {
        LD net = s.src.empty() ? 0 : s.src[c];
        for (int k = s.g->cell_facepos[c]; k < s.g->cell_facepos[c + 1]; ++k) { int f = s.g->cell_faces[k]; net -= (s.g->face_cells[2 * f] == c ? 1 : -1) * (LD)flux[f]; }
        if (s.W) for (size_t i = 0; i < r.perf.size(); ++i) if (s.W->well_cells[i] == c) net += perf[i];
        if (!(std::fabs(net) <= 10 * tol * fs)) { vh::fail("conservation", "cell %d has net flow %Lg", c, net); return false; }
    }
    return true;
}

static Wells* makewells(const UnstructuredGrid* g, const std::string& ws)
{
    if (ws == "..") return 0;
    Wells* W = create_wells(2, 0, 0);
    const int nc = g->number_of_cells;
    double inj[2] = { 1, 0 }, one[2] = { 1, 1 };
    for (int w = 0; w < (int)ws.size(); ++w) {
        if (ws[w] == '.') continue;
        int cells[2] = { w ? nc - 1 : 0, w ? 0 : nc / 2 };
        double wi[2] = { 0.7 + w, 1.5 };
        int tcells[3] = { cells[0], cells[0], cells[1] };
        double twi[3] = { 0.4, 0.9 + w, 1.1 };
        const bool twice = isupper(ws[w]);
        add_well(w ? PRODUCER : INJECTOR, 0.3 + 0.2 * w, twice ? 2 + (nc > 1) : nc > 1 ? 2 - w : 1, w ? 0 : inj, twice ? tcells : cells, twice ? twi : wi, w ? "P" : "I", W);
        int k = W->number_of_wells - 1;
        append_well_controls(BHP, w ? -4.0 : 9.0, 0, k, W);
        append_well_controls(RESERVOIR_RATE, w ? -0.8 : 1.3, one, k, W);
        set_current_control(k, tolower(ws[w]) == 'b' ? 0 : tolower(ws[w]) == 'r' ? 1 : -1, W);
    }
    return W;
}

static const double gravs[3][3] = { { 0, 0, 0 }, { 0, 0, 2.5 }, { 0.5, -0.25, 2.0 } };
static const double* pickgrav(int k, int dim, double* buf)
{
    if (k == 0) return 0;
    for (int i = 0; i < dim; ++i) buf[i] = 0;
    if (k == 1) buf[dim - 1] = 2.5;
    else for (int i = 0; i < dim; ++i) buf[i] = gravs[2][dim == 2 && i == 1 ? 2 : i];
    // buf has exactly dim elements behind it
    return buf;
}
static void setsat(std::vector<double>& s, int nc, int pat)
{
    s.resize(2 * nc);
    for (int c = 0; c < nc; ++c) {
        double v = pat == 0 ? 0.5 : pat == 1 ? (c % 2 ? 0.9 : 0.1) : 1.0 - 0.8 * (c + 0.5) / nc;
        s[2 * c] = v; s[2 * c + 1] = 1 - v;
    }
}
static bool compatible(Setup& s, int nbcp, const std::string& ws)
{
    // make an all-flux problem solvable: the net source goes to the last cell
    bool press = nbcp > 0;
    for (size_t i = 0; i < ws.size(); ++i) press = press || tolower(ws[i]) == 'b';
    s.src.assign(s.g->number_of_cells, 0.0);
    s.src[s.g->number_of_cells / 2] = 0.37;
    if (!press) {
        double tot = 0.37;
        for (int f = 0; f < s.g->number_of_faces; ++f) if (s.bc[f] == 2) tot += s.bcv[f];
        if (s.W) for (int w = 0; w < s.W->number_of_wells; ++w) if (s.W->ctrls[w]->current == 1) tot += s.W->ctrls[w]->target[1];
        s.src[s.g->number_of_cells - 1] -= tot;
    }
    return true;
}

static void oneconfig(int gi, const UnstructuredGrid* g, int perm, int satp, int gk, const std::vector<int>& sides, const std::string& ws)
{
    std::string sd;
    for (size_t i = 0; i < sides.size(); ++i) sd += "-pf"[sides[i]];
    if (!vh::begin(vh::fmt("solve %s perm=%d sat=%d grav=%d bc=%s wells=%s", gridname(gi), perm, satp, gk, sd.c_str(), ws.c_str()))) return;
    Incomp props(g);
    setperm(props, perm);
    Setup s; s.g = g; s.props = &props;
    std::vector<double> gbuf(g->dimensions);
    s.grav = pickgrav(gk, g->dimensions, &gbuf[0]);
    setsat(s.sat, g->number_of_cells, satp);
    s.bc.assign(g->number_of_faces, 0); s.bcv.assign(g->number_of_faces, 0.0);
    Opm::FlowBCManager bcs;
    int nbcp = 0;
    for (size_t sid = 0; sid < sides.size(); ++sid) {
        double v = sides[sid] == 1 ? 2.0 + 3.0 * sid : 0.4 - 0.3 * sid;
        if (sides[sid] == 1) bcs.pressureSide(*g, Opm::FlowBCManager::Side(sid), v);
        if (sides[sid] == 2) bcs.fluxSide(*g, Opm::FlowBCManager::Side(sid), v);
        if (!sides[sid]) continue;
        // the faces of the side, found from the cells' logical position and the face tags
        double area = 0;
        std::vector<int> ff;
        int stride = 1;
        for (int q = 0; q < int(sid) / 2; ++q) stride *= g->cartdims[q];
        for (int c = 0; c < g->number_of_cells; ++c) {
            int gc = g->global_cell ? g->global_cell[c] : c;
            if (gc / stride % g->cartdims[sid / 2] != (sid % 2 ? g->cartdims[sid / 2] - 1 : 0)) continue;
            for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k)
                if (g->cell_facetag[k] == int(sid)) { ff.push_back(g->cell_faces[k]); area += g->face_areas[g->cell_faces[k]]; }
        }
        for (size_t k = 0; k < ff.size(); ++k) {
            s.bc[ff[k]] = sides[sid];
            s.bcv[ff[k]] = sides[sid] == 1 ? v : v * g->face_areas[ff[k]] / area;
            nbcp += sides[sid] == 1;
        }
    }
    s.W = makewells(g, ws);
    compatible(s, nbcp, ws);
    Ref r = reference(s);
    if (!r.ok) { vh::fail("harness", "reference singular"); destroy_wells(s.W); return; }
    {
        Quiet q;
        Opm::LinearSolverUmfpack ls;
        Opm::IncompTpfa solver(*g, props, ls, s.grav, s.W, s.src, bcs.c_bcs());
        Opm::TwophaseState st; st.init(*g, 2); st.saturation() = s.sat;
        Opm::WellState wst; wst.init(s.W, st);
        // results must not depend on what the output arrays held before
        std::fill(st.faceflux().begin(), st.faceflux().end(), 1e30);
        std::fill(wst.perfRates().begin(), wst.perfRates().end(), -1e30);
        std::fill(wst.bhp().begin(), wst.bhp().end(), 1e30);
        solver.solve(1.0, st, wst);
        cmp("solution", s, r, st.pressure(), st.faceflux(), wst.bhp(), wst.perfRates());
        if (vh::ctx().samples.size() < 2) vh::sample(vh::ctx().cur + " p=" + vh::str(st.pressure()) + " flux=" + vh::str(st.faceflux()));
        uint64_t h = 0;
        for (size_t c = 0; c < st.pressure().size(); ++c) { long v = lrint(1e4 * st.pressure()[c]); h = vh::hash(&v, sizeof v, h); }
        vh::outcome(h);
    }
    destroy_wells(s.W);
}

// One solver object, a history of saturations and well controls.
static void history(int gi, const UnstructuredGrid* g, int gk, const std::vector<int>& ops)
{
    if (!vh::begin(vh::fmt("history %s grav=%d ops=%s", gridname(gi), gk, vh::str(ops).c_str()))) return;
    Incomp props(g);
    setperm(props, 1);
    Setup s; s.g = g; s.props = &props;
    std::vector<double> gbuf(g->dimensions);
    s.grav = pickgrav(gk, g->dimensions, &gbuf[0]);
    s.bc.assign(g->number_of_faces, 0); s.bcv.assign(g->number_of_faces, 0.0);
    s.W = makewells(g, "bb");
    s.src.assign(g->number_of_cells, 0.0);
    setsat(s.sat, g->number_of_cells, 0);
    Quiet q;
    Opm::LinearSolverUmfpack ls;
    std::vector<double> nosrc; // the solver keeps a reference to it
    Opm::IncompTpfa solver(*g, props, ls, s.grav, s.W, nosrc, 0);
    Opm::TwophaseState st; st.init(*g, 2);
    Opm::WellState wst; wst.init(s.W, st);
    for (size_t i = 0; i < ops.size(); ++i) {
        int o = ops[i];
        if (o < 3) setsat(s.sat, g->number_of_cells, o);
        else if (o == 3) set_current_control(0, 1, s.W);
        else if (o == 4) set_current_control(1, -1, s.W);
        else if (o == 5) { set_current_control(1, 0, s.W); set_current_control(0, -1, s.W); }
        else { set_current_control(0, 0, s.W); s.W->ctrls[0]->target[0] += 1.0; }
        // at least one pressure-controlled well
        bool bhp = false;
        for (int w = 0; w < 2; ++w) bhp = bhp || s.W->ctrls[w]->current == 0;
        if (!bhp) set_current_control(1, 0, s.W);
        st.saturation() = s.sat;
        solver.solve(1.0, st, wst);
        Ref r = reference(s);
        if (!cmp("history", s, r, st.pressure(), st.faceflux(), wst.bhp(), wst.perfRates())) break;
        vh::state();
    }
    destroy_wells(s.W);
}

// Rock compressibility: after solve() the nonlinear balance holds with the returned values.
// maxiter: iterations allowed; loose: change in pressure at which to stop (0: by the residual)
static void rockcase(int gi, const UnstructuredGrid* g, double cr, double dt, int gk, int satp, const std::string& ws, int bcmask, int maxiter = 500, double loose = 0)
{
    {
        // a closed system cannot take (or give) more than a part of its pore volume
        double pv = 0, q = 0.2;
        bool press = bcmask == 1 || ws.find_first_of("bB") != std::string::npos;
        for (int c = 0; c < g->number_of_cells; ++c) pv += 0.25 * g->cell_volumes[c];
        for (int f = 0; f < g->number_of_faces; ++f) if (bcmask == 2 && f % 3 == 0 && (g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0)) q += 0.2;
        for (size_t i = 0; i < ws.size(); ++i) if (tolower(ws[i]) == 'r') q += i ? -0.8 : 1.3;
        if (!press && 2 * dt * std::fabs(q) > 0.3 * pv) return;
    }
    if (!vh::begin(vh::fmt("rock %s cr=%g dt=%g grav=%d sat=%d wells=%s bc=%d%s", gridname(gi), cr, dt, gk, satp, ws.c_str(), bcmask,
                           (maxiter < 500 ? vh::fmt(" iterations=%d", maxiter) : loose > 0 ? vh::fmt(" change=%g", loose) : std::string()).c_str()))) return;
    Incomp props(g);
    setperm(props, 1);
    Setup s; s.g = g; s.props = &props;
    std::vector<double> gbuf(g->dimensions);
    s.grav = pickgrav(gk, g->dimensions, &gbuf[0]);
    setsat(s.sat, g->number_of_cells, satp);
    s.bc.assign(g->number_of_faces, 0); s.bcv.assign(g->number_of_faces, 0.0);
    Opm::FlowBCManager bcs;
    for (int f = 0; f < g->number_of_faces; ++f)
        if ((g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0) && bcmask) {
            if (f % 3 == 0) { s.bc[f] = bcmask; s.bcv[f] = bcmask == 1 ? 3.0 : 0.2; bcs.append(bcmask == 1 ? BC_PRESSURE : BC_FLUX_TOTVOL, f, s.bcv[f]); }
        }
    s.W = makewells(g, ws);
    s.src.assign(g->number_of_cells, 0.0);
    s.src[0] = 0.2;
    const int nc = g->number_of_cells;
    Quiet q;
    Opm::parameter::ParameterGroup pg;
    pg.disableOutput();
    const double bar = 1e5, pref = 1.5;
    std::ostringstream o1, o2; o1.precision(17); o2.precision(17);
    o1 << pref / bar; o2 << cr * bar;
    pg.insertParameter("rock_compressibility_pref", o1.str());
    pg.insertParameter("rock_compressibility", o2.str());
    Opm::RockCompressibility rc(pg);
    Opm::LinearSolverUmfpack ls;
    Opm::IncompTpfa solver(*g, props, &rc, ls, loose > 0 ? 0.0 : 1e-10, loose > 0 ? loose : 1e-12, maxiter, s.grav, s.W, s.src, bcs.c_bcs());
    Opm::TwophaseState st; st.init(*g, 2); st.saturation() = s.sat;
    for (int c = 0; c < nc; ++c) st.pressure()[c] = 1.0 + 0.5 * (c % 3);
    Opm::WellState wst; wst.init(s.W, st);
    // two steps: the second starts from the result of the first; then one with other targets
    for (int step = 0; step < (s.W ? 3 : 2); ++step) {
        if (step == 2)
            for (int w = 0; w < s.W->number_of_wells; ++w) {
                WellControls* ct = s.W->ctrls[w];
                if (ct->current == 0) ct->target[0] += 0.25;
                if (ct->current == 1) ct->target[1] *= 0.9;
            }
        std::vector<double> p0 = st.pressure();
        try { solver.solve(dt, st, wst); }
        catch (...) { if (maxiter < 500) { vh::outcome("refused"); break; }
            vh::fail("rock", "step %d: the solver failed: %s", step, q.s.str().substr(q.s.str().size() > 300 ? q.s.str().size() - 300 : 0).c_str()); break; }
        vh::tr();
        // nonlinear accumulation, written as a linear system about the returned pressures
        std::vector<LD> acc(nc), rhs(nc);
        for (int c = 0; c < nc; ++c) {
            LD pv = (LD)g->cell_volumes[c] * 0.25, p = st.pressure()[c];
            LD x1 = cr * (p - pref), x0 = cr * ((LD)p0[c] - pref);
            LD m1 = 1 + x1 + x1 * x1 / 2, m0 = 1 + x0 + x0 * x0 / 2;
            acc[c] = pv * cr / dt;
            rhs[c] = acc[c] * p - pv * (m1 - m0) / dt;
        }
        Ref r = reference(s, &acc, &rhs);
        const std::vector<double>& pp = st.pressure();
        LD ps = 1;
        for (int c = 0; c < nc; ++c) ps = std::max(ps, std::fabs(r.p[c]));
        for (int c = 0; c < nc; ++c)
            if (!(std::fabs(pp[c] - r.p[c]) <= (loose > 0 ? 2 * loose * (1 + cr * ps) : 1e-7 * ps))) { vh::fail("rock", "step %d: pressure of cell %d is %.12g, balance needs %.12Lg", step, c, pp[c], r.p[c]); break; }
        if (loose > 0) continue;
        LD fs = 1e-3L;
        for (size_t f = 0; f < r.flux.size(); ++f) fs = std::max(fs, std::fabs(r.flux[f]));
        for (size_t f = 0; f < r.flux.size(); ++f)
            if (!(std::fabs(st.faceflux()[f] - r.flux[f]) <= 1e-7 * fs * ps)) { vh::fail("rock", "step %d: flux of face %d is %.12g, expected %.12Lg", step, (int)f, st.faceflux()[f], r.flux[f]); break; }
        for (size_t i = 0; i < r.perf.size(); ++i)
            if (!(std::fabs(wst.perfRates()[i] - r.perf[i]) <= 1e-7 * fs * ps)) { vh::fail("rock", "step %d: rate of perforation %d is %.12g, expected %.12Lg", step, (int)i, wst.perfRates()[i], r.perf[i]); break; }
    }
    // the linear variant of the assembly
    struct ifs_tpfa_data* h = ifs_tpfa_construct(const_cast<UnstructuredGrid*>(g), s.W);
    std::vector<double> ht(g->cell_facepos[nc]), tr(g->number_of_faces), tm(nc), gp(g->cell_facepos[nc], 0.0), wdp(s.W ? s.W->well_connpos[s.W->number_of_wells] : 0), pv(nc), rcv(nc), p0(nc);
    tpfa_htrans_compute(const_cast<UnstructuredGrid*>(g), props.permeability(), &ht[0]);
    std::vector<LD> acc(nc), rhs(nc);
    for (int c = 0; c < nc; ++c) {
        LD m, a, b; mobility(s, c, m, a, b); tm[c] = m;
        pv[c] = g->cell_volumes[c] * 0.25; rcv[c] = cr * (1 + c); p0[c] = 1 + c % 2;
        acc[c] = (LD)pv[c] * rcv[c] / dt; rhs[c] = acc[c] * p0[c];
        for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k)
            if (s.grav) for (int i = 0; i < g->dimensions; ++i)
                gp[k] += (double)a * s.grav[i] * (g->face_centroids[g->cell_faces[k] * g->dimensions + i] - g->cell_centroids[c * g->dimensions + i]);
    }
    if (s.W) for (int w = 0; w < s.W->number_of_wells; ++w) for (int i = s.W->well_connpos[w]; i < s.W->well_connpos[w + 1]; ++i) {
        int c = s.W->well_cells[i]; LD m, a, b; mobility(s, c, m, a, b);
        wdp[i] = s.grav ? (double)b * s.grav[g->dimensions - 1] * (g->cell_centroids[(c + 1) * g->dimensions - 1] - s.W->depth_ref[w]) : 0;
    }
    tpfa_eff_trans_compute(const_cast<UnstructuredGrid*>(g), &tm[0], &ht[0], &tr[0]);
    struct ifs_tpfa_forces F = { &s.src[0], bcs.c_bcs(), s.W, &tm[0], wdp.empty() ? 0 : &wdp[0] };
    int ok = ifs_tpfa_assemble_comprock(const_cast<UnstructuredGrid*>(g), &F, &tr[0], &gp[0], &pv[0], &rcv[0], dt, &p0[0], h);
    VH_CHECK(ok, "rock", "assembly failed");
    ls.solve(h->A, h->b, h->x);
    std::vector<double> P(nc), FX(g->number_of_faces, 7e9), BH(2, 0.0), PR(wdp.size() + 1, 7e9);
    struct ifs_tpfa_solution soln = { &P[0], &FX[0], &BH[0], &PR[0] };
    ifs_tpfa_press_flux(const_cast<UnstructuredGrid*>(g), &F, &tr[0], h, &soln);
    Ref r = reference(s, &acc, &rhs);
    for (int c = 0; c < nc; ++c) VH_CHECK(vh::close_to(P[c], r.p[c], 1e-8, 1e-8), "rocklin", "pressure of cell %d is %.12g, expected %.12Lg", c, P[c], r.p[c]);
    for (int f = 0; f < g->number_of_faces; ++f) VH_CHECK(vh::close_to(FX[f], r.flux[f], 1e-7, 1e-7), "rocklin", "flux of face %d is %.12g, expected %.12Lg", f, FX[f], r.flux[f]);
    ifs_tpfa_destroy(h);
    destroy_wells(s.W);
}

// Systems without a solution: a cell no flow can reach, or a rate for a well without transmissibility.
// They are refused, or the results still satisfy every equation.
static void unsolvable(int gi, const UnstructuredGrid* g, int cell, int what, int wc, bool rocky)
{
    if (!vh::begin(vh::fmt("unsolvable %s cell=%d what=%d wells=%s rock=%d", gridname(gi), cell, what, wc ? "rr" : "br", (int)rocky))) return;
    Incomp props(g);
    setperm(props, 1);
    const int nc = g->number_of_cells, d = g->dimensions;
    if (what == 0) std::fill(&props.perm[cell * d * d], &props.perm[cell * d * d] + d * d, 0.0);
    Setup s; s.g = g; s.props = &props; s.grav = 0;
    setsat(s.sat, nc, 1);
    s.bc.assign(g->number_of_faces, 0); s.bcv.assign(g->number_of_faces, 0.0);
    s.W = makewells(g, wc ? "rr" : "br");
    if (what == 1) for (int i = s.W->well_connpos[1]; i < s.W->well_connpos[2]; ++i) s.W->WI[i] = 0;
    s.src.assign(nc, 0.0);
    Quiet q;
    Opm::parameter::ParameterGroup pg;
    pg.disableOutput();
    pg.insertParameter("rock_compressibility_pref", "0.00001");
    pg.insertParameter("rock_compressibility", "2000");
    Opm::RockCompressibility rc(pg);
    Opm::LinearSolverUmfpack ls;
    bool threw = false;
    Opm::TwophaseState st; st.init(*g, 2); st.saturation() = s.sat;
    std::fill(st.pressure().begin(), st.pressure().end(), 2.0);
    Opm::WellState wst; wst.init(s.W, st);
    try {
        if (rocky) { Opm::IncompTpfa solver(*g, props, &rc, ls, 1e-10, 1e-12, 50, s.grav, s.W, s.src, 0); solver.solve(1.0, st, wst); }
        else { Opm::IncompTpfa solver(*g, props, ls, s.grav, s.W, s.src, 0); solver.solve(1.0, st, wst); }
    } catch (...) { threw = true; }
    vh::tr();
    if (threw) vh::outcome("refused");
    else {
        bool fin = true;
        for (int c = 0; c < nc; ++c) fin = fin && std::isfinite(st.pressure()[c]);
        for (int f = 0; f < g->number_of_faces; ++f) fin = fin && std::isfinite(st.faceflux()[f]);
        double rate = 0;
        for (int i = s.W->well_connpos[1]; i < s.W->well_connpos[2]; ++i) rate += wst.perfRates()[i];
        VH_CHECK(fin, "unsolvable", "results are not finite, though no failure was reported");
        VH_CHECK(what == 0 || std::fabs(rate + 0.8) < 1e-8, "unsolvable", "the well gives %g for its target -0.8, though no failure was reported", rate);
    }
    destroy_wells(s.W);
}

void explore()
{
    const bool T = vh::thorough();
    static const char* wl[] = { "..", "b.", ".b", "r.", "bb", "br", "rb", "rr", "sb", "rs", "ss", "s.", "bs", "sr", ".r", ".s", "B.", "bR", "RB", "Rs", "RR" };
    const int NW = 21;
    for (int gi = LARGE; gi < NLARGE; ++gi) {
        UnstructuredGrid* g = grid(gi); const int nd = g->dimensions;
        for (int perm = 0; perm < 8; ++perm) for (int sat = 0; sat < 3; ++sat) for (int gk = 0; gk < 3; ++gk) for (int w = 0; w < NW; ++w) {
            if (!T && (perm + sat + gk + w) % 4) continue;
            std::vector<int> sides(2 * nd, 0); sides[(perm + w) % (2 * nd)] = sat; if (gk) sides[(perm + w + 1) % (2 * nd)] = (gk + w) % 3;
            oneconfig(gi, g, perm, sat, gk, sides, wl[w]);
        }
        for (int o = 0; o < (T ? 49 : 7); ++o) { std::vector<int> ops(4); for (int i = 0; i < 4; ++i) ops[i] = (o + i * (1 + o / 7)) % 7; history(gi, g, o % 3, ops); }
        for (int w = 0; w < 21; w += 4) for (int bc = 0; bc < 3; ++bc) rockcase(gi, g, 0.02, 1.0, bc, w % 3, wl[w], bc);
        destroy_grid(g);
    }
    for (int gi = 0; gi < NGRID; ++gi) {
        UnstructuredGrid* g = grid(gi);
        const int nd = g->dimensions;
        // every boundary pattern x well pattern
        std::vector<int> sides(2 * nd, 0);
        do {
            int nb = 0;
            for (int i = 0; i < 2 * nd; ++i) nb += sides[i] != 0;
            if (!T && nd == 3 && nb > 3) continue;
            for (int w = 0; w < NW; w += T || w < 10 ? 1 : w == 10 ? 7 : 1)
                for (int gk = 0; gk < 3; ++gk)
                    for (int pat = 0; pat < (T ? 8 : 2); ++pat) {
                        int perm = T ? pat : (pat ? 7 : 1), sat = (pat + w + gk) % 3;
                        if (!T && (nb + w + gk + pat) % 2 && nb > 2) continue;
                        oneconfig(gi, g, perm, sat, gk, sides, wl[w]);
                    }
        } while (vh::next(sides, 3));
        for (int c = 0; c < g->number_of_cells; ++c) for (int r = 0; r < 2; ++r) { unsolvable(gi, g, c, 0, 0, r); if (!c) { unsolvable(gi, g, c, 1, 0, r); if (r) unsolvable(gi, g, c, 1, 1, r); } }
        // every permeability x saturation x gravity pattern with wells
        for (int perm = 0; perm < 8; ++perm) for (int sat = 0; sat < 3; ++sat) for (int gk = 0; gk < 3; ++gk) for (int w = 0; w < NW; ++w)
            oneconfig(gi, g, perm, sat, gk, std::vector<int>(2 * nd, 0), wl[w]);
        // histories on one solver object
        for (int len = 2; len <= (T ? 4 : 3); ++len) {
            std::vector<int> ops(len, 0);
            do { for (int gk = 0; gk < 3; gk += T ? 1 : 2) history(gi, g, gk, ops); } while (vh::next(ops, 7));
        }
        static const double crs[] = { 1e-3, 0.02, 0.08 }, dts[] = { 0.01, 1.0, 100.0 };
        static const char* rwl[] = { "..", "b.", "br", "rr", "sb", "rs", "RB" };
        for (int a = 0; a < 3; ++a) for (int b = 0; b < (a == 2 ? 2 : 3); ++b) for (int gk = 0; gk < 3; ++gk) for (int w = 0; w < 7; ++w) for (int bc = 0; bc < 3; ++bc)
            {
            rockcase(gi, g, crs[a], dts[b], gk, (a + b + w) % 3, rwl[w], bc);
            if (gk && !T) continue;
            // few iterations: either refused or solved; a loose tolerance; a step so long that the state becomes steady
            for (int it = 1; it <= 4; ++it) rockcase(gi, g, crs[a], dts[b], gk, (a + b + w) % 3, rwl[w], bc, it);
            rockcase(gi, g, crs[a], dts[b], gk, (a + b + w) % 3, rwl[w], bc, 500, 1e-4);
            rockcase(gi, g, crs[a], dts[b], gk, (a + b + w) % 3, rwl[w], bc, 500, 1e-2);
            if (b == 0 && (bc == 1 || strchr(rwl[w], 'b')) && a < 2) rockcase(gi, g, crs[a], 1e7, gk, (a + b + w) % 3, rwl[w], bc);
        }
        destroy_grid(g);
    }
}
