// The older compressible two-point solver (explicit interface: assemble, flux, face pressure, explicit transport,
// stable step): every grid, phase count, boundary condition, well set, gravity and call history in extended precision.
#define FLOW_NO_WELLS
#include "flow.hpp"
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/legacy_well.h>
#include <opm/core/pressure/tpfa/cfs_tpfa.h>
#include <opm/core/pressure/tpfa/compr_quant.h>
#include <opm/core/linalg/sparse_sys.h>
using namespace fl;
typedef std::vector<double> DV;
typedef std::vector<LD> V;

// deterministic, uneven numbers
static double rnd(int a, int b) { unsigned h = 2166136261u; h = (h ^ a) * 16777619u; h = (h ^ b) * 16777619u; h ^= h >> 13; h *= 2654435761u; return (h >> 8 & 0xffff) / 65536.0; }

struct Wl { int kind; double target; std::vector<int> cells; }; // kind 0 pressure, 1 rate
struct Cs {
    const UnstructuredGrid* g; int np, fluid, salt; bool grav, src; double dt;
    std::vector<std::pair<int, double> > pbc, fbc;
    std::vector<Wl> wells;
};
struct Data { DV Ac, Af, mob, ct, vd, trans, gc, src, p0, pv, WI, gpot, wA, wmob; };

static void matrix(double* A, int np, int fluid, int a, int b)
{
    for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j)
        A[i + np * j] = fluid == 0 ? i == j : i == j ? 1 + rnd(a, 10 * b + i) : fluid == 1 ? (i > j ? 0.5 * rnd(a + 7, b + 3 * i) : 0) : 0.6 * (rnd(a + 9, b + 5 * i + j) - 0.5);
}
static Data make(const Cs& k)
{
    Data D;
    const int nc = k.g->number_of_cells, nf = k.g->number_of_faces, np = k.np, S = 100 * k.salt;
    D.Ac.resize(nc * np * np); D.Af.resize(nf * np * np);
    for (int c = 0; c < nc; ++c) matrix(&D.Ac[c * np * np], np, k.fluid, 3 + S, c);
    for (int f = 0; f < nf; ++f) matrix(&D.Af[f * np * np], np, k.fluid, 5 + S, f);
    for (int f = 0; f < nf; ++f) {
        D.trans.push_back(0.25 + rnd(11 + S, f));
        for (int p = 0; p < np; ++p) { D.mob.push_back(rnd(13 + S, f * np + p) < 0.15 ? 0 : 0.1 + rnd(14 + S, f * np + p)); D.gc.push_back(k.grav ? rnd(17 + S, f * np + p) * 4 - 2 : 0); }
        if (D.mob[f * np] == 0) D.mob[f * np] = 0.3;
    }
    for (int c = 0; c < nc; ++c) {
        D.ct.push_back(k.fluid == 0 ? 0 : k.fluid == 1 ? 0.1 + rnd(19 + S, c) : c % 2 ? 0.2 : 0);
        D.vd.push_back(k.fluid ? rnd(23 + S, c) - 0.5 : 0);
        D.src.push_back(k.src ? rnd(29 + S, c) - 0.5 : 0);
        D.p0.push_back(5 + rnd(31 + S, c)); D.pv.push_back(0.5 + rnd(37 + S, c));
    }
    int n = 0;
    for (size_t w = 0; w < k.wells.size(); ++w) for (size_t j = 0; j < k.wells[w].cells.size(); ++j, ++n) {
        D.WI.push_back(0.5 + rnd(41 + S, n));
        D.wA.resize((n + 1) * np * np);
        matrix(&D.wA[n * np * np], np, k.fluid, 43 + S, n);
        for (int p = 0; p < np; ++p) { D.wmob.push_back(0.2 + rnd(47 + S, n * np + p)); D.gpot.push_back(k.grav ? rnd(53 + S, n * np + p) * 2 - 1 : 0); }
    }
    return D;
}
// Handle-owned C structures for a case
struct Sys {
    compr_quantities cq; FlowBoundaryConditions* bc; well_t W; well_control_t ct; completion_data cd;
    std::vector<int> pos, cells; std::vector<well_type> type; std::vector<well_control> ctrl; DV target, zfrac; bool wells, group;
    Sys(const Cs& k, Data& D, bool grp) : bc(0), wells(!k.wells.empty()), group(grp) {
        cq.nphases = k.np; cq.totcompr = &D.ct[0]; cq.voldiscr = &D.vd[0]; cq.Ac = &D.Ac[0]; cq.Af = &D.Af[0]; cq.phasemobf = &D.mob[0];
        if (!k.pbc.empty() || !k.fbc.empty()) {
            bc = flow_conditions_construct(0);
            for (size_t i = 0; i < k.fbc.size() && i < 1; ++i) flow_conditions_append(BC_FLUX_TOTVOL, k.fbc[i].first, k.fbc[i].second, bc);
            // equal pressures on several faces in one condition
            std::vector<int> m;
            for (size_t i = 0; i < k.pbc.size(); ++i) { if (group && k.pbc[i].second == k.pbc[0].second) m.push_back(k.pbc[i].first); else flow_conditions_append(BC_PRESSURE, k.pbc[i].first, k.pbc[i].second, bc); }
            if (!m.empty()) flow_conditions_append_multi(BC_PRESSURE, m.size(), &m[0], k.pbc[0].second, bc);
            for (size_t i = 1; i < k.fbc.size(); ++i) flow_conditions_append(BC_FLUX_TOTVOL, k.fbc[i].first, k.fbc[i].second, bc);
        }
        pos.push_back(0);
        for (size_t w = 0; w < k.wells.size(); ++w) {
            cells.insert(cells.end(), k.wells[w].cells.begin(), k.wells[w].cells.end()); pos.push_back(cells.size());
            type.push_back(w % 2 ? PRODUCER : INJECTOR); ctrl.push_back(k.wells[w].kind ? RATE : BHP); target.push_back(k.wells[w].target);
        }
        zfrac.assign(3 * k.wells.size() + 1, 1.0 / k.np);
        if (wells) {
            W.number_of_wells = k.wells.size(); W.well_connpos = &pos[0]; W.well_cells = &cells[0];
            ct.type = &type[0]; ct.ctrl = &ctrl[0]; ct.target = &target[0]; ct.zfrac = &zfrac[0];
            cd.WI = &D.WI[0]; cd.gpot = &D.gpot[0]; cd.A = &D.wA[0]; cd.phasemob = &D.wmob[0];
        }
    }
    ~Sys() { if (bc) flow_conditions_destroy(bc); }
};

static V mul(const double* A, int np, const V& x) { V y(np, 0); for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) y[i] += (LD)A[i + np * j] * x[j]; return y; }
static LD vol(const double* Ac, int np, const V& z) { std::vector<LD> M(np * np), x; for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) M[i * np + j] = Ac[i + np * j]; dense(M, z, x); LD s = 0; for (int i = 0; i < np; ++i) s += x[i]; return s; }

static void run(const char* id, const Cs& k, bool group, int hist)
{
    (void)id;
    UnstructuredGrid* g = const_cast<UnstructuredGrid*>(k.g);
    const int nc = g->number_of_cells, nf = g->number_of_faces, np = k.np, nw = k.wells.size(), n = nc + nw;
    Data D = make(k);
    Sys s(k, D, group);
    well_t* W = nw ? &s.W : 0;
    cfs_tpfa_data* h = cfs_tpfa_construct(g, W, np);
    if (!h) { vh::fail("construct", "no solver object"); return; }
    if (hist) {
        // the same object was used for another step before (other fluid data, boundary conditions and controls)
        Cs o = k; o.salt = 7; o.dt = 3.5; o.grav = true; o.src = true; if (o.fluid == 0) o.fluid = 1;
        o.pbc.clear(); o.fbc.clear();
        for (size_t w = 0; w < o.wells.size(); ++w) o.wells[w].kind = !o.wells[w].kind;
        if (hist == 2) o.pbc.push_back(std::make_pair(g->cell_faces[0], 2.0));
        for (int f = 0; f < nf && o.pbc.size() == 1; ++f) if (g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0) { o.pbc[0].first = f; break; }
        Data E = make(o);
        Sys t(o, E, false);
        cfs_tpfa_assemble(g, o.dt, nw ? &t.W : 0, t.bc, &E.src[0], &t.cq, &E.trans[0], &E.gc[0], nw ? &t.ct : 0, nw ? &t.cd : 0, &E.p0[0], &E.pv[0], h);
        for (int i = 0; i < n; ++i) h->x[i] = 1 + i;
    }
    cfs_tpfa_assemble(g, k.dt, W, s.bc, &D.src[0], &s.cq, &D.trans[0], &D.gc[0], nw ? &s.ct : 0, nw ? &s.cd : 0, &D.p0[0], &D.pv[0], h);
    vh::tr();
    // reference
    V A((size_t)n * n, 0), b(n, 0), mt(nf * np), gt(nf * np, 0);
    std::map<int, double> pb(k.pbc.begin(), k.pbc.end());
    bool fixed = false, compr = false;
    for (int f = 0; f < nf; ++f) {
        const int a = g->face_cells[2 * f], c2 = g->face_cells[2 * f + 1];
        const bool inner = a >= 0 && c2 >= 0, pres = pb.count(f) > 0;
        V m(np), q(np);
        for (int p = 0; p < np; ++p) { m[p] = (LD)D.trans[f] * D.mob[f * np + p]; q[p] = inner || pres ? m[p] * D.gc[f * np + p] : 0; }
        V M = mul(&D.Af[f * np * np], np, m), Q = mul(&D.Af[f * np * np], np, q);
        for (int p = 0; p < np; ++p) { mt[f * np + p] = M[p]; gt[f * np + p] = Q[p]; }
        for (int side = 0; side < 2; ++side) {
            int c = side ? c2 : a, o = side ? a : c2;
            if (c < 0) continue;
            LD ctr = vol(&D.Ac[c * np * np], np, M), gr = vol(&D.Ac[c * np * np], np, Q);
            b[c] -= (side ? -1 : 1) * gr;
            if (o >= 0) { A[c * n + c] += ctr; A[c * n + o] -= ctr; }
            else if (pres) { A[c * n + c] += ctr; b[c] += ctr * pb[f]; fixed = true; }
        }
    }
    for (int c = 0; c < nc; ++c) {
        LD acc = (LD)D.ct[c] * D.pv[c] / k.dt;
        A[c * n + c] += acc; b[c] += acc * D.p0[c] + D.vd[c] + D.src[c];
        if (D.ct[c] != 0) compr = true;
    }
    std::vector<V> wz; std::vector<V> wg;
    for (int w = 0, i = 0; w < nw; ++w) {
        for (size_t j = 0; j < k.wells[w].cells.size(); ++j, ++i) {
            int c = k.wells[w].cells[j];
            V m(np), q(np);
            for (int p = 0; p < np; ++p) { m[p] = (LD)D.WI[i] * D.wmob[i * np + p]; q[p] = m[p] * D.gpot[i * np + p]; }
            wz.push_back(mul(&D.wA[i * np * np], np, m)); wg.push_back(mul(&D.wA[i * np * np], np, q));
            LD wt = vol(&D.Ac[c * np * np], np, wz.back()), dp = vol(&D.Ac[c * np * np], np, wg.back());
            A[c * n + c] += wt; b[c] += dp; A[(nc + w) * n + nc + w] += wt;
            if (k.wells[w].kind == 0) { b[c] += wt * k.wells[w].target; b[nc + w] += wt * k.wells[w].target; }
            else { A[c * n + nc + w] -= wt; A[(nc + w) * n + c] -= wt; b[nc + w] -= dp; }
        }
        if (k.wells[w].kind) b[nc + w] += k.wells[w].target; else fixed = true;
    }
    if (!fixed && !compr) A[0] *= 2;
    LD sa = 0, sb = 1;
    for (size_t i = 0; i < A.size(); ++i) sa = std::max(sa, std::fabs(A[i]));
    for (int i = 0; i < n; ++i) sb = std::max(sb, std::fabs(b[i]));
    std::vector<double> got((size_t)n * n, 0.0);
    if ((int)h->A->m != n) { vh::fail("size", "%d unknowns, expected %d", (int)h->A->m, n); goto out; }
    for (int i = 0; i < n; ++i) for (int j = h->A->ia[i]; j < h->A->ia[i + 1]; ++j) {
        if (h->A->ja[j] < 0 || h->A->ja[j] >= n) { vh::fail("index", "row %d column %d", i, h->A->ja[j]); goto out; }
        got[(size_t)i * n + h->A->ja[j]] += h->A->sa[j];
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!(std::fabs(got[(size_t)i * n + j] - A[(size_t)i * n + j]) <= 1e-11L * sa)) { vh::fail("matrix", "entry (%d,%d) is %.15g, expected %.15Lg", i, j, got[(size_t)i * n + j], A[(size_t)i * n + j]); goto out; }
    for (int i = 0; i < n; ++i) if (!(std::fabs(h->b[i] - b[i]) <= 1e-11L * sb)) { vh::fail("rhs", "row %d is %.15g, expected %.15Lg", i, h->b[i], b[i]); goto out; }
    {
        DV m2(nf * np, 4e77), g2(nf * np, 4e77);
        cfs_tpfa_retrieve_masstrans(g, np, h, &m2[0]);
        cfs_tpfa_retrieve_gravtrans(g, np, h, &g2[0]);
        for (int i = 0; i < nf * np; ++i) if (!vh::close_to(m2[i], mt[i], 1e-11, 1e-12) || !vh::close_to(g2[i], gt[i], 1e-11, 1e-12)) { vh::fail("face terms", "face %d component %d", i / np, i % np); goto out; }
        V x;
        if (!dense(A, b, x)) { vh::fail("singular", "the pressure system of this well-posed case is singular"); goto out; }
        for (int i = 0; i < n; ++i) h->x[i] = x[i];
        vh::outcome(vh::fmt("%.8Lg %.8Lg", x[0], x[n - 1]));
        DV cp(nc, 4e77), ff(nf, 4e77), wp(nw + 1, 4e77), wf(D.WI.size() + 1, 4e77);
        cfs_tpfa_press_flux(g, s.bc, W, np, &D.trans[0], &D.mob[0], &D.gc[0], nw ? &s.cd : 0, h, &cp[0], &ff[0], &wp[0], &wf[0]);
        vh::tr();
        LD fs = 1; for (int i = 0; i < n; ++i) fs = std::max(fs, std::fabs(x[i]));
        std::map<int, double> fb(k.fbc.begin(), k.fbc.end());
        V net(nc, 0);
        for (int c = 0; c < nc; ++c) VH_CHECK(vh::close_to(cp[c], (double)x[c], 1e-13), "pressure", "cell %d", c);
        for (int f = 0; f < nf; ++f) {
            const int a = g->face_cells[2 * f], c2 = g->face_cells[2 * f + 1];
            LD want = 0;
            if ((a >= 0 && c2 >= 0) || pb.count(f)) {
                LD dp = (a >= 0 ? x[a] : (LD)pb[f]) - (c2 >= 0 ? x[c2] : (LD)pb[f]);
                for (int p = 0; p < np; ++p) want += (LD)D.trans[f] * D.mob[f * np + p] * (dp + D.gc[f * np + p]);
            } else if (fb.count(f)) want = a < 0 ? fb[f] : -fb[f];
            if (!(std::fabs(ff[f] - want) <= 1e-10L * fs)) { vh::fail("flux", "face %d: %.12g expected %.12Lg", f, ff[f], want); goto out; }
            if (fb.count(f) && !pb.count(f)) continue;
            if (a >= 0) net[a] += want;
            if (c2 >= 0) net[c2] -= want;
        }
        for (int w = 0, i = 0; w < nw; ++w) {
            VH_CHECK(vh::close_to(wp[w], (double)x[nc + w], 1e-13), "well pressure", "well %d", w);
            LD tot = 0;
            for (size_t j = 0; j < k.wells[w].cells.size(); ++j, ++i) {
                int c = k.wells[w].cells[j];
                LD want = 0, in = vol(&D.Ac[c * np * np], np, wz[i]) * (x[nc + w] - x[c]) + vol(&D.Ac[c * np * np], np, wg[i]);
                for (int p = 0; p < np; ++p) want += (LD)D.WI[i] * D.wmob[i * np + p] * (x[nc + w] - x[c] + D.gpot[i * np + p]);
                tot += in; net[c] -= want;
                if (!(std::fabs(wf[i] - want) <= 1e-10L * fs)) { vh::fail("well flux", "perforation %d: %.12g expected %.12Lg", i, wf[i], want); goto out; }
            }
            if (k.wells[w].kind == 0) VH_CHECK(std::fabs(wp[w] - k.wells[w].target) <= 1e-9L * fs, "well target", "well %d has pressure %.12g, target %.12g", w, wp[w], k.wells[w].target);
            else VH_CHECK(std::fabs(tot - k.wells[w].target) <= 1e-9L * fs, "well target", "well %d injects %.12Lg, target %.12g", w, tot, k.wells[w].target);
        }
        // incompressible: volumes balance in every cell (unless the total source is not zero in a closed system)
        if (k.fluid == 0) {
            bool closed = !fixed; LD ts = 0;
            for (int c = 0; c < nc; ++c) ts += D.src[c];
            for (int w = 0; w < nw; ++w) if (k.wells[w].kind) ts += k.wells[w].target;
            if (!closed || std::fabs(ts) < 1e-12L) for (int c = 0; c < nc; ++c) VH_CHECK(std::fabs(net[c] - D.src[c]) <= 1e-9L * fs, "balance", "cell %d loses %.12Lg, source %.12g", c, net[c], D.src[c]);
        }
        // face pressures
        DV ht, fp(nf, 4e77);
        for (int i = 0; i < g->cell_facepos[nc]; ++i) ht.push_back(0.1 + rnd(61, i));
        cfs_tpfa_fpress(g, s.bc, np, &ht[0], &D.mob[0], &D.gc[0], h, &cp[0], &ff[0], &fp[0]);
        V num(nf, 0), den(nf, 0);
        for (int c = 0; c < nc; ++c) for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { num[g->cell_faces[i]] += ht[i] * x[c]; den[g->cell_faces[i]] += ht[i]; }
        for (int f = 0; f < nf; ++f) { LD want = pb.count(f) ? (LD)pb[f] : num[f] / den[f]; if (!(std::fabs(fp[f] - want) <= 1e-11L * fs)) { vh::fail("face pressure", "face %d: %.12g expected %.12Lg", f, fp[f], want); goto out; } }
        // explicit transport of surface volumes
        DV z(nc * np); V wz0(nc * np), before(np, 0), after(np, 0), inj(np, 0);
        for (int i = 0; i < nc * np; ++i) { z[i] = 0.2 + rnd(67, i); wz0[i] = z[i]; before[i % np] += wz0[i] * D.pv[i / np]; }
        for (int f = 0; f < nf; ++f) {
            const int a = g->face_cells[2 * f], c2 = g->face_cells[2 * f + 1];
            if (a < 0 || c2 < 0) continue;
            for (int p = 0; p < np; ++p) { LD q = mt[f * np + p] * (x[a] - x[c2]) + gt[f * np + p]; wz0[a * np + p] -= q * k.dt / D.pv[a]; wz0[c2 * np + p] += q * k.dt / D.pv[c2]; }
        }
        for (int w = 0, i = 0; w < nw; ++w) for (size_t j = 0; j < k.wells[w].cells.size(); ++j, ++i) for (int p = 0; p < np; ++p) {
            int c = k.wells[w].cells[j];
            LD q = wz[i][p] * (x[nc + w] - x[c]) + wg[i][p];
            wz0[c * np + p] += q * k.dt / D.pv[c]; inj[p] += q * k.dt;
        }
        cfs_tpfa_expl_mass_transport(g, W, nw ? &s.cd : 0, np, k.dt, &D.pv[0], h, &z[0]);
        vh::tr();
        for (int i = 0; i < nc * np; ++i) { after[i % np] += (LD)z[i] * D.pv[i / np]; if (!(std::fabs(z[i] - wz0[i]) <= 1e-9L * fs * (1 + k.dt))) { vh::fail("transport", "cell %d component %d: %.12g expected %.12Lg", i / np, i % np, z[i], wz0[i]); goto out; } }
        for (int p = 0; p < np; ++p) VH_CHECK(std::fabs(after[p] - before[p] - inj[p]) <= 1e-9L * fs * (1 + k.dt), "mass", "component %d: %.12Lg, expected %.12Lg", p, after[p], before[p] + inj[p]);
        // stable explicit step, three phases: the largest eigenvalue of the saturation-flux derivative
        if (np == 3) {
            DV dm(9 * nf), sd(3), gr(g->dimensions, 0.0);
            for (int i = 0; i < 9 * nf; ++i) dm[i] = rnd(71, i);
            for (int f = 0; f < nf; ++f) { dm[9 * f + 3] *= -0.7; dm[9 * f + 5] *= -0.7; dm[9 * f + 2] = 0; }
            for (int p = 0; p < 3; ++p) sd[p] = 3 - p;
            if (k.grav) for (int i = 0; i < g->dimensions; ++i) gr[i] = 0.3 * (i + 1);
            LD best = 1e100L; bool ok = true;
            for (int c = 0; c < nc; ++c) {
                LD F[2][2] = { { 0, 0 }, { 0, 0 } };
                for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) {
                    int f = g->cell_faces[i], o = g->face_cells[2 * f] == c ? g->face_cells[2 * f + 1] : g->face_cells[2 * f];
                    if (o < 0) continue;
                    LD psi[3], lt = 0, dz = 0;
                    for (int j = 0; j < g->dimensions; ++j) dz += ((LD)g->cell_centroids[g->dimensions * c + j] - g->cell_centroids[g->dimensions * o + j]) * gr[j];
                    for (int p = 0; p < 3; ++p) { LD rho = 0; for (int q = 0; q < 3; ++q) rho += (LD)D.Af[9 * f + 3 * p + q] * sd[q]; psi[p] = std::fabs(x[c] - x[o] - rho * dz); lt += D.mob[3 * f + p]; }
                    // mobility derivatives by water and gas saturation; water does not depend on gas here, gas not on water
                    LD dl[3][2] = { { dm[9 * f], dm[9 * f + 2] }, { dm[9 * f + 3], dm[9 * f + 5] }, { 0, dm[9 * f + 8] } };
                    for (int r = 0; r < 2; ++r) for (int v = 0; v < 2; ++v) {
                        LD frac = D.mob[3 * f + (r ? 2 : 0)] / lt, sum = 0;
                        for (int p = 0; p < 3; ++p) sum += dl[p][v] * psi[p];
                        F[r][v] += (LD)D.trans[f] * (dl[r ? 2 : 0][v] * psi[r ? 2 : 0] - frac * sum);
                    }
                }
                LD t = F[0][0] + F[1][1], disc = t * t - 4 * (F[0][0] * F[1][1] - F[0][1] * F[1][0]);
                if (disc < 1e-9L || t < 0) { if (g->number_of_cells > 1) ok = false; continue; }
                LD ev = 0.5L * (t + std::sqrt(disc));
                if (ev > 0) best = std::min(best, D.pv[c] / ev);
            }
            if (ok) {
                double got = cfs_tpfa_impes_maxtime(g, &s.cq, &D.trans[0], &D.pv[0], h, &dm[0], &sd[0], &gr[0]);
                vh::tr();
                vh::outcome(vh::fmt("step %.10g", got));
                VH_CHECK(vh::close_to(got, (double)best, 1e-7), "step", "%.12g expected %.12Lg", got, best);
            }
        }
    }
out:
    cfs_tpfa_destroy(h);
}

void explore()
{
    fl::Quiet q;
    const bool th = vh::thorough();
    for (int gi = 0; gi < NLARGE; gi = gi == NGRID - 1 ? LARGE : gi + 1) {
        UnstructuredGrid* g = grid(gi);
        const int nc = g->number_of_cells;
        std::vector<int> bf;
        for (int f = 0; f < g->number_of_faces; ++f) if (g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0) bf.push_back(f);
        const int nb = bf.size();
        for (int np = 1; np <= 3; ++np) for (int fluid = 0; fluid < 3; ++fluid) for (int bc = 0; bc < 8; ++bc) for (int ws = 0; ws < 8; ++ws) for (int gs = 0; gs < 4; ++gs) for (int hist = 0; hist < (th ? 3 : 2); ++hist)
        for (int salt = 0; salt < (th ? 3 : 1); ++salt) {
            if (!th && hist && (bc + ws + gs) % 3) continue;
            if (gi >= LARGE && (np + fluid + bc * 3 + ws + gs + hist + salt) % (th ? 16 : 40)) continue;
            if (fluid == 2 && np == 1) continue;
            if (!vh::begin(vh::fmt("%s/np%d/fluid%d/bc%d/w%d/gs%d/h%d/%d", gridname(gi), np, fluid, bc, ws, gs, hist, salt))) continue;
            Cs k; k.g = g; k.np = np; k.fluid = fluid; k.salt = salt; k.grav = gs & 1; k.src = gs & 2; k.dt = bc % 2 ? 0.125 : 0.75;
            // boundary conditions
            if (bc == 1) k.pbc.push_back(std::make_pair(bf[0], 3.0));
            if (bc == 2) k.pbc.push_back(std::make_pair(bf[nb - 1], -1.0));
            if (bc == 3 || bc == 7) for (int i = 0; i < 3; ++i) k.pbc.push_back(std::make_pair(bf[(i * 5 + 1) % nb], i < 2 ? 4.0 : 1.5));
            if (bc == 4 || bc == 7) k.fbc.push_back(std::make_pair(bf[nb / 2], 0.25));
            if (bc == 5 || bc == 7) { k.fbc.push_back(std::make_pair(bf[0], -0.5)); }
            if (bc == 6) for (int i = 0; i < nb; ++i) k.pbc.push_back(std::make_pair(bf[i], i % 3 ? 2.0 : 6.0));
            std::set<int> used;
            std::vector<std::pair<int, double> > fb;
            for (size_t i = 0; i < k.pbc.size(); ++i) if (!used.insert(k.pbc[i].first).second) { k.pbc.erase(k.pbc.begin() + i); --i; }
            for (size_t i = 0; i < k.fbc.size(); ++i) if (used.insert(k.fbc[i].first).second) fb.push_back(k.fbc[i]);
            k.fbc = fb;
            Wl w; std::vector<int> first(1, 0), last(1, nc - 1), all;
            for (int c = nc - 1; c >= 0; c -= 2) all.push_back(c);
            if (ws & 1) { w.kind = 0; w.target = 8; w.cells = ws == 7 ? all : last; k.wells.push_back(w); }
            if (ws & 2) { w.kind = 1; w.target = ws == 6 ? -0.75 : 0.5; w.cells = ws == 2 ? first : all; if (ws == 3) { w.cells.clear(); for (int c = 0; c < nc; ++c) w.cells.push_back(c); } k.wells.push_back(w); }
            if (ws & 4) { w.kind = ws == 4 ? 0 : 1; w.target = ws == 4 ? 2 : -0.5; w.cells = all; if (ws == 5) std::reverse(w.cells.begin(), w.cells.end()); if (ws == 6) { w.target = 0.75; } k.wells.push_back(w); }
            run("", k, (bc + ws) % 2, hist);
            if (bc == 7 && ws == 7) vh::sample(vh::fmt("%s, %d phases, %d pressure and %d flux faces, %d wells", gridname(gi), np, (int)k.pbc.size(), (int)k.fbc.size(), (int)k.wells.size()));
        }
        // the helper terms
        for (int ct = 0; ct < 3; ++ct) if (vh::begin(vh::fmt("terms/%s/%d", gridname(gi), ct))) {
            DV pv, tc, P(nc, 4e77), p0, src, s0, ff, zeta, B(g->cell_facepos[nc], 4e77);
            for (int c = 0; c < nc; ++c) { pv.push_back(1 + rnd(1, c)); tc.push_back(ct ? rnd(2, c) : 0); p0.push_back(rnd(3, c) - 0.5); src.push_back(rnd(4, c)); zeta.push_back(rnd(5, c)); }
            for (int f = 0; f < g->number_of_faces; ++f) ff.push_back(rnd(6, f) - 0.5);
            s0 = src;
            compr_accum_term(nc, 0.5 + ct, &pv[0], &tc[0], &P[0]);
            compr_src_add_press_accum(nc, &p0[0], &P[0], &src[0]);
            compr_flux_term(g, &ff[0], &zeta[0], &B[0]);
            vh::tr(3);
            for (int c = 0; c < nc; ++c) {
                VH_CHECK(vh::close_to(P[c], tc[c] * pv[c] / (0.5 + ct), 1e-14) && vh::close_to(src[c], s0[c] + P[c] * p0[c], 1e-13, 1e-14), "terms", "cell %d", c);
                for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { int f = g->cell_faces[i]; VH_CHECK(vh::close_to(B[i], zeta[c] * (g->face_cells[2 * f] == c ? 1 : -1) * ff[f], 1e-14), "terms", "half-face %d", i); }
            }
        }
        destroy_grid(g);
    }
}
