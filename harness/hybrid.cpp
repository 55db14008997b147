// Mimetic inner product, hybrid (Schur complement) incompressible and compressible pressure systems, boundary
// condition sets: against dense extended-precision solutions of the mixed hybrid equations.
#define FLOW_NO_WELLS
#include "flow.hpp"
#include <opm/core/pressure/fsh.h>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/legacy_well.h>
#include <opm/core/pressure/mimetic/mimetic.h>
#include <opm/core/pressure/mimetic/hybsys.h>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/linalg/sparse_sys.h>
using namespace fl;
typedef std::vector<double> DV;

struct IP { const UnstructuredGrid* g; std::vector<int> pos; DV Binv; int maxn; };

static IP inner(const UnstructuredGrid* g, const Incomp& F)
{
    IP r; r.g = g; r.maxn = 0;
    const int nc = g->number_of_cells;
    r.pos.push_back(0);
    for (int c = 0; c < nc; ++c) { int n = g->cell_facepos[c + 1] - g->cell_facepos[c]; r.maxn = std::max(r.maxn, n); r.pos.push_back(r.pos.back() + n * n); }
    r.Binv.assign(r.pos.back(), 4e77);
    UnstructuredGrid* G = const_cast<UnstructuredGrid*>(g);
    mim_ip_simple_all(nc, g->dimensions, r.maxn, G->cell_facepos, G->cell_faces, G->face_cells, G->face_centroids, G->face_normals, G->face_areas,
                      G->cell_centroids, G->cell_volumes, const_cast<double*>(F.permeability()), &r.Binv[0]);
    return r;
}

static void ipcase(int gi, const UnstructuredGrid* g, int perm)
{
    if (!vh::begin(vh::fmt("inner %s perm=%d", gridname(gi), perm))) return;
    Incomp F(g); setperm(F, perm);
    IP ip = inner(g, F);
    const int d = g->dimensions, nc = g->number_of_cells;
    for (int c = 0; c < nc; ++c) {
        const int p0 = g->cell_facepos[c], n = g->cell_facepos[c + 1] - p0;
        const double* B = &ip.Binv[ip.pos[c]];
        std::vector<LD> C(n * d), N(n * d), A(n), Q(n * d);
        LD tr = 0, sc = 0;
        for (int i = 0; i < d; ++i) tr += F.perm[c * d * d + i * (d + 1)];
        for (int i = 0; i < n; ++i) {
            int f = g->cell_faces[p0 + i];
            LD s = g->face_cells[2 * f] == c ? 1 : -1;
            A[i] = g->face_areas[f];
            for (int j = 0; j < d; ++j) { C[i * d + j] = (LD)g->face_centroids[f * d + j] - g->cell_centroids[c * d + j]; N[i * d + j] = s * g->face_normals[f * d + j]; Q[i * d + j] = A[i] * C[i * d + j]; }
        }
        for (int j = 0; j < d; ++j) for (int pass = 0; pass < 2; ++pass) {
            for (int k = 0; k < j; ++k) { LD dot = 0; for (int i = 0; i < n; ++i) dot += Q[i * d + j] * Q[i * d + k]; for (int i = 0; i < n; ++i) Q[i * d + j] -= dot * Q[i * d + k]; }
            LD nn = 0; for (int i = 0; i < n; ++i) nn += Q[i * d + j] * Q[i * d + j];
            nn = std::sqrt(nn); for (int i = 0; i < n; ++i) Q[i * d + j] /= nn;
        }
        std::vector<LD> E(n * n);
        const double* K = &F.perm[c * d * d];
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            LD a = 0, x = i == j ? 1 : 0;
            for (int k = 0; k < d; ++k) { for (int l = 0; l < d; ++l) a += N[i * d + k] * K[k + d * l] * N[j * d + l]; x -= Q[i * d + k] * Q[j * d + k]; }
            E[i * n + j] = (a + 6 * tr / d * A[i] * x * A[j]) / g->cell_volumes[c];
            sc = std::max(sc, std::fabs(E[i * n + j]));
        }
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            VH_CHECK(std::fabs(B[i + j * n] - E[i * n + j]) <= 1e-11 * sc, "inner", "cell %d entry (%d,%d) is %.12g, expected %.12Lg", c, i, j, B[i + j * n], E[i * n + j]);
            VH_CHECK(std::fabs(B[i + j * n] - B[j + i * n]) <= 1e-12 * sc, "inner", "cell %d: not symmetric", c);
        }
        // linear pressures are exact where the cell is (N'C = V I)
        bool exact = true;
        for (int k = 0; k < d; ++k) for (int l = 0; l < d; ++l) { LD v = 0; for (int i = 0; i < n; ++i) v += N[i * d + k] * C[i * d + l]; if (std::fabs(v - (k == l ? g->cell_volumes[c] : 0)) > 1e-10 * g->cell_volumes[c]) exact = false; }
        if (exact) for (int i = 0; i < n; ++i) for (int l = 0; l < d; ++l) {
            LD v = 0, e = 0;
            for (int j = 0; j < n; ++j) v += B[i + j * n] * C[j * d + l];
            for (int k = 0; k < d; ++k) e += N[i * d + k] * K[k + d * l];
            VH_CHECK(std::fabs(v - e) <= 1e-9 * sc, "inner", "cell %d: linear pressure along %d gives flux %.12Lg through local face %d, not %.12Lg", c, l, v, i, e);
        }
        // positive definite
        std::vector<LD> M(n * n);
        for (int i = 0; i < n * n; ++i) M[i] = B[i];
        for (int k = 0; k < n; ++k) {
            VH_CHECK(M[k * n + k] > 1e-13 * sc, "inner", "cell %d: not positive definite", c);
            for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) M[i * n + j] -= M[i * n + k] * M[k * n + j] / M[k * n + k];
        }
        vh::tr();
    }
    // effective quantities
    DV mob(nc), om(nc), B2(ip.Binv.size(), 5e55), gp(g->cell_facepos[nc], 5e55), gp2(gp);
    double gr[3] = { 0.3, -0.7, 2.0 };
    for (int c = 0; c < nc; ++c) { mob[c] = 0.5 + c; om[c] = 2 - 0.1 * c; }
    mim_ip_mobility_update(nc, g->cell_facepos, &mob[0], &ip.Binv[0], &B2[0]);
    mim_ip_compute_gpress(nc, d, gr, g->cell_facepos, g->cell_faces, g->face_centroids, g->cell_centroids, &gp[0]);
    mim_ip_density_update(nc, g->cell_facepos, &om[0], &gp[0], &gp2[0]);
    for (int c = 0; c < nc; ++c) {
        for (int i = ip.pos[c]; i < ip.pos[c + 1]; ++i) VH_CHECK(vh::close_to(B2[i], mob[c] * ip.Binv[i], 1e-14), "inner", "mobility-weighted entry %d of cell %d is %g", i, c, B2[i]);
        for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) {
            LD e = 0; for (int j = 0; j < d; ++j) e += gr[j] * ((LD)g->face_centroids[g->cell_faces[i] * d + j] - g->cell_centroids[c * d + j]);
            VH_CHECK(vh::close_to(gp[i], e, 1e-12, 1e-12), "inner", "gravity term of half face %d is %g, expected %Lg", i, gp[i], e);
            VH_CHECK(vh::close_to(gp2[i], om[c] * e, 1e-12, 1e-12), "inner", "weighted gravity term of half face %d is %g", i, gp2[i]);
        }
    }
}

struct Prob {
    const UnstructuredGrid* g; const IP* ip; DV gp, src;
    std::vector<int> bt; DV bv;              // per face
    well_t* W; well_control_t* ctl; DV WI, wdp;
    DV Biv, P;                               // compressible terms (empty: incompressible)
};
struct Sol { std::vector<LD> p, flux, pw, wf; bool neumann, ok; };

static Sol reference(const Prob& k)
{
    const UnstructuredGrid* g = k.g;
    const int nc = g->number_of_cells, nf = g->number_of_faces, nw = k.W ? k.W->number_of_wells : 0, n = nc + nf + nw;
    std::vector<LD> A(n * n, 0), b(n, 0);
    Sol s; s.neumann = true;
    // half-face flux: v_i = sum_j B_ij (g_j + p - pi_j)
    for (int c = 0; c < nc; ++c) {
        const int p0 = g->cell_facepos[c], m = g->cell_facepos[c + 1] - p0;
        const double* B = &k.ip->Binv[k.ip->pos[c]];
        b[c] += k.src[c];
        for (int i = 0; i < m; ++i) {
            int fi = g->cell_faces[p0 + i];
            bool pres = k.bt[fi] == 1;
            for (int j = 0; j < m; ++j) {
                int fj = g->cell_faces[p0 + j];
                LD v = B[i + j * m];
                A[c * n + c] += v; A[c * n + nc + fj] -= v; b[c] -= v * k.gp[p0 + j];
                if (!pres) { A[(nc + fi) * n + c] += v; A[(nc + fi) * n + nc + fj] -= v; b[nc + fi] -= v * k.gp[p0 + j]; }
            }
            if (!k.Biv.empty()) {   // - V' inv(B) (g + p - pi)
                LD v = k.Biv[p0 + i];
                A[c * n + c] -= v; A[c * n + nc + fi] += v; b[c] += v * k.gp[p0 + i];
            }
        }
        if (!k.P.empty()) { A[c * n + c] -= k.P[c]; if (k.P[c] != 0) s.neumann = false; }
    }
    for (int f = 0; f < nf; ++f) {
        if (k.bt[f] == 1) { A[(nc + f) * n + nc + f] = 1; b[nc + f] = k.bv[f]; s.neumann = false; }
        if (k.bt[f] == 2) b[nc + f] += k.bv[f];
    }
    for (int w = 0; w < nw; ++w) {
        for (int i = k.W->well_connpos[w]; i < k.W->well_connpos[w + 1]; ++i) {
            int c = k.W->well_cells[i];
            A[c * n + c] += k.WI[i]; A[c * n + nc + nf + w] -= k.WI[i]; b[c] -= k.WI[i] * k.wdp[i];
            if (k.ctl->ctrl[w] == RATE) { A[(nc + nf + w) * n + c] -= k.WI[i]; A[(nc + nf + w) * n + nc + nf + w] += k.WI[i]; b[nc + nf + w] += k.WI[i] * k.wdp[i]; }
        }
        if (k.ctl->ctrl[w] == RATE) b[nc + nf + w] += k.ctl->target[w];
        else { A[(nc + nf + w) * n + nc + nf + w] = 1; b[nc + nf + w] = k.ctl->target[w]; s.neumann = false; }
    }
    if (s.neumann) A[0] *= 2;
    std::vector<LD> x;
    s.ok = dense(A, b, x);
    if (!s.ok) return s;
    s.p.assign(x.begin(), x.begin() + nc); s.pw.assign(x.begin() + nc + nf, x.end()); s.flux.assign(nf, 0);
    for (int c = 0; c < nc; ++c) {
        const int p0 = g->cell_facepos[c], m = g->cell_facepos[c + 1] - p0;
        const double* B = &k.ip->Binv[k.ip->pos[c]];
        for (int i = 0; i < m; ++i) {
            LD v = 0; int f = g->cell_faces[p0 + i];
            for (int j = 0; j < m; ++j) v += B[i + j * m] * (k.gp[p0 + j] + x[c] - x[nc + g->cell_faces[p0 + j]]);
            if (g->face_cells[2 * f] == c) s.flux[f] = v;
            else if (g->face_cells[2 * f] < 0) s.flux[f] = -v;
        }
    }
    for (int w = 0; w < nw; ++w) for (int i = k.W->well_connpos[w]; i < k.W->well_connpos[w + 1]; ++i)
        s.wf.push_back(k.WI[i] * (x[nc + nf + w] - k.wdp[i] - x[k.W->well_cells[i]]));
    return s;
}

static void sysid(CSRMatrix* A, double* b) { csrmatrix_zero(A); for (size_t i = 0; i < A->m; ++i) b[i] = 0; }

static FlowBoundaryConditions* makebc(const UnstructuredGrid* g, const std::vector<int>& sides, Prob& k, bool multi)
{
    k.bt.assign(g->number_of_faces, 0); k.bv.assign(g->number_of_faces, 0.0);
    FlowBoundaryConditions* bc = flow_conditions_construct(multi ? 0 : 2);
    for (size_t sd = 0; sd < sides.size(); ++sd) {
        if (!sides[sd]) continue;
        std::vector<int> ff;
        int stride = 1;
        for (int q = 0; q < int(sd) / 2; ++q) stride *= g->cartdims[q];
        for (int c = 0; c < g->number_of_cells; ++c) {
            int gc = g->global_cell ? g->global_cell[c] : c;
            if (gc / stride % g->cartdims[sd / 2] != (sd % 2 ? g->cartdims[sd / 2] - 1 : 0)) continue;
            for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) if (g->cell_facetag[i] == int(sd)) ff.push_back(g->cell_faces[i]);
        }
        if (ff.empty()) continue;
        double v = sides[sd] == 1 ? 2.0 + 3.0 * sd : 0.2 - 0.15 * sd;
        for (size_t i = 0; i < ff.size(); ++i) { k.bt[ff[i]] = sides[sd]; k.bv[ff[i]] = v; }
        if (multi) flow_conditions_append_multi(sides[sd] == 1 ? BC_PRESSURE : BC_FLUX_TOTVOL, ff.size(), &ff[0], v, bc);
        else for (size_t i = 0; i < ff.size(); ++i) flow_conditions_append(sides[sd] == 1 ? BC_PRESSURE : BC_FLUX_TOTVOL, ff[i], v, bc);
    }
    return bc;
}

static bool cmp(const char* kind, const Prob& k, const Sol& r, const DV& p, const DV& fx, const DV& pw, const DV& wf)
{
    vh::tr();
    LD ps = 1, fs = 1e-3L;
    for (size_t i = 0; i < r.p.size(); ++i) ps = std::max(ps, std::fabs(r.p[i]));
    for (size_t i = 0; i < r.pw.size(); ++i) ps = std::max(ps, std::fabs(r.pw[i]));
    for (size_t i = 0; i < r.flux.size(); ++i) fs = std::max(fs, std::fabs(r.flux[i]));
    for (size_t i = 0; i < r.wf.size(); ++i) fs = std::max(fs, std::fabs(r.wf[i]));
    fs = std::max(fs, 1e-3L * ps);
    LD sh = r.neumann ? p[0] - r.p[0] : 0;
    for (size_t i = 0; i < r.p.size(); ++i) if (!(std::fabs(p[i] - sh - r.p[i]) <= 1e-8 * ps)) { vh::fail(kind, "pressure of cell %d is %.12g, expected %.12Lg", (int)i, p[i], r.p[i] + sh); return false; }
    for (size_t i = 0; i < r.flux.size(); ++i) if (!(std::fabs(fx[i] - r.flux[i]) <= 1e-8 * fs)) { vh::fail(kind, "flux of face %d is %.12g, expected %.12Lg", (int)i, fx[i], r.flux[i]); return false; }
    for (size_t i = 0; i < r.pw.size(); ++i) if (!(std::fabs(pw[i] - sh - r.pw[i]) <= 1e-8 * ps)) { vh::fail(kind, "pressure of well %d is %.12g, expected %.12Lg", (int)i, pw[i], r.pw[i] + sh); return false; }
    for (size_t i = 0; i < r.wf.size(); ++i) if (!(std::fabs(wf[i] - r.wf[i]) <= 1e-8 * fs)) { vh::fail(kind, "rate of perforation %d is %.12g, expected %.12Lg", (int)i, wf[i], r.wf[i]); return false; }
    const UnstructuredGrid* g = k.g;
    if (k.P.empty()) for (int c = 0; c < g->number_of_cells; ++c) {
        LD net = k.src[c];
        for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { int f = g->cell_faces[i]; net -= (g->face_cells[2 * f] == c ? 1 : -1) * (LD)fx[f]; }
        if (k.W) for (size_t i = 0; i < wf.size(); ++i) if (k.W->well_cells[i] == c) net += wf[i];
        if (!(std::fabs(net) <= 1e-7 * fs)) { vh::fail("conservation", "cell %d has net flow %Lg", c, net); return false; }
    }
    return true;
}

static void solvecase(int gi, const UnstructuredGrid* g, int perm, int grav, const std::vector<int>& sides, const char* ws, int compr)
{
    std::string sd; for (size_t i = 0; i < sides.size(); ++i) sd += "-pf"[sides[i]];
    if (!vh::begin(vh::fmt("%s %s perm=%d grav=%d bc=%s wells=%s", compr ? compr == 1 ? "compressible" : "compressible-zero" : "hybrid", gridname(gi), perm, grav, sd.c_str(), ws))) return;
    Incomp F(g); setperm(F, perm);
    IP ip = inner(g, F);
    const int nc = g->number_of_cells, nf = g->number_of_faces, nh = g->cell_facepos[nc];
    Prob k; k.g = g; k.ip = &ip; k.W = 0; k.ctl = 0;
    k.gp.assign(nh, 0.0);
    double gr[3] = { 0.3, -0.7, 2.0 };
    if (grav) mim_ip_compute_gpress(nc, g->dimensions, gr, g->cell_facepos, g->cell_faces, g->face_centroids, g->cell_centroids, &k.gp[0]);
    FlowBoundaryConditions* bc = makebc(g, sides, k, perm & 1);
    // wells: letters as '.', 'b', 'r'; both wells of a pair perforate the middle cell
    std::vector<int> pos(1, 0), cells; std::vector<well_control> ct; std::vector<well_type> ty; DV tg;
    for (int w = 0; ws[w]; ++w) if (ws[w] != '.') {
        cells.push_back(w ? nc - 1 : nc / 2); k.WI.push_back(0.7 + w); k.wdp.push_back(grav ? 0.3 - w : 0);
        cells.push_back(w ? nc / 2 : 0); k.WI.push_back(1.5); k.wdp.push_back(grav ? 0.1 + w : 0);
        if (cells[cells.size() - 1] == cells[cells.size() - 2]) { cells.pop_back(); k.WI.pop_back(); k.wdp.pop_back(); }
        pos.push_back(cells.size());
        ct.push_back(ws[w] == 'b' ? BHP : RATE); ty.push_back(w ? PRODUCER : INJECTOR); tg.push_back(ws[w] == 'b' ? (w ? -4 : 9) : (w ? -0.8 : 1.3));
    }
    well_t W = well_t(); well_control_t C = well_control_t();
    bool press = false;
    for (int f = 0; f < nf; ++f) press = press || k.bt[f] == 1;
    if (!ct.empty()) {
        W.number_of_wells = ct.size(); W.well_connpos = &pos[0]; W.well_cells = &cells[0];
        C.type = &ty[0]; C.ctrl = &ct[0]; C.target = &tg[0]; C.zfrac = 0;
        k.W = &W; k.ctl = &C;
        for (size_t i = 0; i < ct.size(); ++i) press = press || ct[i] == BHP;
    }
    k.src.assign(nc, 0.0); k.src[nc / 2] = 0.37;
    if (compr) {
        k.Biv.assign(nh, 0.0); k.P.assign(nc, 0.0);
        if (compr == 1) { for (int i = 0; i < nh; ++i) k.Biv[i] = 0.02 * ((i * 5) % 7 - 3); for (int c = 0; c < nc; ++c) k.P[c] = -(0.5 + 0.3 * c); press = true; }
    }
    if (!press) {
        double tot = 0.37;
        for (int f = 0; f < nf; ++f) if (k.bt[f] == 2) tot -= k.bv[f];
        for (size_t i = 0; i < ct.size(); ++i) tot += tg[i];
        k.src[nc - 1] -= tot;
    }
    Sol r = reference(k);
    if (!r.ok) { vh::fail("harness", "reference singular"); flow_conditions_destroy(bc); return; }
    UnstructuredGrid* G = const_cast<UnstructuredGrid*>(g);
    fsh_data* h = compr ? cfsh_construct(G, 0) : ifsh_construct(G, k.W);
    Opm::LinearSolverUmfpack ls;
    DV p(nc), fx(nf), pw(ct.size() + 1), wf(cells.size() + 1);
    // an assembly must not depend on those before: other conditions, controls and data first
    {
        FlowBoundaryConditions* other = flow_conditions_construct(1);
        for (int f = 0; f < nf; ++f) if (g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0) flow_conditions_append(f % 2 ? BC_PRESSURE : BC_FLUX_TOTVOL, f, 3.0 + f, other);
        DV src(nc, 0.21), B(ip.Binv), gp(nh, 0.4), WI(k.WI), wdp(k.wdp), tg2(tg);
        for (size_t i = 0; i < B.size(); ++i) B[i] *= 3;
        for (size_t i = 0; i < WI.size(); ++i) { WI[i] *= 2; wdp[i] += 1; }
        std::vector<well_control> ct2; for (size_t i = 0; i < ct.size(); ++i) { ct2.push_back(ct[i] == BHP ? RATE : BHP); tg2[i] += 5; }
        well_control_t C2 = C; if (k.W) { C2.ctrl = &ct2[0]; C2.target = &tg2[0]; }
        sysid(h->A, h->b);
        if (compr) cfsh_assemble(other, &src[0], &B[0], &k.Biv[0], &k.P[0], &gp[0], 0, 0, 0, 0, h);
        else ifsh_assemble(other, &src[0], &B[0], &gp[0], k.W ? &C2 : 0, k.W ? &WI[0] : 0, k.W ? &wdp[0] : 0, h);
        flow_conditions_destroy(other);
    }
    bool none = true; for (size_t i = 0; i < sides.size(); ++i) none = none && !sides[i];
    if (none && perm % 2 == 0) { flow_conditions_destroy(bc); bc = 0; }
    for (int rep = 0; rep < 2; ++rep) {
        std::fill(p.begin(), p.end(), 6e66); std::fill(fx.begin(), fx.end(), 6e66); std::fill(wf.begin(), wf.end(), 6e66);
        sysid(h->A, h->b);
        if (compr) cfsh_assemble(bc, &k.src[0], &ip.Binv[0], &k.Biv[0], &k.P[0], &k.gp[0], 0, 0, 0, 0, h);
        else ifsh_assemble(bc, &k.src[0], &ip.Binv[0], &k.gp[0], k.ctl, k.W ? &k.WI[0] : 0, k.W ? &k.wdp[0] : 0, h);
        {
            Quiet q;
            ls.solve(h->A, h->b, h->x);
        }
        fsh_press_flux(G, &ip.Binv[0], &k.gp[0], h, &p[0], &fx[0], &pw[0], &wf[0]);
        DV pw2(pw.begin(), pw.begin() + ct.size()), wf2(wf.begin(), wf.begin() + cells.size());
        if (!cmp(compr ? "compressible" : "hybrid", k, r, p, fx, pw2, wf2)) break;
    }
    uint64_t hh = 0;
    for (int c = 0; c < nc; ++c) { long v = lrint(1e4 * p[c]); hh = vh::hash(&v, sizeof v, hh); }
    vh::outcome(hh);
    if (vh::ctx().samples.size() < 2) vh::sample(vh::ctx().cur + " p=" + vh::str(p) + " flux=" + vh::str(fx));
    fsh_destroy(h);
    if (bc) flow_conditions_destroy(bc);
}

// a linear pressure prescribed on the whole boundary is reproduced
static void linearcase(int gi, const UnstructuredGrid* g, int perm)
{
    if (!vh::begin(vh::fmt("linear %s perm=%d", gridname(gi), perm))) return;
    Incomp F(g); setperm(F, perm & 6);
    IP ip = inner(g, F);
    const int nc = g->number_of_cells, nf = g->number_of_faces, d = g->dimensions;
    double sl[3] = { 1.5, -0.5, 0.75 };
    FlowBoundaryConditions* bc = flow_conditions_construct(1);
    for (int f = 0; f < nf; ++f) if (g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0) {
        double v = 4; for (int j = 0; j < d; ++j) v += sl[j] * g->face_centroids[f * d + j];
        flow_conditions_append(BC_PRESSURE, f, v, bc);
    }
    UnstructuredGrid* G = const_cast<UnstructuredGrid*>(g);
    fsh_data* h = ifsh_construct(G, 0);
    sysid(h->A, h->b);
    DV src(nc, 0.0), gp(g->cell_facepos[nc], 0.0), p(nc), fx(nf);
    ifsh_assemble(bc, &src[0], &ip.Binv[0], &gp[0], 0, 0, 0, h);
    Opm::LinearSolverUmfpack ls;
    { Quiet q; ls.solve(h->A, h->b, h->x); }
    fsh_press_flux(G, &ip.Binv[0], &gp[0], h, &p[0], &fx[0], 0, 0);
    for (int c = 0; c < nc; ++c) {
        LD e = 4; for (int j = 0; j < d; ++j) e += sl[j] * (LD)g->cell_centroids[c * d + j];
        VH_CHECK(vh::close_to(p[c], e, 1e-8), "linear", "pressure of cell %d is %.12g, expected %.12Lg", c, p[c], e);
    }
    for (int f = 0; f < nf; ++f) {
        LD e = 0; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) e -= (LD)g->face_normals[f * d + i] * F.perm[i + d * j] * sl[j];
        VH_CHECK(vh::close_to(fx[f], e, 1e-7, 1e-8), "linear", "flux of face %d is %.12g, expected %.12Lg", f, fx[f], e);
    }
    vh::tr();
    fsh_destroy(h); flow_conditions_destroy(bc);
}

// sets of boundary conditions: every sequence of operations
static void bcops(int init, const std::vector<int>& ops)
{
    if (!vh::begin(vh::fmt("conditions init=%d ops=%s", init, vh::str(ops).c_str()))) return;
    FlowBoundaryConditions* bc = flow_conditions_construct(init);
    VH_CHECK(bc != 0 && bc->nbc == 0, "conditions", "new set is not empty");
    struct M { FlowBCType t; std::vector<int> f; double v; };
    std::vector<M> m;
    for (size_t i = 0; i < ops.size(); ++i) {
        M e; e.v = 1.5 * i - 2; e.t = i % 3 == 0 ? BC_PRESSURE : i % 3 == 1 ? BC_FLUX_TOTVOL : BC_NOFLOW;
        int n = ops[i] == 0 ? 1 : ops[i] == 1 ? 0 : ops[i] == 2 ? 3 : 7;
        if (ops[i] == 4) { flow_conditions_clear(bc); m.clear(); }
        else {
            for (int q = 0; q < n; ++q) e.f.push_back(10 * (i + 1) + q);
            int ok = ops[i] == 0 ? flow_conditions_append(e.t, e.f[0], e.v, bc) : flow_conditions_append_multi(e.t, n, n ? &e.f[0] : 0, e.v, bc);
            VH_CHECK(ok == 1, "conditions", "append refused");
            m.push_back(e);
        }
        VH_CHECK(bc->nbc == m.size() && bc->cond_pos[0] == 0, "conditions", "%d conditions, expected %d", (int)bc->nbc, (int)m.size());
        size_t pos = 0;
        for (size_t q = 0; q < m.size() && q < bc->nbc; ++q) {
            VH_CHECK(bc->type[q] == m[q].t && bc->value[q] == m[q].v && bc->cond_pos[q + 1] == pos + m[q].f.size(), "conditions", "condition %d differs", (int)q);
            for (size_t z = 0; z < m[q].f.size(); ++z) VH_CHECK(bc->face[pos + z] == m[q].f[z], "conditions", "face %d of condition %d differs", (int)z, (int)q);
            pos += m[q].f.size();
        }
        vh::tr();
    }
    flow_conditions_destroy(bc);
}

// cell-wise elimination, three forms of the conservation equation: C2' v - P p = src, v = inv(B) (g + p - pi)
static void blockcase(int gi, const UnstructuredGrid* g, int perm, int form, int pat)
{
    if (!vh::begin(vh::fmt("blocks %s perm=%d form=%d pattern=%d", gridname(gi), perm, form, pat))) return;
    Incomp F(g); setperm(F, perm);
    IP ip = inner(g, F);
    const int nc = g->number_of_cells, nf = g->number_of_faces, nh = g->cell_facepos[nc];
    DV C2(nh, 1.0), BIV(nh, 0.0), P(nc, 0.0), gp(nh), src(nc), pi(nf);
    for (int i = 0; i < nh; ++i) gp[i] = pat & 1 ? 0.25 * ((i * 7) % 5) - 0.5 : 0;
    for (int c = 0; c < nc; ++c) { src[c] = 1.5 - c; if (form) P[c] = pat & 2 ? -0.5 * (c + 1) : 0; }
    for (int f = 0; f < nf; ++f) pi[f] = 0.5 * ((f * 3) % 7) - 1;
    for (int c = 0; c < nc && form; ++c) {
        const int p0 = g->cell_facepos[c], m = g->cell_facepos[c + 1] - p0;
        for (int i = 0; i < m; ++i) C2[p0 + i] = 1 + (pat & 4 ? 0.125 * ((i + 2 * c) % 4) : 0) + (pat & 8 && i == c % m ? 0.5 : 0);
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) BIV[p0 + i] += ip.Binv[ip.pos[c] + i + j * m] * (1 - C2[p0 + j]);
    }
    hybsys* s = form ? hybsys_allocate_unsymm(ip.maxn, nc, nh) : hybsys_allocate_symm(ip.maxn, nc, nh);
    VH_CHECK(s != 0, "blocks", "no system allocated");
    hybsys_init(ip.maxn, s);
    if (form == 0) hybsys_schur_comp_symm(nc, g->cell_facepos, &ip.Binv[0], s);
    if (form == 1) hybsys_schur_comp_unsymm(nc, g->cell_facepos, &ip.Binv[0], &BIV[0], &P[0], s);
    if (form == 2) hybsys_schur_comp_gen(nc, g->cell_facepos, &ip.Binv[0], &C2[0], &P[0], s);
    std::vector<LD> ep(nc), ev(nh);
    DV press(nc, 7e77), flux(nh, 7e77), work(ip.maxn, 7e77);
    for (int c = 0; c < nc; ++c) {
        const int p0 = g->cell_facepos[c], m = g->cell_facepos[c + 1] - p0;
        const double* B = &ip.Binv[ip.pos[c]];
        LD a = -P[c], b = src[c], sc = 0;
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { LD v = C2[p0 + i] * (LD)B[i + j * m]; a += v; b -= v * (gp[p0 + j] - pi[g->cell_faces[p0 + j]]); sc = std::max(sc, std::fabs(v)); }
        ep[c] = b / a;
        for (int i = 0; i < m; ++i) { ev[p0 + i] = 0; for (int j = 0; j < m; ++j) ev[p0 + i] += (LD)B[i + j * m] * (gp[p0 + j] + ep[c] - pi[g->cell_faces[p0 + j]]); }
        VH_CHECK(vh::close_to(s->L[c], a, 1e-10, 1e-10 * (double)sc), "blocks", "cell %d: eliminated cell coefficient is %.12g, expected %.12Lg", c, s->L[c], a);
        for (int i = 0; i < ip.maxn * ip.maxn; ++i) s->S[i] = 3e33;
        if (form == 0) hybsys_cellcontrib_symm(c, m, p0, ip.pos[c], &gp[0], &src[0], &ip.Binv[0], s);
        else hybsys_cellcontrib_unsymm(c, m, p0, ip.pos[c], &gp[0], &src[0], &ip.Binv[0], s);
        // outflow as a function of the interface pressures: r - S pi
        for (int i = 0; i < m; ++i) {
            LD v = s->r[i];
            for (int j = 0; j < m; ++j) v -= (LD)s->S[i + j * m] * pi[g->cell_faces[p0 + j]];
            VH_CHECK(std::fabs(v - ev[p0 + i]) <= 1e-9 * (sc + std::fabs(ev[p0 + i])), "blocks", "cell %d: local system gives flux %.12Lg through local face %d, expected %.12Lg", c, v, i, ev[p0 + i]);
            for (int j = 0; j < m; ++j) {
                LD f1 = 0, f2 = 0;
                for (int k = 0; k < m; ++k) { f1 += B[i + k * m]; f2 += (LD)B[k + j * m] * C2[p0 + k]; }
                VH_CHECK(std::fabs(s->S[i + j * m] - (B[i + j * m] - f1 * f2 / a)) <= 1e-10 * sc, "blocks", "cell %d: local matrix entry (%d,%d) is %.12g", c, i, j, s->S[i + j * m]);
            }
        }
        vh::tr();
    }
    hybsys_compute_press_flux(nc, g->cell_facepos, g->cell_faces, &gp[0], &ip.Binv[0], s, &pi[0], &press[0], &flux[0], &work[0]);
    for (int c = 0; c < nc; ++c) {
        VH_CHECK(vh::close_to(press[c], ep[c], 1e-10, 1e-10), "blocks", "pressure of cell %d is %.12g, expected %.12Lg", c, press[c], ep[c]);
        LD sc = 0; for (int i = ip.pos[c]; i < ip.pos[c + 1]; ++i) sc = std::max(sc, (LD)std::fabs(ip.Binv[i]));
        for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) VH_CHECK(std::fabs(flux[i] - ev[i]) <= 1e-9 * (sc + std::fabs(ev[i])), "blocks", "flux of half face %d is %.12g, expected %.12Lg", i, flux[i], ev[i]);
    }
    hybsys_free(s);
}

void explore()
{
    const bool T = vh::thorough();
    static const char* wl[] = { "..", "b.", "bb", "br", "rb", "rr", ".b", "r.", ".r" };
    for (int gi = LARGE; gi < NLARGE; ++gi) {
        UnstructuredGrid* g = grid(gi); const int nd = g->dimensions;
        for (int perm = 0; perm < 8; perm += gi < LARGE + 2 ? 1 : 4) {
            ipcase(gi, g, perm); linearcase(gi, g, perm);
            for (int form = 0; form < 3; ++form) blockcase(gi, g, perm, form, form ? (perm * 3 + form) % 16 : perm % 2);
            if (gi < LARGE + 2) for (int w = 0; w < 9; ++w) { if (!T && (w + perm) % 4) continue; std::vector<int> sides(2 * nd, 0); sides[(perm + w) % (2 * nd)] = 1; sides[(perm + w + 1) % (2 * nd)] = w % 3; solvecase(gi, g, perm, perm & 1, sides, wl[w], 0); if (w == 0) for (int cm = 1; cm < 3; ++cm) solvecase(gi, g, perm, perm & 1, sides, wl[w], cm); }
        }
        destroy_grid(g);
    }
    for (int gi = 0; gi < NGRID; ++gi) {
        UnstructuredGrid* g = grid(gi);
        const int nd = g->dimensions;
        for (int perm = 0; perm < 8; ++perm) {
            ipcase(gi, g, perm); linearcase(gi, g, perm);
            for (int form = 0; form < 3; ++form) for (int pat = 0; pat < (form ? 16 : 2); ++pat) blockcase(gi, g, perm, form, pat);
        }
        std::vector<int> sides(2 * nd, 0);
        do {
            int nb = 0;
            for (int i = 0; i < 2 * nd; ++i) nb += sides[i] != 0;
            if (!T && nd == 3 && nb > 3) continue;
            for (int gr = 0; gr < 2; ++gr) for (int w = 0; w < (T ? 9 : 6); ++w) {
                if (!T && nb > 1 && (w + gr + nb) % 3) continue;
                for (int perm = T ? 0 : 7 - (w + nb) % 2; perm < 8; perm += T ? 3 : 2) solvecase(gi, g, perm, gr, sides, wl[w], 0);
                if (w == 0) for (int cm = 1; cm < 3; ++cm) solvecase(gi, g, 5, gr, sides, wl[w], cm);
            }
        } while (vh::next(sides, 3));
        destroy_grid(g);
    }
    for (int init = 0; init < 3; ++init) for (int len = 1; len <= (T ? 7 : 5); ++len) {
        std::vector<int> ops(len, 0);
        do bcops(init, ops); while (vh::next(ops, 5));
    }
}
