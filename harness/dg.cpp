// Discontinuous Galerkin time of flight: every flow pattern of small grids, against an independent assembly of the weak form,
// exact solutions, and the limiter's definition.
#include "tofield.hpp"
#include <opm/core/tof/TofDiscGalReorder.hpp>
#include <opm/core/grid/CellQuadrature.hpp>
#include <opm/core/grid/FaceQuadrature.hpp>
#include <opm/core/utility/VelocityInterpolation.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace Opm;
struct Conf { int deg; bool tens, cvi; int lim; double thr; }; // lim: 0 none, 1 + usage + 3 * method
static std::string text(const Conf& k) { return vh::fmt("degree %d%s%s limiter %d", k.deg, k.tens ? " tensor" : "", k.cvi ? " cvi" : "", k.lim); }
static parameter::ParameterGroup params(const Conf& k)
{
    parameter::ParameterGroup p; p.disableOutput();
    static const char* u[] = { "DuringComputations", "AsPostProcess", "AsSimultaneousPostProcess" };
    p.insertParameter("dg_degree", vh::fmt("%d", k.deg)); p.insertParameter("use_tensorial_basis", k.tens ? "true" : "false"); p.insertParameter("use_cvi", k.cvi ? "true" : "false"); p.insertParameter("use_limiter", k.lim ? "true" : "false");
    if (k.lim) { p.insertParameter("limiter_usage", u[(k.lim - 1) % 3]); p.insertParameter("limiter_method", k.lim > 3 ? "MinUpwindAverage" : "MinUpwindFace"); if (k.thr != 1e-3) p.insertParameter("limiter_relative_flux_threshold", vh::fmt("%g", k.thr)); }
    return p;
}
static int nbasis(const UnstructuredGrid* g, const Conf& k) { return k.deg == 0 ? 1 : k.tens ? 1 << g->dimensions : 1 + g->dimensions; }
static void value(const UnstructuredGrid* g, const Conf& k, int c, const double* x, LD* b, LD* gr)
{
    const int d = g->dimensions, n = nbasis(g, k); LD t[3]; for (int i = 0; i < d; ++i) t[i] = (LD)x[i] - g->cell_centroids[d * c + i];
    for (int i = 0; i < n; ++i) {
        b[i] = 1; for (int j = 0; j < d; ++j) gr[i * d + j] = 0;
        if (!k.deg) continue;
        if (!k.tens) { if (i) { b[i] = t[i - 1]; gr[i * d + i - 1] = 1; } continue; }
        for (int j = 0; j < d; ++j) gr[i * d + j] = 1;
        for (int m = 0; m < d; ++m) { const int hi = i >> (d - 1 - m) & 1; const LD f = hi ? 0.5L + t[m] : 0.5L - t[m]; b[i] *= f; for (int j = 0; j < d; ++j) gr[i * d + j] *= j == m ? (hi ? 1 : -1) : f; }
    }
}
typedef std::vector<LD> L;
static LD at(const UnstructuredGrid* g, const Conf& k, const L& co, int c, const double* x) { LD b[8], gr[24], s = 0; value(g, k, c, x, b, gr); const int n = nbasis(g, k); for (int i = 0; i < n; ++i) s += b[i] * co[c * n + i]; return s; }
static LD mean(const UnstructuredGrid* g, const Conf& k, const L& co, int c) { const int n = nbasis(g, k); if (!k.tens) return co[c * n]; LD s = 0; for (int i = 0; i < n; ++i) s += co[c * n + i]; return s / n; }
static LD lowest(const UnstructuredGrid* g, const Conf& k, const L& co, int c, int f) { LD m = 1e100L; for (int p = g->face_nodepos[f]; p < g->face_nodepos[f + 1]; ++p) m = std::min(m, at(g, k, co, c, g->node_coordinates + g->dimensions * g->face_nodes[p])); return m; }
// false if a decision is too close to call
static bool divided = false, raised = false; // divided: raise by the recorded defect of DGBasisMultilin::addConstant
static bool limit(const UnstructuredGrid* g, const Field& F, const Conf& k, int c, const L& from, L& to)
{
    LD in = 0, o = 0; for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) { LD v = out(g, F.q, c, g->cell_faces[j]); if (v < 0) in -= v; else o += v; }
    const LD total = std::max(in, o); LD M = 1e100L, low = 1e100L; int up = 0;
    for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
        const int f = g->cell_faces[j], n = other(g, c, f); const LD v = out(g, F.q, c, f);
        low = std::min(low, lowest(g, k, from, c, f));
        if (std::fabs(-v - total * k.thr) < 1e-9L) return false;
        if (-v > total * k.thr) { ++up; M = std::min(M, n < 0 ? 0 : k.lim > 3 ? mean(g, k, from, n) : lowest(g, k, from, n, f)); }
    }
    // without inflow the slope stays, but a negative age becomes zero
    M = up ? std::max(M, (LD)0) : 0;
    const LD a = mean(g, k, from, c); if (!up && a >= 0) return true;
    LD s = a <= M ? 0 : low >= M ? 1 : (a - M) / (a - low); LD base = std::max(a, M);
    const int n = nbasis(g, k); if (a < M && k.tens) { raised = true; if (divided) base = a + (M - a) / n; }
    for (int i = 0; i < n; ++i) { LD& x = to[c * n + i]; if (k.tens) x = base + s * (x - a); else x = i ? s * x : base; }
    return true;
}
// bad: cells not to compare (in or downstream of a loop, ill conditioned, or with a close decision upstream)
static bool reference(const UnstructuredGrid* g, const Field& F, const Conf& k, L& co, std::vector<char>& bad)
{
    const int nc = g->number_of_cells, d = g->dimensions, n = nbasis(g, k); co.assign(nc * n, 0); bad = F.tangled; const int usage = k.lim && k.deg ? (k.lim - 1) % 3 : -1;
    VelocityInterpolationInterface* vi; if (k.cvi) vi = new VelocityInterpolationECVI(*g); else vi = new VelocityInterpolationConstant(*g);
    vi->setupFluxes(&F.q[0]); I seq = order(g, F);
    for (size_t s = 0; s < seq.size(); ++s) {
        const int c = seq[s]; L A(n * n, 0), r(n, 0); LD b[8], gr[24], bn[8]; double x[3], v[3];
        CellQuadrature Q(*g, c, 2 * k.deg);
        for (int q = 0; q < Q.numQuadPts(); ++q) {
            Q.quadPtCoord(q, x); const LD w = Q.quadPtWeight(q); value(g, k, c, x, b, gr); vi->interpolate(c, x, v);
            for (int i = 0; i < n; ++i) { LD vg = 0; for (int j = 0; j < d; ++j) vg += v[j] * gr[i * d + j]; for (int j = 0; j < n; ++j) { A[i * n + j] -= w * vg * b[j]; if (F.src[c] < 0) A[i * n + j] -= w * (LD)F.src[c] / g->cell_volumes[c] * b[i] * b[j]; } }
        }
        CellQuadrature R(*g, c, k.deg);
        for (int q = 0; q < R.numQuadPts(); ++q) { R.quadPtCoord(q, x); value(g, k, c, x, b, gr); for (int i = 0; i < n; ++i) r[i] += R.quadPtWeight(q) * b[i] * (LD)F.pv[c] / g->cell_volumes[c]; }
        for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
            const int f = g->cell_faces[j], o = other(g, c, f); const LD u = out(g, F.q, c, f) / g->face_areas[f]; if (u == 0) continue;
            if (u < 0 && o >= 0 && bad[o]) bad[c] = 1;
            FaceQuadrature Z(*g, f, 2 * k.deg);
            for (int q = 0; q < Z.numQuadPts(); ++q) {
                Z.quadPtCoord(q, x); const LD w = Z.quadPtWeight(q); value(g, k, c, x, b, gr);
                if (u > 0) for (int i = 0; i < n; ++i) for (int m = 0; m < n; ++m) A[i * n + m] += w * u * b[i] * b[m];
                else if (o >= 0) { LD t = at(g, k, co, o, x); for (int i = 0; i < n; ++i) r[i] -= w * u * t * b[i]; }
            }
        }
        L y; if (!fl::dense(A, r, y)) { delete vi; return false; }
        // conditioning
        LD na = 0, ni = 0; for (int i = 0; i < n * n; ++i) na = std::max(na, std::fabs(A[i]));
        for (int i = 0; i < n; ++i) { L e(n, 0), z; e[i] = 1; fl::dense(A, e, z); for (int j = 0; j < n; ++j) ni = std::max(ni, std::fabs(z[j])); }
        if (!(na * ni < 1e5L)) bad[c] = 1;
        (void)bn; std::copy(y.begin(), y.end(), co.begin() + c * n);
        if (usage == 0 && !limit(g, F, k, c, co, co)) bad[c] = 1;
    }
    if (usage == 1) for (size_t s = 0; s < seq.size(); ++s) { const int c = seq[s]; for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) { int f = g->cell_faces[j], o = other(g, c, f); if (o >= 0 && out(g, F.q, c, f) < 0 && bad[o]) bad[c] = 1; } if (!limit(g, F, k, c, co, co)) bad[c] = 1; }
    if (usage == 2) { L to = co; for (size_t s = 0; s < seq.size(); ++s) if (!limit(g, F, k, seq[s], co, to)) bad[seq[s]] = 1; co = to; }
    delete vi; return true;
}
static bool compare(const UnstructuredGrid* g, const Field& F, const Conf& k, const V& tof, const L& co, const std::vector<char>& bad, const std::string& what);
static bool compare2(const UnstructuredGrid* g, const Field& F, const Conf& k, const V& tof, const L& co, const std::vector<char>& bad, const std::string& what)
{
    if (k.tens && k.lim && k.deg) {
        // recorded: a tensor-basis cell below its inflow ages is raised by only a part of what is needed
        raised = false; divided = true; L alt; std::vector<char> b; reference(g, F, k, alt, b); divided = false;
        bool differ = false; const int n = nbasis(g, k); LD worst = 0, scale = 1; for (size_t i = 0; i < alt.size(); ++i) if (!b[i / n] && !bad[i / n]) { differ = differ || std::fabs(alt[i] - co[i]) > 1e-9L; worst = std::max(worst, std::fabs(alt[i] - tof[i])); scale = std::max(scale, std::fabs(alt[i])); }
        if (raised && differ && worst <= 1e-8L * scale) { vh::fail("raise-divided", "%s: cells below the lowest inflow age are raised by the difference divided by the number of basis functions", what.c_str()); return true; }
    }
    return compare(g, F, k, tof, co, bad, what);
}
static bool compare(const UnstructuredGrid* g, const Field& F, const Conf& k, const V& tof, const L& co, const std::vector<char>& bad, const std::string& what)
{
    const int nc = g->number_of_cells, d = g->dimensions, n = nbasis(g, k);
    if ((int)tof.size() != nc * n) { vh::fail("size", "%s: %d coefficients, should be %d", what.c_str(), (int)tof.size(), nc * n); return false; }
    L me(tof.begin(), tof.end()); LD scale = 1; for (int c = 0; c < nc; ++c) if (!bad[c]) for (int i = 0; i < n; ++i) scale = std::max(scale, std::fabs(co[c * n + i]));
    for (int c = 0; c < nc; ++c) {
        if (bad[c]) continue;
        for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) for (int f = g->cell_faces[j], p = g->face_nodepos[f]; p < g->face_nodepos[f + 1]; ++p) {
            const double* x = g->node_coordinates + d * g->face_nodes[p]; const LD a = at(g, k, me, c, x), b = at(g, k, co, c, x);
            if (!(std::fabs(a - b) <= 1e-8L * scale)) { vh::fail("time", "%s: cell %d corner node %d: %.12Lg, should be %.12Lg", what.c_str(), c, g->face_nodes[p], a, b); return false; }
        }
        // balance over the cell, face averages of a linear function being its value at the centroid
        if (!k.tens && !k.lim) {
            LD s = -(LD)F.pv[c], t = F.pv[c]; if (F.src[c] < 0) { s -= F.src[c] * mean(g, k, me, c); t += std::fabs(F.src[c] * mean(g, k, me, c)); }
            for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) { const int f = g->cell_faces[j], o = other(g, c, f); const LD v = out(g, F.q, c, f); LD e = v > 0 ? v * at(g, k, me, c, g->face_centroids + d * f) : v < 0 && o >= 0 ? v * at(g, k, me, o, g->face_centroids + d * f) : 0; s += e; t += std::fabs(e); }
            if (!(std::fabs(s) <= 1e-9L * (1 + t))) { vh::fail("balance", "%s: cell %d out of balance by %Lg of %Lg", what.c_str(), c, s, t); return false; }
        }
    }
    return true;
}
static bool idle(const UnstructuredGrid* g, const Field& F) { for (int c = 0; c < g->number_of_cells; ++c) { bool any = F.src[c] < 0; for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) any = any || out(g, F.q, c, g->cell_faces[j]) > 0; if (!any) return true; } return false; }
static std::vector<Conf> confs(int gi, bool all, int pick)
{
    std::vector<Conf> r; int k = 0;
    for (int deg = 0; deg < 2; ++deg) for (int t = 0; t < 2; ++t) for (int v = 0; v < 2; ++v) {
        if (v && gi == 3) continue; // a faulted grid has corners without three faces
        for (int l = 0; l < (deg ? 7 : 1); ++l) { Conf c = { deg, t != 0, v != 0, l, 1e-3 }; if (deg == 0 && (t || v) && !all) continue; if (l && (++k + pick) % 5 == 0) c.thr = 0.4; if (all || !l || (k + pick) % 3 == 0) r.push_back(c); }
    }
    return r;
}
static void flow(int gi, int sp, int bnd)
{
    if (!vh::begin(vh::fmt("flow/%s/%d/%d", fl::gridname(gi), sp, bnd))) return;
    UnstructuredGrid* g = fl::grid(gi); const int n = interior(g); I sign; for (int i = 0, p = sp; i < n; ++i, p /= 3) sign.push_back(p % 3);
    if (gi >= fl::LARGE) sign = fl::pattern(sp, n);
    for (int pvk = vh::thorough() ? 0 : (sp + bnd) % 3; pvk < 3; pvk += vh::thorough() ? 1 : 3) {
        Field F = field(g, sign, bnd, pvk); const bool none = idle(g, F);
        std::vector<Conf> C = confs(gi, vh::thorough(), sp + bnd);
        for (size_t i = 0; i < C.size(); ++i) {
            vh::state(); vh::tr(); fl::Quiet q; V tof(3, 7.0); L co; std::vector<char> bad; const std::string t = text(C[i]);
            const bool solv = reference(g, F, C[i], co, bad); bool threw = false;
            try { TofDiscGalReorder s(*g, params(C[i])); s.solveTof(&F.q[0], &F.pv[0], &F.src[0], tof); }
            catch (const std::exception& e) { threw = true; if (!none && solv) { vh::fail("failure", "%s: %s", t.c_str(), e.what()); goto end; } }
            if (threw) continue;
            if (none) { vh::fail("idle", "%s: a cell nothing flows out of is not reported", t.c_str()); goto end; }
            if (!solv) continue;
            if (!compare2(g, F, C[i], tof, co, bad, t)) goto end;
            vh::outcome(vh::hash(&tof[0], 8 * tof.size()));
        }
    }
end:
    destroy_grid(g);
}
// uniform flow along an axis through boxes: the time grows linearly
static void uniform(int nx, int ny, int nz, int axis, int dir, int por)
{
    if (!vh::begin(vh::fmt("uniform/%d/%d/%d/%d/%d/%d", nx, ny, nz, axis, dir, por))) return;
    const int d = nz ? 3 : 2, N[3] = { nx, ny, nz ? nz : 1 }; double X[3][5];
    for (int a = 0; a < 3; ++a) { X[a][0] = 0; for (int i = 0; i < N[a]; ++i) X[a][i + 1] = X[a][i] + 0.5 + 0.75 * ((i + a + por) % 3); }
    UnstructuredGrid* g = d == 2 ? create_grid_tensor2d(nx, ny, X[0], X[1]) : create_grid_tensor3d(nx, ny, nz, X[0], X[1], X[2], 0);
    const int nc = g->number_of_cells; V q(g->number_of_faces), pv(nc), src(nc, 0.0); const double v = dir ? -1.5 : 0.8;
    for (int f = 0; f < g->number_of_faces; ++f) q[f] = v * g->face_normals[d * f + axis];
    LD T[6] = { 0 }; double ph[5]; const int n = N[axis];
    for (int i = 0; i < n; ++i) ph[i] = por ? 0.1 + 0.2 * (i * por % 3) : 0.25;
    for (int k = 0; k < n; ++k) { int i = dir ? n - 1 - k : k; T[k + 1] = T[k] + ph[i] * (X[axis][i + 1] - X[axis][i]) / std::fabs(v); } // time at the k-th plane met
    for (int c = 0; c < nc; ++c) { int i = 0; while (g->cell_centroids[d * c + axis] > X[axis][i + 1]) ++i; pv[c] = ph[i] * g->cell_volumes[c]; }
    std::vector<Conf> C = confs(0, true, por);
    for (size_t m = 0; m < C.size(); ++m) {
        if (!C[m].deg) continue;
        vh::state(); vh::tr(); fl::Quiet z; V tof; try { TofDiscGalReorder s(*g, params(C[m])); s.solveTof(&q[0], &pv[0], &src[0], tof); } catch (const std::exception& e) { vh::fail("failure", "%s: %s", text(C[m]).c_str(), e.what()); break; }
        L me(tof.begin(), tof.end()); bool ok = true;
        for (int c = 0; c < nc && ok; ++c) for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1] && ok; ++j) for (int f = g->cell_faces[j], p = g->face_nodepos[f]; p < g->face_nodepos[f + 1]; ++p) {
            const double* x = g->node_coordinates + d * g->face_nodes[p]; int i = 0; while (x[axis] > X[axis][i] + 1e-9) ++i;
            const LD e = T[dir ? n - i : i], a = at(g, C[m], me, c, x);
            if (!(std::fabs(a - e) <= 1e-10L * (1 + T[n]))) { vh::fail("linear", "%s: cell %d node %d: %.12Lg, should be %.12Lg", text(C[m]).c_str(), c, g->face_nodes[p], a, e); ok = false; break; }
        }
        if (!ok) break;
        vh::outcome(vh::hash(&tof[0], 8 * tof.size()));
    }
    destroy_grid(g);
}
static void history(int gi, int conf, const I& h)
{
    if (!vh::begin(vh::fmt("history/%s/%d/%s", fl::gridname(gi), conf, vh::str(h).c_str()))) return;
    UnstructuredGrid* g = fl::grid(gi); const int k = interior(g); fl::Quiet q; Conf C = { conf > 0, conf % 2 == 0, conf > 3, conf == 0 ? 0 : conf, 1e-3 };
    TofDiscGalReorder s(*g, params(C)); V tof;
    for (size_t t = 0; t < h.size(); ++t) {
        I sign(k); for (int i = 0; i < k; ++i) sign[i] = h[t] == 0 ? 2 : h[t] == 1 ? 0 : h[t] == 2 ? (i & 1) * 2 : h[t] == 3 ? (i * 2) % 3 : 1;
        Field F = field(g, sign, h[t] % 4, h[t] % 2); L co; std::vector<char> bad; const bool solv = reference(g, F, C, co, bad), none = idle(g, F); vh::tr();
        try { s.solveTof(&F.q[0], &F.pv[0], &F.src[0], tof); } catch (const std::exception& e) { if (!none && solv) { vh::fail("failure", "field %d: %s", (int)t, e.what()); break; } continue; }
        if (none) { vh::fail("idle", "field %d: a cell nothing flows out of is not reported", (int)t); break; }
        if (solv && !compare2(g, F, C, tof, co, bad, vh::fmt("%s field %d", text(C).c_str(), (int)t))) break;
    }
    destroy_grid(g);
}
static void refusals()
{
    if (!vh::begin("refusals")) return;
    UnstructuredGrid* g = fl::grid(0); const char* bad[][2] = { { "dg_degree", "2" }, { "dg_degree", "-1" }, { "limiter_method", "Minmod" }, { "limiter_usage", "Never" } };
    for (int i = 0; i < 4; ++i) for (int t = 0; t < 2; ++t) {
        Conf c = { 1, t != 0, false, 0, 1e-3 }; fl::Quiet q; bool threw = false; parameter::ParameterGroup p = params(c); p.insertParameter("use_limiter", "true"); p.insertParameter(bad[i][0], bad[i][1]); vh::state();
        try { TofDiscGalReorder s(*g, p); } catch (const std::exception&) { threw = true; }
        if (!threw) { vh::fail("refused", "%s=%s is accepted", bad[i][0], bad[i][1]); break; }
    }
    destroy_grid(g);
}
void explore()
{
    const bool T = vh::thorough(); refusals();
    for (int nx = 1; nx < 5; ++nx) for (int ny = 1; ny < 4; ++ny) for (int nz = 0; nz < 3; ++nz) for (int a = 0; a < (nz ? 3 : 2); ++a) for (int dir = 0; dir < 2; ++dir) for (int por = 0; por < 3; ++por) uniform(nx, ny, nz, a, dir, por);
    for (int gi = fl::LARGE; gi < fl::NLARGE; ++gi) for (int p = 0; p < fl::NPATTERN; ++p) for (int b = 0; b < 4; ++b) if (T || (p + b) % 2 == 0) flow(gi, p, b);
    for (int gi = 0; gi < fl::NGRID; ++gi) {
        UnstructuredGrid* g = fl::grid(gi); int k = interior(g), n = 1; destroy_grid(g); for (int i = 0; i < k; ++i) n *= 3;
        for (int p = 0; p < n; ++p) for (int b = 0; b < 4; ++b) flow(gi, p, b);
        for (int c = 0; c < 7; ++c) for (int len = 2; len <= (T ? 3 : 2); ++len) { I h(len, 0); if (gi != 3) do history(gi, c, h); while (vh::next(h, 5)); }
    }
}
