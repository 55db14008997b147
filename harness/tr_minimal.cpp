// The small explicit and implicit transport solvers: one step over every combination of signs of viscous and gravity flux.
#include "transport.hpp"
extern "C" {
#include <opm/core/transport/minimal/spu_explicit.h>
#include <opm/core/transport/minimal/spu_implicit.h>
}
using namespace tr;
enum { NT = 11 };
static double mobw(int kr, double x) { return kr == 0 ? x / 0.7 : x * x / 0.5; }
static double mobo(int kr, double x) { return kr == 0 ? (1 - x) / 1.3 : (1 - x) * (1 - x) / 2; }
static V table(int kr) { V t; for (int i = 0; i < NT; ++i) t.push_back(mobw(kr, i / (NT - 1.0))); for (int i = 0; i < NT; ++i) t.push_back(mobo(kr, i / (NT - 1.0))); return t; }
static LD lookup(const double* t, LD s, LD* slope = 0)
{
    LD x = s * (NT - 1); int i = x < 0 ? 0 : (int)x; if (i > NT - 2) i = NT - 2;
    if (slope) *slope = (t[i + 1] - (LD)t[i]) * (NT - 1);
    return t[i] + (x - i) * ((LD)t[i + 1] - t[i]);
}
// residual of one cell, water flowing out counted positive
static void outflow(const UnstructuredGrid* g, const V& d, const V& gr, const std::vector<LD>& w, const std::vector<LD>& o, std::vector<LD>& out)
{
    out.assign(g->number_of_cells, 0);
    for (int f = 0; f < g->number_of_faces; ++f) {
        const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue;
        LD wm[2] = { w[a], w[b] }, om[2] = { o[a], o[b] }, q; if (!waterflux(d[f], gr[f], wm, om, q)) q = 0;
        out[a] += q; out[b] -= q;
    }
}
static std::vector<int> ternary(int p, int k) { std::vector<int> s; for (int i = 0; i < k; ++i, p /= 3) s.push_back(p % 3); return s; }
static V initial(int pat, int nc, int mode) { const double lv[3] = { mode == 3 ? 1.0 : mode == 2 ? 0.0 : mode ? 0.1 : 0.05, 0.37, mode > 1 ? 0.6 : 0.92 }; V s; for (int c = 0; c < nc; ++c, pat /= 3) s.push_back(lv[pat % 3]); return s; }

static void explicitstep(int gi, int kr, int dp)
{
    UnstructuredGrid* g = fl::grid(gi);
    const int nc = g->number_of_cells, k = interior(g); int n = 1, ns = 1; for (int i = 0; i < k; ++i) n *= 3; for (int c = 0; c < nc; ++c) ns *= 3;
    if (dp < n && vh::begin(vh::fmt("explicit/%s/kr%d/%d", fl::gridname(gi), kr, dp))) {
        const V d = fluxes(g, ternary(dp, k)); bool stop = false;
        for (int gp = k > 5 ? dp % 3 : 0; gp < n && !stop; gp += k > 5 ? 3 : 1) {
            V gr = fluxes(g, ternary(gp, k)); for (size_t f = 0; f < gr.size(); ++f) gr[f] *= f % 2 ? 0.5 : 2;
            for (int sp = (dp + std::abs(gp)) % (ns > 81 ? 81 : 9); sp < ns && !stop; sp += ns > 81 ? 81 : 9) {
                vh::state(); vh::tr();
                V s0 = initial(sp, nc, sp % 4 == 1 ? 2 : sp % 4 == 3 ? 3 : 0), mob(2 * nc), s(nc, 9.0), src(nc), a(s0), b, dd(d), gg(gr); std::vector<LD> w(nc), o(nc), out;
                for (int c = 0; c < nc; ++c) { w[c] = mob[2 * c] = mobw(kr, s0[c]); o[c] = mob[2 * c + 1] = mobo(kr, s0[c]); src[c] = ((c + sp) % 3 - 1) * 0.3; }
                b = mob;
                spu_explicit(g, &a[0], &s[0], &mob[0], &dd[0], &gg[0], &src[0], 0.07);
                if (a != s0 || b != mob || dd != d || gg != gr) { vh::fail("input", "an input was changed"); stop = true; }
                outflow(g, d, gr, w, o, out);
                for (int c = 0; c < nc; ++c) {
                    LD e = s0[c] + 0.07 * ((LD)(src[c] > 0 ? src[c] : src[c] * w[c] / (w[c] + o[c])) - out[c]);
                    if (!(std::fabs(s[c] - e) < 1e-14)) { vh::fail("step", "gravity %d, saturation %d: cell %d %.12g, should be %.12Lg", gp, sp, c, s[c], e); stop = true; break; }
                }
                vh::outcome(vh::hash(&s[0], 8 * nc));
            }
        }
    }
    destroy_grid(g);
}
static int calls; static bool singular;
static void densesolve(int n, int* ia, int* ja, double* sa, double* b, double* x)
{
    ++calls; std::vector<LD> A(n * n, 0), r(b, b + n);
    for (int i = 0; i < n; ++i) for (int j = ia[i]; j < ia[i + 1]; ++j) A[i * n + ja[j]] += sa[j];
    for (int k = 0; k < n; ++k) {
        int p = k; for (int i = k; i < n; ++i) if (std::fabs(A[i * n + k]) > std::fabs(A[p * n + k])) p = i;
        if (A[p * n + k] == 0) { singular = true; std::fill(x, x + n, 0.0); return; }
        if (p != k) { for (int j = 0; j < n; ++j) std::swap(A[p * n + j], A[k * n + j]); std::swap(r[p], r[k]); }
        for (int i = k + 1; i < n; ++i) { LD m = A[i * n + k] / A[k * n + k]; for (int j = k; j < n; ++j) A[i * n + j] -= m * A[k * n + j]; r[i] -= m * r[k]; }
    }
    for (int i = n - 1; i >= 0; --i) { LD v = r[i]; for (int j = i + 1; j < n; ++j) v -= A[i * n + j] * x[j]; x[i] = v / A[i * n + i]; }
}
// many cells, few boundary faces: every face carries both phases in opposite directions, or a periodic mixture
static void wide(int nx, int ny, int pat)
{
    if (!vh::begin(vh::fmt("wide/%dx%d/%d", nx, ny, pat))) return;
    UnstructuredGrid* g = create_grid_cart2d(nx, ny, 1.0, 1.0); const int nc = nx * ny, k = interior(g);
    std::vector<int> a(k), b(k); for (int i = 0; i < k; ++i) { a[i] = pat / 27 ? (i * (pat / 27)) % 3 : 1; b[i] = (i / (1 + pat % 3) + pat / 9) % 3 == 1 ? 2 : pat / 3 % 3; }
    V d = fluxes(g, a), gr = fluxes(g, b), tab = table(1), src(nc, 0.0), s0 = initial(pat * 731 + 5, nc, 0), s(s0); std::vector<LD> w(nc), o(nc), out;
    vh::tr(); calls = 0; singular = false;
    FILE* keep = stderr; stderr = fopen("/dev/null", "w");
    double nrm = spu_implicit(g, &s0[0], &s[0], 1.0 / (NT - 1), 0.0, NT, &tab[0], &d[0], &gr[0], &src[0], 0.02, densesolve);
    fclose(stderr); stderr = keep;
    LD total = 0; for (int c = 0; c < nc; ++c) { w[c] = lookup(&tab[0], s[c]); o[c] = lookup(&tab[NT], s[c]); total += s[c] - s0[c]; }
    outflow(g, d, gr, w, o, out);
    if (nrm <= 1e-9) for (int c = 0; c < nc; ++c) { LD e = (LD)s[c] - s0[c] + 0.02L * out[c]; if (!(std::fabs(e) < 1e-7)) { vh::fail("balance", "reported %g, but cell %d is off by %Lg", nrm, c, e); break; } }
    if (nrm <= 1e-9 && !(std::fabs(total) < 1e-7)) vh::fail("total", "water changes by %Lg in a closed box", total);
    destroy_grid(g);
}
static void implicitstep(int gi, int kr, int dp)
{
    UnstructuredGrid* g = fl::grid(gi);
    const int nc = g->number_of_cells, k = interior(g), nhf = g->cell_facepos[nc]; int n = 1, ns = 1; for (int i = 0; i < k; ++i) n *= 3; for (int c = 0; c < nc; ++c) ns *= 3;
    if (dp < n && vh::begin(vh::fmt("implicit/%s/kr%d/%d", fl::gridname(gi), kr, dp))) {
        V d = fluxes(g, ternary(dp, k)), tab = table(kr); bool stop = false; const int st = k > 5 ? 81 : k > 3 ? 7 : 1;
        FILE* keep = stderr; stderr = fopen("/dev/null", "w");
        for (int gp = dp % st - st; gp < n && !stop; gp += st) {
            V gr = fluxes(g, gp < 0 ? std::vector<int>(k, 1) : ternary(gp, k)); for (size_t f = 0; f < gr.size(); ++f) gr[f] *= f % 2 ? 0.5 : 2;
            for (int sp = (dp + std::abs(gp)) % (ns > 81 ? 81 : 9); sp < ns && !stop; sp += ns > 81 ? 81 : 9) {
                vh::state(); vh::tr(2);
                const double dt = gp < 0 || gp % 2 ? 0.05 : 0.6;
                V s0 = initial(sp, nc, 0), s = initial((sp * 7 + 1) % ns, nc, 0), src(nc), mob(2 * nc), dmob(2 * nc), b(nc), work(6); std::vector<LD> w(nc), o(nc), out;
                for (int c = 0; c < nc; ++c) src[c] = ((c + sp) % 3 - 1) * 0.3;
                // one assembly: residual and derivatives
                sparse_t S; std::vector<int> ia(nc + 1), ja(nhf + nc); V sa(nhf + nc); S.m = S.n = nc; S.ia = &ia[0]; S.ja = &ja[0]; S.sa = &sa[0];
                for (int c = 0; c < nc; ++c) { LD e; w[c] = lookup(&tab[0], s[c], &e); mob[2 * c] = w[c]; dmob[2 * c] = e; o[c] = lookup(&tab[NT], s[c], &e); mob[2 * c + 1] = o[c]; dmob[2 * c + 1] = e; }
                spu_implicit_assemble(g, &s0[0], &s[0], &mob[0], &dmob[0], &d[0], &gr[0], &src[0], dt, &S, &b[0], (char*)&work[0]);
                outflow(g, d, gr, w, o, out);
                for (int c = 0; c < nc && !stop; ++c) {
                    LD e = (LD)s[c] - s0[c] + dt * (out[c] - (src[c] > 0 ? src[c] : src[c] * w[c] / (w[c] + o[c])));
                    if (!(std::fabs(b[c] - e) < 1e-13)) { vh::fail("residual", "gravity %d, saturation %d: cell %d %.12g, should be %.12Lg", gp, sp, c, b[c], e); stop = true; }
                }
                if (sp % 2 == 0) for (int v = 0; v < nc && !stop; ++v) {   // derivative with one saturation
                    const LD h = 1e-7L; std::vector<LD> o1[2]; LD W = w[v], O = o[v];
                    LD src1[2]; for (int e = 0; e < 2; ++e) { w[v] = W + (e ? h : -h) * dmob[2 * v]; o[v] = O + (e ? h : -h) * dmob[2 * v + 1]; outflow(g, d, gr, w, o, o1[e]); src1[e] = src[v] > 0 ? src[v] : src[v] * w[v] / (w[v] + o[v]); }
                    w[v] = W; o[v] = O;
                    for (int c = 0; c < nc; ++c) {
                        LD D = dt * (o1[1][c] - o1[0][c]) / (2 * h) + (c == v ? 1 - dt * (src1[1] - src1[0]) / (2 * h) : 0), got = 0;
                        if (std::fabs((o1[1][c] - out[c]) - (out[c] - o1[0][c])) > 1e-6L * h * (1 + std::fabs(D)) + 1e-16L) continue;   // kink
                        for (int j = ia[c]; j < ia[c + 1]; ++j) if (ja[j] == v) got += sa[j];
                        if (!(std::fabs(got - D) < 1e-5L * (1 + std::fabs(D)))) { vh::fail("derivative", "gravity %d, saturation %d: cell %d by %d %.9Lg, should be %.9Lg", gp, sp, c, v, got, D); stop = true; break; }
                    }
                }
                // the whole step
                V s1(s0); calls = 0; singular = false;
                V sd(d), sg(gr), ss(src), st0(s0);
                double nrm = spu_implicit(g, &st0[0], &s1[0], 1.0 / (NT - 1), 0.0, NT, &tab[0], &sd[0], &sg[0], &ss[0], dt, densesolve);
                if (st0 != s0 || sd != d || sg != gr || ss != src) { vh::fail("input", "an input was changed"); stop = true; }
                for (int c = 0; c < nc && !stop; ++c) if (!(s1[c] >= 0 && s1[c] <= 1)) { vh::fail("range", "gravity %d, saturation %d: cell %d %.12g", gp, sp, c, s1[c]); stop = true; }
                if (nrm <= 1e-9 && !stop) {
                    for (int c = 0; c < nc; ++c) { w[c] = lookup(&tab[0], s1[c]); o[c] = lookup(&tab[NT], s1[c]); }
                    outflow(g, d, gr, w, o, out);
                    for (int c = 0; c < nc; ++c) {
                        LD e = (LD)s1[c] - s0[c] + dt * (out[c] - (src[c] > 0 ? src[c] : src[c] * w[c] / (w[c] + o[c])));
                        if (!(std::fabs(e) < 1e-7)) { vh::fail("balance", "gravity %d, saturation %d: reported %g, but cell %d is off by %Lg", gp, sp, nrm, c, e); stop = true; break; }
                    }
                    vh::outcome(vh::hash(&s1[0], 8 * nc));
                }
                if (gp < 0 && kr == 0 && *std::max_element(s0.begin(), s0.end()) < 0.5 && !(nrm <= 1e-9) && !stop && !singular) { vh::fail("convergence", "gravity %d, saturation %d: residual %g after a short step", gp, sp, nrm); stop = true; }
            }
        }
        fclose(stderr); stderr = keep;
    }
    destroy_grid(g);
}
void explore()
{
    for (int p = 0; p < 81; ++p) { wide(5, 5, p); wide(6, 4, p); wide(7, 5, p); }
    for (int gi = 0; gi < fl::NGRID; ++gi) {
        UnstructuredGrid* g = fl::grid(gi); int k = interior(g), n = 1; destroy_grid(g); for (int i = 0; i < k; ++i) n *= 3;
        const int st = vh::thorough() ? 1 : k > 6 ? 27 : k > 5 ? 9 : 1;
        for (int kr = 0; kr < 2; ++kr) for (int dp = 0; dp < n; ++dp) { if ((dp + kr) % st) continue; explicitstep(gi, kr, dp); implicitstep(gi, kr, dp); }
    }
}
