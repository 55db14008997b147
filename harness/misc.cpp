// Engineering quantities derived from states, fluxes and wells: every small grid, subset of cells, saturation and rate pattern.
#include "flow.hpp"
#include <opm/core/utility/miscUtilities.hpp>
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
using namespace Opm;
typedef std::vector<double> V;
typedef long double LD;
static const double day = 86400.0, bar = 1e5;

// Relative permeability depends on the cell, viscosity and matrix also on composition and cell, so a value taken for another cell shows.
static double kr(double s, int p, int c) { return s * s * (1 + 0.1 * c * (1 + p)) * (1 + 0.3 * p); }
struct Fluid : public fl::Incomp {
    Fluid(const UnstructuredGrid* g, int np_) : fl::Incomp(g, np_) { mu.push_back(0.1); rho.push_back(0.5); }
    void relperm(const int n, const double* s, const int* cells, double* k, double*) const
    { for (int i = 0; i < n; ++i) for (int p = 0; p < np; ++p) k[i * np + p] = kr(s[i * np + p], p, cells[i]); }
};
struct Oil : public fl::Black {
    Oil(const UnstructuredGrid* g, int np_, int kind) : fl::Black(g, np_, kind) {}
    LD mu(double p, const double* z, int c, int q) const { return (LD)mu0[q] * (1 + muc[q] * (p - 1)) * (1 + 0.2L * z[q]) * (1 + 0.05L * c * (1 + q)); }
    void viscosity(const int n, const double* p, const double* z, const int* cells, double* m, double*) const
    { for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) m[i * np + q] = mu(p[i], z + i * np, cells[i], q); }
    void relperm(const int n, const double* s, const int* cells, double* k, double*) const
    { for (int i = 0; i < n; ++i) for (int p = 0; p < np; ++p) k[i * np + p] = kr(s[i * np + p], p, cells[i]); }
    void matrix(const int n, const double* p, const double* z, const int* cells, double* A, double* dA) const {
        fl::Black::matrix(n, p, z, cells, A, dA);
        for (int i = 0; i < n; ++i) for (int q = 0; q < np * np; ++q) A[i * np * np + q] *= (1 + 0.01 * cells[i]) * (1 + 0.1 * z[i * np]);
        if (np == 3) for (int i = 0; i < n; ++i) A[i * 9 + 1 + 3 * 2] = 0.03 * A[i * 9 + 8] * (1 + 0.1 * p[i]);
    }
};
// saturation patterns
static V sat(int np, int a, int b)
{
    static const double lv[4] = { 0.0, 0.3, 0.5, 1.0 };
    V s(np);
    s[0] = lv[a & 3];
    if (np == 2) s[1] = 1 - s[0];
    else { s[1] = (1 - s[0]) * lv[b & 3]; s[2] = 1 - s[0] - s[1]; }
    return s;
}
static void rel(const char* kind, const V& got, const std::vector<LD>& want, const char* what)
{
    vh::tr(want.size());
    if (got.size() != want.size()) { vh::fail(kind, "%s: %d values for %d", what, (int)got.size(), (int)want.size()); return; }
    LD big = 0; for (size_t i = 0; i < want.size(); ++i) big = std::max(big, std::fabs(want[i]));
    for (size_t i = 0; i < want.size(); ++i)
        if (!vh::close_to(got[i], want[i], 1e-11, 1e-13 * big)) { vh::fail(kind, "%s[%d] is %.12g, expected %.12Lg", what, (int)i, got[i], want[i]); return; }
}

// --- mobilities for every list of cells -----------------------------------------------------------------------------------------------
static void mobility(int np, int kind, const std::vector<int>& cells, const std::vector<int>& sp)
{
    if (!vh::begin(vh::fmt("mob/p%d/k%d/c%s/s%s", np, kind, vh::str(cells).c_str(), vh::str(sp).c_str()))) return;
    UnstructuredGrid* g = fl::grid(7);
    const int n = cells.size();
    V s, press, z;
    for (int i = 0; i < n; ++i) {
        V a = sat(np, sp[i], sp[i] + i + 1); s.insert(s.end(), a.begin(), a.end());
        press.push_back(1 + 10 * i + sp[i]);
        for (int p = 0; p < np; ++p) z.push_back(0.2 + 0.3 * p + 0.1 * i);
    }
    std::vector<LD> lam(n * np), tot(n, 0), om(n, 0), ff(n * np);
    V a(3, 7.0), b(99, 7.0);
    if (kind < 0) {
        Fluid f(g, np);
        for (int i = 0; i < n; ++i) {
            for (int p = 0; p < np; ++p) { lam[i * np + p] = (LD)kr(s[i * np + p], p, cells[i]) / f.mu[p]; tot[i] += lam[i * np + p]; om[i] += lam[i * np + p] * f.rho[p]; }
            om[i] /= tot[i];
            for (int p = 0; p < np; ++p) ff[i * np + p] = lam[i * np + p] / tot[i];
        }
        computePhaseMobilities(f, cells, s, a); rel("mobility", a, lam, "phase");
        computeTotalMobility(f, cells, s, a); rel("mobility", a, tot, "total");
        computeTotalMobilityOmega(f, cells, s, a, b); rel("mobility", a, tot, "total"); rel("omega", b, om, "omega");
        computeFractionalFlow(f, cells, s, a); rel("fraction", a, ff, "fractional flow");
    } else {
        Oil f(g, np, kind);
        for (int i = 0; i < n; ++i) {
            for (int p = 0; p < np; ++p) { lam[i * np + p] = (LD)kr(s[i * np + p], p, cells[i]) / f.mu(press[i], &z[i * np], cells[i], p); tot[i] += lam[i * np + p]; }
            for (int p = 0; p < np; ++p) ff[i * np + p] = lam[i * np + p] / tot[i];
        }
        computePhaseMobilities(f, cells, press, z, s, a); rel("mobility", a, lam, "phase");
        computeTotalMobility(f, cells, press, z, s, a); rel("mobility", a, tot, "total");
        computeFractionalFlow(f, cells, press, z, s, a); rel("fraction", a, ff, "fractional flow");
    }
    vh::outcome(vh::hash(&a[0], a.size() * 8));
    destroy_grid(g);
}

// --- volumes --------------------------------------------------------------------------------------------------------------------------
static void volumes(int gi, int np, const std::vector<int>& sp)
{
    if (!vh::begin(vh::fmt("vol/%s/p%d/s%s", fl::gridname(gi), np, vh::str(sp).c_str()))) return;
    UnstructuredGrid* g = fl::grid(gi);
    const int nc = g->number_of_cells;
    V poro, s, pv(1, 3.0), sv(np, 9.0), av(np, 9.0);
    std::vector<LD> wpv, wsv(np, 0), wav;
    LD tot = 0;
    for (int c = 0; c < nc; ++c) {
        poro.push_back(0.1 + 0.05 * ((c * 3) % 5));
        V a = sat(np, sp[c % sp.size()], sp[c % sp.size()] + c); s.insert(s.end(), a.begin(), a.end());
        wpv.push_back((LD)poro[c] * g->cell_volumes[c]); tot += wpv[c];
        for (int p = 0; p < np; ++p) wsv[p] += wpv[c] * a[p];
    }
    for (int p = 0; p < np; ++p) wav.push_back(wsv[p] / tot);
    computePorevolume(*g, &poro[0], pv); rel("porevolume", pv, wpv, "pore volume");
    computeSaturatedVol(pv, s, &sv[0]); rel("volume", sv, wsv, "saturated volume");
    computeAverageSat(pv, s, &av[0]); rel("average", av, wav, "average saturation");
    for (int e = -9; e <= 9; e += 6) { // averages do not depend on the unit of volume
        V scaled(pv);
        for (int c = 0; c < nc; ++c) scaled[c] *= std::pow(10.0, e);
        std::fill(av.begin(), av.end(), 9.0);
        computeAverageSat(scaled, s, &av[0]); rel("average", av, wav, "average saturation, scaled volumes");
    }
    if (nc > 1) {
        V bad(s); bad.pop_back();
        int th = 0;
        try { computeSaturatedVol(pv, bad, &sv[0]); } catch (const std::exception&) { ++th; }
        try { computeAverageSat(pv, bad, &sv[0]); } catch (const std::exception&) { ++th; }
        VH_CHECK(th == 2, "mismatch", "sizes that do not match were accepted");
    }
    if (np == 2) {
        V w(3 * nc, 4.0), both(5 * nc, 4.0);
        toWaterSat(s, w); toBothSat(w, both);
        bool ok = int(w.size()) == nc && both.size() == s.size();
        for (int c = 0; ok && c < nc; ++c) ok = w[c] == s[2 * c] && both[2 * c] == w[c] && both[2 * c + 1] == 1 - w[c];
        VH_CHECK(ok, "watersat", "conversion");
    }
    vh::outcome(vh::hash(&sv[0], sv.size() * 8));
    destroy_grid(g);
}

// --- injected and produced ------------------------------------------------------------------------------------------------------------
static void produced(int np, int kind, int src, int sp)
{
    if (!vh::begin(vh::fmt("prod/p%d/k%d/src%d/s%d", np, kind, src, sp))) return;
    UnstructuredGrid* g = fl::grid(7);
    const int nc = 4;
    const double dt = 2.5, rate[4] = { 0, 1.5, -0.7, -2.0 };
    V q(nc), s, in(np, 5.0), out(np, 5.0), p(nc), z;
    for (int c = 0, k = src, m = sp; c < nc; ++c, k /= 4, m /= 4) {
        q[c] = rate[k % 4] * (1 + 0.1 * c);
        V a = sat(np, m % 4, m + c); s.insert(s.end(), a.begin(), a.end());
        p[c] = 1 + 7 * c; for (int f = 0; f < np; ++f) z.push_back(0.1 + 0.2 * f + 0.05 * c);
    }
    std::vector<LD> wi(np, 0), wo(np, 0);
    Fluid inc(g, np); Oil oil(g, np, std::max(kind, 0));
    for (int c = 0; c < nc; ++c) {
        if (q[c] > 0) wi[0] += (LD)q[c] * dt;
        if (q[c] < 0) {
            LD lam[3], tot = 0;
            for (int f = 0; f < np; ++f) tot += lam[f] = kr(s[c * np + f], f, c) / (kind < 0 ? (LD)inc.mu[f] : oil.mu(p[c], &z[c * np], c, f));
            V A(np * np, 0.0);
            if (kind >= 0) oil.matrix(1, &p[c], &z[c * np], &c, &A[0], 0); else for (int f = 0; f < np; ++f) A[f * (np + 1)] = 1;
            for (int f = 0; f < np; ++f) for (int k = 0; k < np; ++k) wo[k] += A[k + np * f] * lam[f] / tot * -q[c] * dt;
        }
    }
    if (kind < 0) computeInjectedProduced(inc, s, q, dt, &in[0], &out[0]);
    else {
        BlackoilState st; st.init(*g, np); st.pressure() = p; st.surfacevol() = z; st.saturation() = s;
        computeInjectedProduced(oil, st, q, dt, &in[0], &out[0]);
        V bad(q); bad.pop_back();
        bool threw = false;
        try { computeInjectedProduced(oil, st, bad, dt, &in[0], &out[0]); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "mismatch", "sizes that do not match were accepted");
    }
    rel("injected", in, wi, "injected"); rel("produced", out, wo, "produced");
    vh::outcome(vh::hash(&out[0], np * 8));
    destroy_grid(g);
}

// --- transport sources, well sums and reports -------------------------------------------------------------------------------------------
struct W3 { int np; std::vector<int> type, pos, cells; V frac; Wells* w; };
// wells: each digit picks type, composition and perforations
static W3 wells(int np, int nc, const std::vector<int>& pat)
{
    W3 r; r.np = np; r.pos.push_back(0);
    r.w = create_wells(np, 0, 0);
    for (size_t i = 0; i < pat.size(); ++i) {
        const int t = pat[i] % 3, perfs = pat[i] / 3 % 3 + (pat[i] / 3 % 3 == 2 ? 1 : 0);       // 0, 1 or 3 perforations
        static const double fr[3][3] = { { 1, 0, 0 }, { 0.25, 0.75, 0 }, { 0, 1, 0 } };
        double f[3]; for (int k = 0; k < 3; ++k) f[k] = fr[t][k];
        r.type.push_back(t < 2 ? INJECTOR : PRODUCER);
        std::vector<int> cells; V wi;
        for (int k = 0; k < perfs; ++k) { cells.push_back((3 * i + k + pat[i]) % nc); wi.push_back(1); r.cells.push_back(cells.back()); }
        r.pos.push_back(r.cells.size());
        r.frac.insert(r.frac.end(), f, f + np);
        int z = 0; double one = 1;
        add_well(t < 2 ? INJECTOR : PRODUCER, 0.5 * i, perfs, f, perfs ? &cells[0] : &z, perfs ? &wi[0] : &one, vh::fmt("W%d", (int)i).c_str(), r.w);
    }
    return r;
}
static V rates(int n, int k) { V q; const double scale = k % 2 ? 2e-6 : 1; static const double lv[3] = { 0.8, -1.2, 0 }; for (int i = 0; i < n; ++i, k /= 3) q.push_back(lv[k % 3] * (1 + 0.25 * i) * scale); return q; }
static void transport(int gi, int fl_, int src, double frac, const std::vector<int>& pat, int rk)
{
    if (!vh::begin(vh::fmt("src/%s/f%d/q%d/i%g/w%s/r%d", fl::gridname(gi), fl_, src, frac, vh::str(pat).c_str(), rk))) return;
    UnstructuredGrid* g = fl::grid(gi);
    const int nc = g->number_of_cells;
    static const double lv[3] = { 0, 0.6, -1.1 };
    V q(nc), flux(g->number_of_faces), out(1, 4.0);
    for (int c = 0, k = src; c < nc; ++c, k /= 3) q[c] = lv[gi >= fl::LARGE ? (c * c + src * c + src) % 7 % 3 : k % 3];
    for (int f = 0; f < g->number_of_faces; ++f) { int d = fl_ == 0 ? 0 : (f * fl_ + f / 3) % 3; flux[f] = lv[d] * (1 + 0.1 * (f % 50)); }
    W3 w = wells(2, nc, pat);
    V r = rates(w.cells.size(), rk);
    std::vector<LD> want(nc, 0);
    for (int c = 0; c < nc; ++c) want[c] += q[c] > 0 ? frac * q[c] : q[c];
    for (int f = 0; f < g->number_of_faces; ++f) {
        int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
        if (a >= 0 && b >= 0) continue;
        int c = a >= 0 ? a : b; LD in = a >= 0 ? -flux[f] : flux[f];
        want[c] += in > 0 ? frac * in : in;
    }
    for (size_t i = 0; i < pat.size(); ++i) for (int k = w.pos[i]; k < w.pos[i + 1]; ++k)
        want[w.cells[k]] += r[k] < 0 ? r[k] : w.type[i] == INJECTOR ? (LD)r[k] * w.frac[2 * i] : 0.0L;
    { fl::Quiet quiet; computeTransportSource(*g, q, flux, frac, pat.empty() && (rk & 1) ? 0 : w.w, r, out); }
    rel("source", out, want, "transport source");
    vh::outcome(vh::hash(&out[0], nc * 8));
    destroy_wells(w.w); destroy_grid(g);
}
static bool wellcase(int np, int kind, const std::vector<int>& pat, int rk, int sp)
{
    if (!vh::begin(vh::fmt("well/p%d/k%d/w%s/r%d/s%d", np, kind, vh::str(pat).c_str(), rk, sp))) return false;
    UnstructuredGrid* g = fl::grid(6);
    const int nc = 4, nw = pat.size();
    W3 w = wells(np, nc, pat);
    const int npf = w.cells.size();
    V r = rates(npf, rk), s, p, z, bhp;
    for (int c = 0, m = sp; c < nc; ++c, m /= 4) {
        V a = sat(np, m % 4, m + c); s.insert(s.end(), a.begin(), a.end());
        p.push_back(1 + 3 * c); for (int f = 0; f < np; ++f) z.push_back(0.1 + 0.2 * f + 0.05 * c);
    }
    for (int i = 0; i < nw; ++i) bhp.push_back((100 + i) * bar);
    Fluid inc(g, np); Oil oil(g, np, std::max(kind, 0));
    // sums
    std::vector<LD> per(nw, 0), ph(nw * np, 0), wdp, wdp2;
    V ff(nc * np), a(2, 8.0), pw;
    for (int i = 0; i < nc * np; ++i) ff[i] = 0.1 * (i + 1);
    for (int i = 0; i < npf * np; ++i) pw.push_back(i % 5 == 3 ? 0 : 0.2 + 0.1 * (i % 4));
    const double rho[3] = { 3, 2, 0.5 }, grav = 9.8;
    for (int i = 0; i < nw; ++i) for (int k = w.pos[i]; k < w.pos[i + 1]; ++k) {
        per[i] += r[k];
        LD n1 = 0, d1 = 0, n2 = 0, d2 = 0;
        for (int f = 0; f < np; ++f) {
            ph[i * np + f] += (LD)r[k] * ff[w.cells[k] * np + f];
            n1 += (LD)s[w.cells[k] * np + f] * rho[f]; d1 += s[w.cells[k] * np + f]; n2 += (LD)pw[k * np + f] * rho[f]; d2 += pw[k * np + f];
        }
        LD dz = (LD)g->cell_centroids[3 * w.cells[k] + 2] - 0.5L * i;
        wdp.push_back(n1 / d1 * dz * grav); wdp2.push_back(n2 / d2 * dz * grav);
    }
    computeFlowRatePerWell(*w.w, r, a); rel("wellsum", a, per, "well rate");
    computePhaseFlowRatesPerWell(*w.w, r, ff, a); rel("wellsum", a, ph, "well phase rate");
    computeWDP(*w.w, *g, s, rho, grav, true, a); rel("wdp", a, wdp, "pressure difference (by cell)");
    if (npf) { computeWDP(*w.w, *g, pw, rho, grav, false, a); rel("wdp", a, wdp2, "pressure difference (by perforation)"); }
    { V none(nc * np, 0.0); computeWDP(*w.w, *g, none, rho, grav, true, a); rel("wdp", a, std::vector<LD>(npf, 0), "pressure difference without any phase"); }
    // compressible transport source: surface water rate at the perforation pressure and well composition
    if (kind >= 0) {
        WellState ws; ws.perfRates() = r; ws.bhp() = bhp;
        for (int k = 0; k < npf; ++k) ws.perfPress().push_back(2 + 5 * k);
        if (np == 2) {
            std::vector<LD> want(nc, 0);
            for (int i = 0; i < nw; ++i) for (int k = w.pos[i]; k < w.pos[i + 1]; ++k) {
                if (r[k] < 0) { want[w.cells[k]] += r[k]; continue; }
                if (w.type[i] != INJECTOR) continue;
                double A[4]; oil.matrix(1, &ws.perfPress()[k], &w.frac[2 * i], &w.cells[k], A, 0);
                want[w.cells[k]] += (LD)r[k] * w.frac[2 * i] * A[0];
            }
            { fl::Quiet quiet; computeTransportSource(oil, w.w, ws, a); }
            rel("source", a, want, "compressible transport source");
            computeTransportSource(oil, 0, ws, a);
            rel("source", a, std::vector<LD>(nc, 0), "no wells");
        } else {
            bool threw = false; fl::Quiet quiet;
            try { computeTransportSource(oil, w.w, ws, a); } catch (const std::exception&) { threw = true; }
            VH_CHECK(threw, "source", "three phases accepted");
        }
    }
    // report: two points
    WellReport rep;
    std::vector<std::vector<LD> > lines;
    for (int t = 0; t < 2; ++t) {
        V rt(r), st(s); if (t) { std::reverse(rt.begin(), rt.end()); for (int c = 0; c < nc; ++c) for (int f = 0; f < np; ++f) st[c * np + f] = s[(nc - 1 - c) * np + f]; }
        std::vector<LD> l(1, (3 + t));
        for (int i = 0; i < nw; ++i) {
            LD tot = 0, wat = 0, abs = 0;
            for (int k = w.pos[i]; k < w.pos[i + 1]; ++k) {
                const int c = w.cells[k]; LD q = rt[k] * day;
                tot += q; abs += std::fabs(q);
                if (q > 0) { wat += q * w.frac[np * i]; continue; }
                LD lam[3], sum = 0;
                for (int f = 0; f < np; ++f) sum += lam[f] = kr(st[c * np + f], f, c) / (kind < 0 ? (LD)inc.mu[f] : oil.mu(p[c], &z[c * np], c, f));
                wat += q * lam[0] / sum;
            }
            // a total that cancels but for rounding has no meaningful water fraction
            l.push_back(100 + i); l.push_back(tot); l.push_back(abs == 0 ? 0 : std::fabs(tot) < 1e-9 * abs ? std::nanl("") : wat / tot);
        }
        lines.push_back(l);
        if (kind < 0) rep.push(inc, *w.w, st, (3 + t) * day, bhp, rt); else rep.push(oil, *w.w, p, z, st, (3 + t) * day, bhp, rt);
    }
    for (int extra = -1; extra < 2; extra += 2) if (nw + extra >= 0) {     // pressures for other than the wells are refused
        V b(nw + extra, bar); bool threw = false;
        try { if (kind < 0) rep.push(inc, *w.w, s, day, b, r); else rep.push(oil, *w.w, p, z, s, day, b, r); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "report", "pressures of %d wells for %d accepted", nw + extra, nw);
    }
    std::ostringstream os; os.precision(16); rep.write(os);
    std::istringstream is(os.str()); std::string line;
    size_t nl = 0;
    for (; std::getline(is, line); ++nl) {
        std::istringstream ls(line); std::vector<double> v; std::string x; while (ls >> x) v.push_back(atof(x.c_str()));
        if (nl >= 2 || v.size() != lines[nl].size()) { vh::fail("report", "line %d has %d values", (int)nl, (int)v.size()); break; }
        for (size_t i = 0; i < v.size(); ++i) {
            vh::tr();
            if (lines[nl][i] == lines[nl][i] && !vh::close_to(v[i], lines[nl][i], 1e-10, 1e-9)) vh::fail("report", "line %d value %d is %.12g, expected %.12Lg", (int)nl, (int)i, v[i], lines[nl][i]);
        }
    }
    VH_CHECK(nl == 2, "report", "%d lines", (int)nl);
    vh::outcome(os.str());
    destroy_wells(w.w); destroy_grid(g);
    return true;
}
static void tosrc(const std::vector<int>& pat, int before)
{
    if (!vh::begin(vh::fmt("tosrc/w%s/b%d", vh::str(pat).c_str(), before))) return;
    // digit: 0 shut, 1 injector, 2 injector with composition, 3 producer, 4 second control current, 5 pressure control, 6 two perforations, 7 partial rate, 8 second control current and partial, 9 second control current, first partial
    Wells* w = create_wells(2, 0, 0);
    std::vector<LD> want(5, 0); bool bad = false;
    for (size_t i = 0; i < pat.size(); ++i) {
        const int t = pat[i];
        double f[2] = { t == 2 ? 0.3 : 1.0, t == 2 ? 0.7 : 0.0 }, WI[2] = { 1, 1 }, full[2] = { 1, 1 }, part[2] = { 1, 0 }, q = (t == 3 ? -2.0 : 1.5) * (i + 1);
        int cells[2] = { int(2 * i * (1 + t % 2)) % 3, int(2 * i + 1) % 3 };
        add_well(t == 3 ? PRODUCER : INJECTOR, 0, t == 6 ? 2 : 1, f, cells, WI, 0, w);
        if (t == 4 || t >= 8) append_well_controls(t == 4 ? BHP : RESERVOIR_RATE, 1e5, t == 9 ? part : full, i, w);
        append_well_controls(t == 5 ? BHP : RESERVOIR_RATE, q, t == 7 || t == 8 ? part : full, i, w);
        set_current_control(i, t == 0 ? -1 : t == 4 || t >= 8 ? 1 : 0, w);
        if (t == 5 || t == 6 || t == 7 || t == 8) bad = true;
        else if (t) want[cells[0]] += q * (t == 3 ? 1.0 : f[0]);
    }
    V src(before, 9.0);
    bool threw = false;
    { fl::Quiet quiet; try { wellsToSrc(*w, 5, src); } catch (const std::exception&) { threw = true; } }
    VH_CHECK(threw == bad, "tosrc", threw ? "refused" : "accepted wells it cannot represent");
    if (!threw && !bad) rel("tosrc", src, want, "source");
    vh::outcome(threw ? 1 : vh::hash(&src[0], 40));
    destroy_wells(w);
}
static void velocity(int gi, int v)
{
    if (!vh::begin(vh::fmt("vel/%s/v%d", fl::gridname(gi), v))) return;
    UnstructuredGrid* g = fl::grid(gi);
    const int d = g->dimensions, nc = g->number_of_cells;
    double u[3]; for (int i = 0, k = v; i < 3; ++i, k /= 3) u[i] = k % 3 - 1.0 + 0.25 * (k % 3 == 2);
    V flux(g->number_of_faces), cv(2, 7.0);
    for (int f = 0; f < g->number_of_faces; ++f) { flux[f] = 0; for (int i = 0; i < d; ++i) flux[f] += u[i] * g->face_normals[f * d + i]; }
    estimateCellVelocity(*g, flux, cv);
    // exact where the computed geometry closes up: sum of (face centroid - centroid) x normal is volume x identity
    for (int c = 0; c < nc; ++c) for (int i = 0; i < d; ++i) {
        LD want = 0;
        for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
            int f = g->cell_faces[j]; LD sgn = g->face_cells[2 * f] == c ? 1 : -1;
            want += sgn * flux[f] * ((LD)g->face_centroids[f * d + i] - g->cell_centroids[c * d + i]) / g->cell_volumes[c];
        }
        vh::tr();
        VH_CHECK(int(cv.size()) == nc * d && vh::close_to(cv[c * d + i], want, 1e-10, 1e-12), "velocity", "cell %d component %d: %.12g, expected %.12Lg", c, i, cv[c * d + i], want);
        if (gi != 3 && gi != 4) VH_CHECK(vh::close_to(cv[c * d + i], u[i], 1e-10, 1e-12), "velocity", "constant field %g became %.12g in cell %d", u[i], cv[c * d + i], c);
    }
    // a flux pattern without symmetry
    for (int f = 0; f < g->number_of_faces; ++f) flux[f] = (f * 7 + v) % 5 - 2.0;
    estimateCellVelocity(*g, flux, cv);
    for (int c = 0; c < nc; ++c) for (int i = 0; i < d; ++i) {
        LD want = 0;
        for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
            int f = g->cell_faces[j]; LD sgn = g->face_cells[2 * f] == c ? 1 : -1;
            want += sgn * flux[f] * ((LD)g->face_centroids[f * d + i] - g->cell_centroids[c * d + i]) / g->cell_volumes[c];
        }
        VH_CHECK(vh::close_to(cv[c * d + i], want, 1e-10, 1e-12), "velocity", "pattern: cell %d component %d: %.12g, expected %.12Lg", c, i, cv[c * d + i], want);
    }
    vh::outcome(vh::hash(&cv[0], cv.size() * 8));
    destroy_grid(g);
}
static void matvec(int n, int np, int pat)
{
    if (!vh::begin(vh::fmt("zAs/n%d/p%d/a%d", n, np, pat))) return;
    V A(n * np * np), s(n * np), z(n * np, 3.0);
    for (size_t i = 0; i < A.size(); ++i) A[i] = ((i * 5 + pat) % 7) * 0.5 - 1;
    for (size_t i = 0; i < s.size(); ++i) s[i] = ((i * 3 + pat) % 5) * 0.25;
    computeSurfacevol(n, np, &A[0], &s[0], &z[0]);
    std::vector<LD> want(n * np, 0);
    for (int i = 0; i < n; ++i) for (int a = 0; a < np; ++a) for (int b = 0; b < np; ++b) want[i * np + a] += (LD)A[i * np * np + a + np * b] * s[i * np + b];
    rel("surfacevol", z, want, "z");
    vh::outcome(vh::hash(&z[0], z.size() * 8));
}
static void watercut(const std::vector<int>& h)
{
    if (!vh::begin("cut/" + vh::str(h))) return;
    Watercut w; std::ostringstream os, want;
    for (size_t i = 0; i < h.size(); ++i) { w.push(h[i] * day, 0.25 * h[i], 2.0 * h[i]); want << h[i] << " " << 0.25 * h[i] << " " << 2 * h[i] << "\n"; }
    w.write(os);
    const std::string all = os.str(); std::istringstream a(all), b(want.str()); std::string x, y; bool ok = true;
    do { bool p = bool(a >> x), q = bool(b >> y); if (!p && !q) break; ok = p == q && atof(x.c_str()) == atof(y.c_str()); } while (ok);
    VH_CHECK(ok && std::count(all.begin(), all.end(), '\n') == (long)h.size(), "watercut", "%s", os.str().c_str());
    vh::outcome(os.str()); vh::tr(h.size());
}

void explore()
{
    const bool T = vh::thorough();
    for (int np = 2; np <= 3; ++np) for (int kind = -1; kind < 3; ++kind)
        for (int n = 1; n <= (T ? 5 : 4); ++n) {
            std::vector<int> d(2 * n, 0);
            if (n <= 3) do { std::vector<int> c(d.begin(), d.begin() + n), s(d.begin() + n, d.end()); mobility(np, kind, c, s); } while (vh::next(d, n < 3 || T ? 4 : 3));
            else { std::vector<int> c(n, 0); do { std::vector<int> s(n); for (int i = 0; i < n; ++i) s[i] = (i + c[0]) % 4; mobility(np, kind, c, s); } while (vh::next(c, 4)); }
        }
    for (int np = 2; np <= 3; ++np) for (int kind = -1; kind < 3; ++kind) for (int n = 17; n <= 90; n += 24) for (int k = 0; k < 6; ++k) { std::vector<int> c(n), s(n); for (int i = 0; i < n; ++i) { c[i] = (i * 3 + i / 5 + k) % 4; s[i] = (i * k + i / 9) % 4; } mobility(np, kind, c, s); }
    for (int gi = fl::LARGE; gi < fl::NLARGE; ++gi) {
        for (int np = 2; np <= 3; ++np) { std::vector<int> s(4, 0); do volumes(gi, np, s); while (vh::next(s, 4)); }
        for (int f = 0; f < 4; ++f) for (int src = 0; src < 81; src += 8) for (int r = 0; r < 2; ++r) transport(gi, f, src, src % 3 * 0.4, std::vector<int>(), r);
        std::vector<int> p(3, 0); do for (int r = 0; r < 9; ++r) transport(gi, 1 + r % 2, 7, 0.4, p, r); while (vh::next(p, 9));
        for (int v = 0; v < 27; ++v) velocity(gi, v);
    }
    for (int gi = 0; gi < fl::NGRID; ++gi) for (int np = 2; np <= 3; ++np) {
        std::vector<int> s(T ? 5 : 4, 0);
        do volumes(gi, np, s); while (vh::next(s, 4));
    }
    for (int np = 2; np <= 3; ++np) for (int kind = -1; kind < 3; ++kind) for (int src = 0; src < 256; ++src)
        for (int sp = 0; sp < 256; ++sp) if (T || sp % 17 == 0 || src % 37 == 5) produced(np, kind, src, sp);
    {
        const double fr[3] = { 0, 0.4, 1 };
        for (int gi = 0; gi < fl::NGRID; ++gi) {
            for (int f = 0; f < 4; ++f) for (int src = 0; src < 81; ++src) for (int i = 0; i < 3; ++i) for (int r = 0; r < 2; ++r) transport(gi, f, src, fr[i], std::vector<int>(), r);
            std::vector<int> p(2, 0);
            do { int npf = 0; for (int k = 0; k < 2; ++k) { int m = p[k] / 3 % 3; npf += m + (m == 2); }
                int nr = 1; for (int k = 0; k < std::min(npf, T ? 6 : 4); ++k) nr *= 3;
                for (int r = 0; r < nr; ++r) transport(gi, 1 + r % 2, 7, 0.4, p, r); } while (vh::next(p, 9));
        }
    }
    for (int np = 2; np <= 3; ++np) for (int kind = -1; kind < 3; ++kind) for (int nw = 0; nw <= (T ? 3 : 2); ++nw) {
        std::vector<int> p(nw, 0);
        do { int npf = 0; for (int k = 0; k < nw; ++k) { int m = p[k] / 3 % 3; npf += m + (m == 2); }
            int nr = 1; for (int k = 0; k < std::min(npf, T ? 5 : 4); ++k) nr *= 3;
            for (int r = 0; r < nr; ++r) for (int sp = 27; sp < 256; sp += nw == 3 ? 111 : 55) wellcase(np, kind, p, r, sp); } while (nw && vh::next(p, 9));
    }
    for (int nw = 0; nw <= (T ? 4 : 3); ++nw) { std::vector<int> p(nw, 0); do for (int b = 0; b < 7; b += 6) tosrc(p, b); while (nw && vh::next(p, 10)); }
    for (int gi = 0; gi < fl::NGRID; ++gi) for (int v = 0; v < 27; ++v) velocity(gi, v);
    for (int n = 1; n <= 3; ++n) for (int np = 2; np <= 3; ++np) for (int a = 0; a < 35; ++a) matvec(n, np, a);
    for (int n = 0; n <= 4; ++n) { std::vector<int> h(n, 0); do watercut(h); while (n && vh::next(h, 3)); }
}
