// Fluid properties: every small PVT table and every composition on a pressure grid, against independent evaluation.
#include "deck.hpp"
#include <opm/core/props/pvt/SinglePvtDead.hpp>
#include <opm/core/props/pvt/SinglePvtDeadSpline.hpp>
#include <opm/core/props/pvt/SinglePvtLiveOil.hpp>
#include <opm/core/props/pvt/SinglePvtLiveGas.hpp>
#include <opm/core/props/pvt/SinglePvtConstCompr.hpp>
#include <opm/core/props/pvt/PvtPropertiesIncompFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesBasic.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid.h>
using namespace Opm;
typedef std::vector<double> V;
typedef std::vector<V> VV;
typedef std::vector<VV> VVV;
static const double bar = 1e5;
enum { W = 0, O = 1, G = 2 };

static int seg(const V& x, double q)
{
    int n = x.size(), i = 0;
    while (i + 2 < n && q >= x[i + 1]) ++i;
    return i;
}
static double lin(const V& x, const V& y, double q)
{
    int i = seg(x, q);
    return y[i] + (y[i + 1] - y[i]) * (q - x[i]) / (x[i + 1] - x[i]);
}

// ---- reference fluids: value of B, mu and R for pressure and surface volumes (w, o, g) ----
struct Ref {
    virtual ~Ref() {}
    virtual double B(double p, const double* z) const = 0;
    virtual double mu(double p, const double* z) const = 0;
    virtual double R(double, const double*) const { return 0; }
    virtual bool definedB(const double*) const { return true; }
    virtual bool defined(const double*) const { return true; }
};
struct RConst : Ref {
    double pr, b, c, m, v;
    RConst(double pr_, double b_, double c_, double m_, double v_) : pr(pr_), b(b_), c(c_), m(m_), v(v_) {}
    double B(double p, const double*) const { double x = c * (p - pr); return b / (1 + x + x * x / 2); }
    double mu(double p, const double*) const { double x = -v * (p - pr); return m / (1 + x + x * x / 2); }
};
struct RDead : Ref {
    V p, ib, m;
    RDead(const VV& t) : p(t[0]), m(t[2]) { for (size_t i = 0; i < p.size(); ++i) ib.push_back(1 / t[1][i]); }
    double B(double q, const double*) const { return 1 / lin(p, ib, q); }
    double mu(double q, const double*) const { return lin(p, m, q); }
};
struct RSpline : Ref {
    V x, ib, m;
    RSpline(const VV& t, int n) {
        V i0; for (size_t i = 0; i < t[0].size(); ++i) i0.push_back(1 / t[1][i]);
        MonotCubicInterpolator a(t[0], i0), b(t[0], t[2]);
        for (int i = 0; i < n; ++i) { double w = double(i) / (n - 1), q = (1 - w) * t[0][0] + w * t[0].back(); x.push_back(q); ib.push_back(a(q)); m.push_back(b(q)); }
    }
    double cl(double q) const { return std::min(std::max(q, x[0]), x.back()); }
    double B(double q, const double*) const { return 1 / lin(x, ib, cl(q)); }
    double mu(double q, const double*) const { return lin(x, m, cl(q)); }
};
// sections of rows (p, B, mu); the first row of a section is saturated
struct Section { double key; VV rows; };
struct RLiveOil : Ref {
    V rs, pb, ib, m;            // saturated line
    VV bp, bb, bm;              // branches (p, 1/B, mu), full or borrowed
    RLiveOil(const std::vector<Section>& s) {
        const int n = s.size();
        std::vector<int> full;
        for (int i = 0; i < n; ++i) {
            rs.push_back(s[i].key); pb.push_back(s[i].rows[0][0]); ib.push_back(1 / s[i].rows[0][1]); m.push_back(s[i].rows[0][2]);
            if (s[i].rows.size() > 1) full.push_back(i);
        }
        for (int i = 0; i < n; ++i) {
            V p, b, u;
            for (size_t r = 0; r < s[i].rows.size(); ++r) { p.push_back(s[i].rows[r][0]); b.push_back(1 / s[i].rows[r][1]); u.push_back(s[i].rows[r][2]); }
            if (p.size() == 1) {
                // slopes borrowed from the nearest full sections on both sides, linear in the solution ratio
                int lo = -1, hi = -1;
                for (size_t k = 0; k < full.size(); ++k) { if (full[k] < i) lo = full[k]; if (full[k] > i && hi < 0) hi = full[k]; }
                // so the slope at a pressure is the mean of theirs at that pressure; their own ends are extended
                double w = lo < 0 ? 1 : (s[i].key - s[lo].key) / (s[hi].key - s[lo].key);
                if (lo < 0) lo = hi;
                std::set<double> at;
                for (int q = 0; q < 2; ++q) { const VV& f = s[q ? hi : lo].rows; for (size_t r = 1; r < f.size(); ++r) if (f[r][0] > p[0] + 2) at.insert(f[r][0]); }
                at.insert(p[0] + 900 * bar);
                for (std::set<double>::iterator k = at.begin(); k != at.end(); ++k) {
                    double from = p.back(), mid = (from + *k) / 2, sl[2][2];
                    for (int q = 0; q < 2; ++q) {
                        const VV& f = s[q ? hi : lo].rows;
                        size_t g = 1;
                        while (g + 1 < f.size() && mid >= f[g][0]) ++g;
                        sl[q][0] = (1 / f[g][1] - 1 / f[g - 1][1]) / (f[g][0] - f[g - 1][0]);
                        sl[q][1] = (f[g][2] - f[g - 1][2]) / (f[g][0] - f[g - 1][0]);
                    }
                    b.push_back(b.back() + (*k - from) * (sl[0][0] + w * (sl[1][0] - sl[0][0])));
                    u.push_back(u.back() + (*k - from) * (sl[0][1] + w * (sl[1][1] - sl[0][1])));
                    p.push_back(*k);
                }
            }
            bp.push_back(p); bb.push_back(b); bm.push_back(u);
        }
    }
    double ratio(const double* z) const { return z[O] == 0 ? 0 : z[G] / z[O]; }
    double eval(double p, const double* z, const V& sat, const VV& br) const {
        double r = ratio(z);
        if (lin(pb, rs, p) < r) return lin(pb, sat, p);
        int i = seg(rs, r);
        double a = lin(bp[i], br[i], p), b = lin(bp[i + 1], br[i + 1], p);
        return a + (b - a) * (r - rs[i]) / (rs[i + 1] - rs[i]);
    }
    double B(double p, const double* z) const { return 1 / eval(p, z, ib, bb); }
    double mu(double p, const double* z) const { return eval(p, z, m, bm); }
    double R(double p, const double* z) const { return z[G] == 0 ? 0 : std::min(lin(pb, rs, p), z[G] / z[O]); }
    bool defined(const double* z) const { return z[O] > 0; }
    bool definedB(const double* z) const { return z[O] > 0; }
};
// sections keyed by pressure, rows (Rv, B, mu), the first row saturated
struct RLiveGas : Ref {
    V pp, rv, b, m;
    std::vector<Section> s;
    RLiveGas(const std::vector<Section>& s_) : s(s_) {
        for (size_t i = 0; i < s.size(); ++i) { pp.push_back(s[i].key); rv.push_back(s[i].rows[0][0]); b.push_back(s[i].rows[0][1]); m.push_back(s[i].rows[0][2]); }
    }
    double branch(int i, int item, double r) const {
        const VV& q = s[i].rows;
        if (q.size() < 2) return q[0][item];
        V x, y;
        for (size_t k = 0; k < q.size(); ++k) { x.push_back(-q[k][0]); y.push_back(q[k][item]); }
        return lin(x, y, -r);
    }
    double eval(double p, const double* z, int item) const {
        if (lin(pp, rv, p) < z[O] / z[G]) return lin(pp, item == 1 ? b : m, p);
        double r = z[O] / z[G];
        int n = pp.size(), i = seg(pp, p);
        if (p <= pp[0]) return branch(0, item, r);
        if (p >= pp[n - 1]) return branch(n - 1, item, r);
        double w = (p - pp[i]) / (pp[i + 1] - pp[i]);
        // a section without undersaturated data is not combined with one that has
        if (s[i].rows.size() < 2) return s[i].rows[0][item] + w * (s[i + 1].rows[0][item] - s[i].rows[0][item]);
        return branch(i, item, r) * (1 - w) + branch(i + 1, item, r) * w;
    }
    double B(double p, const double* z) const { return z[G] == 0 ? 1.0 : eval(p, z, 1); }
    double mu(double p, const double* z) const { return eval(p, z, 2); }
    double R(double p, const double* z) const { return z[O] == 0 ? 0 : std::min(lin(pp, rv, p), z[O] / z[G]); }
    bool defined(const double* z) const { return z[G] > 0; }
};

static const VV& compositions()
{
    static VV z;
    if (z.empty()) {
        const double ratios[] = { 0, 1e-4, 2, 20, 60, 150, 1e5 };
        for (int i = 0; i < 7; ++i) { double a[3] = { 0.5, 2.0, 2.0 * ratios[i] }; z.push_back(V(a, a + 3)); }
        const double vap[] = { 5e-5, 3.1e-4, 9e-4 };
        for (int i = 0; i < 3; ++i) { double a[3] = { 0.1, 3.0 * vap[i], 3.0 }; z.push_back(V(a, a + 3)); }
        double e[4][3] = { { 1, 0, 0 }, { 1, 0, 1 }, { 0, 1, 0 }, { 1, 1, 0 } };
        for (int i = 0; i < 4; ++i) z.push_back(V(e[i], e[i] + 3));
    }
    return z;
}

// the object must agree with the reference everywhere, its derivatives with its own values
static void check(const SinglePvtInterface& f, const Ref& ref, const V& nodes, bool bulk)
{
    const VV& zs = compositions();
    V ps;
    for (size_t i = 0; i < nodes.size(); ++i) {
        ps.push_back(nodes[i]);
        if (i + 1 < nodes.size()) for (int k = 1; k < 4; ++k) ps.push_back(nodes[i] + (nodes[i + 1] - nodes[i]) * k / 4);
    }
    ps.push_back(0.6 * nodes[0]); ps.push_back(nodes.back() * 1.25 + 1 * bar);
    V p, z;
    for (size_t a = 0; a < ps.size(); ++a) for (size_t b = 0; b < zs.size(); ++b) {
        p.push_back(ps[a]);
        z.insert(z.end(), zs[b].begin(), zs[b].end());
    }
    const int n = p.size();
    V mu(n, NAN), B(n, NAN), B2(n, NAN), dB(n, NAN), R(n, NAN), R2(n, NAN), dR(n, NAN);
    f.mu(n, &p[0], &z[0], &mu[0]);
    f.B(n, &p[0], &z[0], &B[0]);
    f.dBdp(n, &p[0], &z[0], &B2[0], &dB[0]);
    f.R(n, &p[0], &z[0], &R[0]);
    f.dRdp(n, &p[0], &z[0], &R2[0], &dR[0]);
    const double h = 2e-4 * bar;
    V pl(p), pr(p), Bl(n), Br(n), Rl(n), Rr(n);
    for (int i = 0; i < n; ++i) { pl[i] -= h; pr[i] += h; }
    f.B(n, &pl[0], &z[0], &Bl[0]); f.B(n, &pr[0], &z[0], &Br[0]);
    f.R(n, &pl[0], &z[0], &Rl[0]); f.R(n, &pr[0], &z[0], &Rr[0]);
    for (int i = 0; i < n; ++i) {
        const double* zz = &z[3 * i];
        std::string at = vh::fmt("p=%.9g bar z=(%g,%g,%g)", p[i] / bar, zz[0], zz[1], zz[2]);
        vh::tr(5);
        // numbers in every state, including those without the phase
        VH_CHECK(std::isfinite(mu[i]) && std::isfinite(B[i]) && std::isfinite(dB[i]) && std::isfinite(R[i]) && std::isfinite(dR[i]), "finite",
                 "%s: mu %g B %g dB %g R %g dR %g", at.c_str(), mu[i], B[i], dB[i], R[i], dR[i]);
        if (ref.defined(zz)) {
            double w = ref.mu(p[i], zz);
            VH_CHECK(vh::close_to(mu[i], w, 1e-9, 1e-15), "mu", "%s: viscosity %.12g, expected %.12g", at.c_str(), mu[i], w);
            w = ref.R(p[i], zz);
            VH_CHECK(vh::close_to(R[i], w, 1e-9, 1e-15), "R", "%s: solution ratio %.12g, expected %.12g", at.c_str(), R[i], w);
        }
        if (ref.definedB(zz)) {
            double w = ref.B(p[i], zz);
            VH_CHECK(vh::close_to(B[i], w, 1e-9), "B", "%s: formation volume factor %.12g, expected %.12g", at.c_str(), B[i], w);
        }
        VH_CHECK(B[i] == B2[i] && R[i] == R2[i], "with derivatives", "%s: B %.15g / %.15g R %.15g / %.15g", at.c_str(), B[i], B2[i], R[i], R2[i]);
        // the derivative is the slope on one of the sides
        double l = (B[i] - Bl[i]) / h, r = (Br[i] - B[i]) / h, c = (Br[i] - Bl[i]) / (2 * h), tol = 1e-11 * std::fabs(B[i]) / h;
        bool smooth = std::fabs(l - r) < 1e-3 * std::fabs(l) + 2 * tol;
        bool ok = smooth ? vh::close_to(dB[i], c, 1e-5, tol) : (vh::close_to(dB[i], l, 1e-3, tol) || vh::close_to(dB[i], r, 1e-3, tol));
        VH_CHECK(ok, "dB/dp", "%s: %.9g, slopes %.9g %.9g", at.c_str(), dB[i], l, r);
        l = (R[i] - Rl[i]) / h; r = (Rr[i] - R[i]) / h; tol = 1e-11 * std::max(1e-4, std::fabs(R[i])) / h;
        VH_CHECK(vh::close_to(dR[i], l, 1e-6, tol) || vh::close_to(dR[i], r, 1e-6, tol), "dR/dp", "%s: %.9g, slopes %.9g %.9g", at.c_str(), dR[i], l, r);
        vh::outcome(vh::hash(&mu[i], 8, vh::hash(&B[i], 8)));
        // one at a time gives the same
        if (bulk) {
            double a1, b1, r1, d1;
            f.mu(1, &p[i], zz, &a1); f.dBdp(1, &p[i], zz, &b1, &d1); f.R(1, &p[i], zz, &r1);
            VH_CHECK(!memcmp(&a1, &mu[i], 8) && !memcmp(&b1, &B[i], 8) && !memcmp(&d1, &dB[i], 8) && !memcmp(&r1, &R[i], 8), "bulk", "%s: differs in bulk", at.c_str());
        }
        vh::state();
    }
}
static void phases(SinglePvtInterface& f) { int pos[3] = { 0, 1, 2 }; f.setPhaseConfiguration(3, pos); }

// Live oil tables: rows[i] undersaturated rows of section i (0-2), shape of the branches
static std::vector<Section> oilsections(const std::vector<int>& rows, int kind)
{
    std::vector<Section> s;
    const double rs[] = { 5, 30, 80, 110, 200, 240 }, pb[] = { 20, 70, 160, 210, 330, 360 };
    for (size_t i = 0; i < rows.size(); ++i) {
        Section q; q.key = i < 6 ? rs[i] : rs[5] + 35.0 * (i - 5);
        double B0 = 1.05 + 0.1 * i + 0.02 * (i % 2), m0 = i < 6 ? 1.6e-3 - 2e-4 * i : 6e-4 - 1e-5 * i;
        double sb = (1 + 0.3 * (i % 6)) * 1.1e-4, sm = (1 + 0.4 * (i % 3)) * 1.3e-6;
        double p = i < 6 ? pb[i] : pb[5] + 30.0 * (i - 5), ib = 1 / B0, m = m0;
        double a[3] = { p * bar, 1 / ib, m };
        q.rows.push_back(V(a, a + 3));
        for (int r = 0; r < rows[i]; ++r) {
            double dp = 60 + 25 * r + (kind == 2 ? 40.0 * (i % 6) : 0);
            double bend = kind == 1 ? 1 - 0.3 * r : 1;
            ib += sb * dp * bend; m += sm * dp * bend; p += dp;
            double b[3] = { p * bar, 1 / ib, m };
            q.rows.push_back(V(b, b + 3));
        }
        s.push_back(q);
    }
    return s;
}
static std::vector<Section> gassections(const std::vector<int>& rows, int kind)
{
    std::vector<Section> s;
    const double pp[] = { 30, 90, 150, 280 };
    const double rv[2][4] = { { 1e-4, 2e-4, 5e-4, 8e-4 }, { 3e-4, 2e-4, 2.5e-4, 7e-4 } };
    for (size_t i = 0; i < rows.size(); ++i) {
        Section q; q.key = (i < 4 ? pp[i] : pp[3] + 40.0 * (i - 3)) * bar; const double v = i < 4 ? rv[kind][i] : 8e-4 + 1e-4 * (i - 3);
        double B0 = 0.04 / (1 + i), m0 = 1.4e-5 + 3e-6 * i;
        for (int r = 0; r <= rows[i]; ++r) {
            double f = rows[i] == 0 ? 0 : double(r) / rows[i];
            double a[3] = { v * (1 - f), B0 * (1 + 0.02 * f + 0.01 * f * f), m0 * (1 - 0.05 * f - 0.02 * f * f * (i % 8)) };
            q.rows.push_back(V(a, a + 3));
        }
        s.push_back(q);
    }
    return s;
}
static VVV table(const std::vector<Section>& s)
{
    VV t;
    for (size_t i = 0; i < s.size(); ++i) {
        V r(1, s[i].key);
        for (size_t k = 0; k < s[i].rows.size(); ++k) r.insert(r.end(), s[i].rows[k].begin(), s[i].rows[k].end());
        t.push_back(r);
    }
    return VVV(1, t);
}
static V oilnodes(const std::vector<Section>& s)
{
    std::set<double> p;
    for (size_t i = 0; i < s.size(); ++i) for (size_t r = 0; r < s[i].rows.size(); ++r) p.insert(s[i].rows[r][0]);
    return V(p.begin(), p.end());
}
// every row of a live oil table comes back at its own pressure and ratio
static void rowsback(const SinglePvtInterface& f, const std::vector<Section>& s)
{
    for (size_t i = 0; i < s.size(); ++i) for (size_t r = 0; r < s[i].rows.size(); ++r) {
        double p = s[i].rows[r][0], z[3] = { 0.3, 2.0, 2.0 * s[i].key }, B, mu;
        f.B(1, &p, z, &B); f.mu(1, &p, z, &mu);
        vh::tr(2);
        VH_CHECK(vh::close_to(B, s[i].rows[r][1], 1e-9) && vh::close_to(mu, s[i].rows[r][2], 1e-9), "row", "section %d row %d: B %.12g mu %.12g, table %.12g %.12g",
                 (int)i, (int)r, B, mu, s[i].rows[r][1], s[i].rows[r][2]);
    }
}

// ---- whole decks ----
static std::string pv(const VV& t, double pscale, double mscale)
{
    std::string s;
    for (size_t i = 0; i < t[0].size(); ++i) s += dk::num(t[0][i] / pscale) + " " + dk::num(t[1][i]) + " " + dk::num(t[2][i] / mscale) + "\n";
    return s + "/\n";
}
static void whole(int phase, int oil, int gas, int water, int samples)
{
    const bool w = phase != 1, g = phase != 0;
    std::string d = "RUNSPEC\nDIMENS\n 2 1 1 /\nMETRIC\nOIL\n";
    if (w) d += "WATER\n";
    if (g) d += "GAS\n";
    d += "GRID\nPROPS\nDENSITY\n 805.5 1021.25 0.875 /\n";
    VV dead(3), deadg(3);
    { double a[3][3] = { { 50, 200, 400 }, { 1.2, 1.1, 1.07 }, { 1.1, 1.4, 2.3 } }; for (int i = 0; i < 3; ++i) dead[i] = V(a[i], a[i] + 3); }
    { double a[3][3] = { { 40, 120, 300 }, { 0.03, 0.011, 0.0042 }, { 0.012, 0.015, 0.027 } }; for (int i = 0; i < 3; ++i) deadg[i] = V(a[i], a[i] + 3); }
    for (int i = 0; i < 3; ++i) { dead[0][i] *= bar; dead[2][i] *= 1e-3; deadg[0][i] *= bar; deadg[2][i] *= 1e-3; }
    std::vector<int> ro(4, 1); ro[2] = 0; ro[3] = 2;
    std::vector<int> rg(3, 1);
    std::vector<Section> so = oilsections(ro, 0), sg = gassections(rg, 0);
    std::unique_ptr<Ref> ref[3];
    if (water) { d += "PVTW\n 150 1.03 4.5e-5 0.45 1e-4 /\n"; ref[W].reset(new RConst(150 * bar, 1.03, 4.5e-5 / bar, 0.45e-3, 1e-4 / bar)); }
    else ref[W].reset(new RConst(0, 1, 0, 0.5e-3, 0));
    V nodes;
    if (oil == 0) { d += "PVDO\n" + pv(dead, bar, 1e-3); if (samples) ref[O].reset(new RSpline(dead, samples)); else ref[O].reset(new RDead(dead)); nodes = dead[0]; }
    if (oil == 1) {
        d += "PVTO\n";
        for (size_t i = 0; i < so.size(); ++i) {
            d += dk::num(so[i].key);
            for (size_t r = 0; r < so[i].rows.size(); ++r) d += " " + dk::num(so[i].rows[r][0] / bar) + " " + dk::num(so[i].rows[r][1]) + " " + dk::num(so[i].rows[r][2] / 1e-3) + "\n";
            d += "/\n";
        }
        d += "/\n";
        ref[O].reset(new RLiveOil(so)); nodes = oilnodes(so);
    }
    if (oil == 2) { d += "PVCDO\n 180 1.3 7e-5 1.6 2e-4 /\n"; ref[O].reset(new RConst(180 * bar, 1.3, 7e-5 / bar, 1.6e-3, 2e-4 / bar)); nodes.push_back(100 * bar); nodes.push_back(300 * bar); }
    if (g && gas == 0) { d += "PVDG\n" + pv(deadg, bar, 1e-3); if (samples) ref[G].reset(new RSpline(deadg, samples)); else ref[G].reset(new RDead(deadg)); }
    if (g && gas == 1) {
        d += "PVTG\n";
        for (size_t i = 0; i < sg.size(); ++i) {
            d += dk::num(sg[i].key / bar);
            for (size_t r = 0; r < sg[i].rows.size(); ++r) d += " " + dk::num(sg[i].rows[r][0]) + " " + dk::num(sg[i].rows[r][1]) + " " + dk::num(sg[i].rows[r][2] / 1e-3) + "\n";
            d += "/\n";
        }
        d += "/\n";
        ref[G].reset(new RLiveGas(sg));
    }
    if (w) d += "SWOF\n 0.2 0 1 0\n 0.8 1 0 0 /\n";
    if (g) d += w ? "SGOF\n 0 0 1 0\n 0.8 1 0 0 /\n" : "SGOF\n 0 0 1 0\n 1 1 0 0 /\n";
    dk::Deck deck = dk::parse(d);
    UnstructuredGrid* grid = create_grid_cart3d(2, 1, 1);
    parameter::ParameterGroup par;
    par.insertParameter("pvt_tab_size", vh::fmt("%d", samples));
    par.disableOutput();
    BlackoilPropertiesFromDeck props(*deck, *grid, par, false);
    const int np = 1 + w + g;
    int pos[3] = { 0, w ? 1 : 0, w ? 2 : 1 };
    double surf[3] = { 1021.25, 805.5, 0.875 };
    VH_CHECK(props.numPhases() == np, "phases", "%d", props.numPhases());
    bool on[3] = { w, true, g };
    for (int k = 0; k < 3; ++k) if (on[k]) VH_CHECK(props.surfaceDensity()[pos[k]] == surf[k], "surface density", "phase %d: %g", k, props.surfaceDensity()[pos[k]]);
    V ps;
    for (size_t i = 0; i < nodes.size(); ++i) { ps.push_back(nodes[i] + 0.25 * bar); if (i + 1 < nodes.size()) ps.push_back(0.4 * nodes[i] + 0.6 * nodes[i + 1]); }
    ps.push_back(10 * bar); ps.push_back(600 * bar);
    V p, z, z3;
    for (size_t a = 0; a < ps.size(); ++a) for (size_t b = 0; b < compositions().size(); ++b) {
        const V& c = compositions()[b];
        if (c[O] == 0 || (g && c[G] == 0)) continue;
        p.push_back(ps[a]);
        for (int k = 0; k < 3; ++k) { z3.push_back(on[k] ? c[k] : 0); if (on[k]) z.push_back(c[k]); }
    }
    const int n = p.size();
    std::vector<int> cells(n, 1);
    V mu(n * np), A(n * np * np), A2(A), dA(A), rho(n * np), Al(A), Ar(A);
    const double h = 1e-3 * bar;
    V pl(p), pr(p);
    for (int i = 0; i < n; ++i) { pl[i] -= h; pr[i] += h; }
    props.viscosity(n, &p[0], &z[0], &cells[0], &mu[0], 0);
    props.matrix(n, &p[0], &z[0], &cells[0], &A[0], 0);
    props.matrix(n, &p[0], &z[0], &cells[0], &A2[0], &dA[0]);
    props.matrix(n, &pl[0], &z[0], &cells[0], &Al[0], 0);
    props.matrix(n, &pr[0], &z[0], &cells[0], &Ar[0], 0);
    props.density(n, &A[0], &rho[0]);
    for (int i = 0; i < n; ++i) {
        const double* zz = &z3[3 * i];
        std::string at = vh::fmt("p=%.9g bar z=(%g,%g,%g)", p[i] / bar, zz[0], zz[1], zz[2]);
        bool physical = true; // far extrapolation may pass zero volume
        for (int k = 0; k < 3; ++k) if (on[k] && ref[k]->B(p[i], zz) < 2e-3) physical = false;
        if (!physical) continue;
        V want(np * np, 0.0);
        for (int k = 0; k < 3; ++k) if (on[k]) {
            int q = pos[k];
            vh::tr(3);
            double m = ref[k]->mu(p[i], zz), b = ref[k]->B(p[i], zz);
            VH_CHECK(vh::close_to(mu[np * i + q], m, 1e-8), "viscosity", "phase %d %s: %.12g, expected %.12g", k, at.c_str(), mu[np * i + q], m);
            want[q + np * q] = 1 / b;
            if (k == O && g) want[pos[G] + np * q] = ref[k]->R(p[i], zz) / b;
            if (k == G) want[pos[O] + np * q] = ref[k]->R(p[i], zz) / b;
            double r = 0;
            for (int c = 0; c < 3; ++c) if (on[c]) r += want[pos[c] + np * q] * surf[c];
            VH_CHECK(vh::close_to(rho[np * i + q], r, 1e-8), "density", "phase %d %s: %.12g, expected %.12g", k, at.c_str(), rho[np * i + q], r);
        }
        for (int e = 0; e < np * np; ++e) {
            int at2 = i * np * np + e;
            VH_CHECK(vh::close_to(A[at2], want[e], 1e-8, 1e-15), "A", "entry %d %s: %.12g, expected %.12g", e, at.c_str(), A[at2], want[e]);
            VH_CHECK(A[at2] == A2[at2], "A with derivative", "entry %d %s", e, at.c_str());
            double l = (A[at2] - Al[at2]) / h, r = (Ar[at2] - A[at2]) / h, c = 0.5 * (l + r), tol = 1e-11 * (std::fabs(A[at2]) + 1e-6) / h;
            bool smooth = std::fabs(l - r) < 1e-3 * std::fabs(l) + 2 * tol;
            bool ok = smooth ? vh::close_to(dA[at2], c, 1e-5, tol) : (vh::close_to(dA[at2], l, 1e-3, tol) || vh::close_to(dA[at2], r, 1e-3, tol));
            VH_CHECK(ok, "dA/dp", "entry %d %s: %.9g, slopes %.9g %.9g", e, at.c_str(), dA[at2], l, r);
        }
        vh::state();
    }
    bool threw = false;
    try { V dm(n * np); props.viscosity(n, &p[0], &z[0], &cells[0], &mu[0], &dm[0]); } catch (const std::exception&) { threw = true; }
    VH_CHECK(threw, "viscosity derivative", "an unavailable derivative was not refused");
    // incompressible view of the same deck
    if (w && !g && oil == 2 && water) {
        PvtPropertiesIncompFromDeck q;
        q.init(*deck);
        VH_CHECK(q.numPhases() == 2 && vh::close_to(q.viscosity()[0], 0.45e-3, 1e-12) && vh::close_to(q.viscosity()[1], 1.6e-3, 1e-12), "incomp viscosity", "%g %g", q.viscosity()[0], q.viscosity()[1]);
        VH_CHECK(q.surfaceDensities()[0] == 1021.25 && q.surfaceDensities()[1] == 805.5, "incomp surface density", "");
        VH_CHECK(vh::close_to(q.reservoirDensities()[0], 1021.25 / 1.03, 1e-12) && vh::close_to(q.reservoirDensities()[1], 805.5 / 1.3, 1e-12), "incomp density", "%g %g", q.reservoirDensities()[0], q.reservoirDensities()[1]);
        IncompPropertiesFromDeck ip(*dk::parse(d + "GRID\nPORO\n 2*0.2 /\nPERMX\n 2*100 /\n"), *grid);
        VH_CHECK(ip.numPhases() == 2 && ip.viscosity()[1] == q.viscosity()[1] && ip.density()[1] == q.reservoirDensities()[1] && ip.surfaceDensity()[0] == 1021.25, "incomp properties", "");
    }
    destroy_grid(grid);
}
// missing or contradictory data are refused
static void refused(const char* name, const std::string& body, bool incomp, int samples = 0)
{
    if (!vh::begin(std::string("refuse/") + name)) return;
    bool threw = false;
    UnstructuredGrid* grid = create_grid_cart3d(2, 1, 1);
    try {
        dk::Deck deck = dk::parse("RUNSPEC\nDIMENS\n 2 1 1 /\nMETRIC\n" + body);
        if (incomp) { PvtPropertiesIncompFromDeck q; q.init(*deck); }
        else { BlackoilPvtProperties q; q.init(*deck, samples); }
    } catch (const std::exception&) { threw = true; }
    VH_CHECK(threw, "accepted", "%s", name);
    destroy_grid(grid);
}

void explore()
{
    const bool T = vh::thorough();
    dk::quiet();
    // constant compressibility
    for (int a = 0; a < 3 * 3 * 3; ++a) {
        const double cs[] = { 0, 5e-5, 2e-3 }, vs[] = { 0, 1e-4, -2e-4 }, bs[] = { 1, 0.97, 1.4 };
        if (!vh::begin(vh::fmt("const/%d", a))) continue;
        double c = cs[a % 3] / bar, v = vs[a / 3 % 3] / bar, b = bs[a / 9];
        V t; t.push_back(150 * bar); t.push_back(b); t.push_back(c); t.push_back(0.7e-3); t.push_back(v);
        SinglePvtConstCompr f(VV(1, t));
        phases(f);
        V nodes; nodes.push_back(50 * bar); nodes.push_back(150 * bar); nodes.push_back(450 * bar);
        check(f, RConst(150 * bar, b, c, 0.7e-3, v), nodes, true);
        SinglePvtConstCompr q(0.3e-3);
        phases(q);
        check(q, RConst(0, 1, 0, 0.3e-3, 0), nodes, false);
    }
    // dead tables
    for (int n = 2; n <= 4; ++n) {
        std::vector<int> k(n + 1, 0);
        do {
            const double P[] = { 40, 100, 110, 300 };
            VV t(3);
            double B = 1.5, m = 1e-3;
            for (int i = 0; i < n; ++i) { t[0].push_back(P[i] * bar); t[1].push_back(B); t[2].push_back(m); B *= k[i] == 0 ? 0.5 : k[i] == 1 ? 0.97 : 1; m *= k[i] == 2 ? 1.7 : k[n] == 0 ? 1.1 : 0.9; }
            if (k[n - 1]) continue;
            if (vh::begin(vh::fmt("dead/%s", vh::str(k).c_str()))) {
                SinglePvtDead f(VVV(1, t));
                phases(f);
                check(f, RDead(t), t[0], n < 4);
            }
            for (int s = 2; s <= 200; s = s == 2 ? 7 : s == 7 ? 200 : 201) {
                if (!vh::begin(vh::fmt("spline/%s/%d", vh::str(k).c_str(), s))) continue;
                SinglePvtDeadSpline f(VVV(1, t), s);
                phases(f);
                V nodes = t[0];
                nodes[0] += 3e-3 * bar; nodes.back() -= 3e-3 * bar;
                check(f, RSpline(t, s), nodes, n < 4);
            }
        } while (vh::next(k, 3));
    }
    // live oil and gas
    for (int n = 2; n <= (T ? 6 : 5); ++n) for (int kind = 0; kind < 3; ++kind) {
        std::vector<int> rows(n, 0);
        do {
            if (rows[n - 1] == 0) continue;   // the last section must have undersaturated data
            bool deep = false;
            for (int i = 0; i < n; ++i) deep = deep || rows[i] > 1;
            if (kind == 1 && !deep) continue;    // bent branches
            if (!vh::begin(vh::fmt("liveoil/%d/%s", kind, vh::str(rows).c_str()))) continue;
            std::vector<Section> s = oilsections(rows, kind);
            SinglePvtLiveOil f(table(s));
            phases(f);
            rowsback(f, s);
            check(f, RLiveOil(s), oilnodes(s), n < 4);
        } while (vh::next(rows, n < 4 || T ? 4 : 3));
    }
    for (int n = 2; n <= 4; ++n) for (int kind = 0; kind < 2; ++kind) {
        std::vector<int> rows(n, 0);
        do {
            if (!vh::begin(vh::fmt("livegas/%d/%s", kind, vh::str(rows).c_str()))) continue;
            std::vector<Section> s = gassections(rows, kind);
            SinglePvtLiveGas f(table(s));
            phases(f);
            V nodes;
            bool mixed = false;
            for (int i = 0; i < n; ++i) mixed = mixed || (rows[i] == 0) != (rows[0] == 0);
            // a table with undersaturated data at some pressures only may jump at a node: stay beside it
            for (int i = 0; i < n; ++i) nodes.push_back(s[i].key + (mixed ? i ? 0.05 * bar : -0.05 * bar : 0));
            check(f, RLiveGas(s), nodes, n < 4);
        } while (vh::next(rows, T ? 4 : 3));
    }
    // long tables
    for (int n = 9; n <= 24; n += 5) for (int p = 0; p < 6; ++p) {
        if (vh::begin(vh::fmt("long/dead/%d/%d", n, p))) {
            VV t(3); double B = 1.5, m = 1e-3;
            for (int i = 0; i < n; ++i) { t[0].push_back((40 + 11.0 * i + 3 * ((i * p) % 3)) * bar); t[1].push_back(B); t[2].push_back(m); B *= (i + p) % 3 ? 0.97 : 0.9; m *= p % 2 ? 1.1 : 0.95; }
            SinglePvtDead f(VVV(1, t)); phases(f); check(f, RDead(t), t[0], true);
            SinglePvtDeadSpline g(VVV(1, t), 50 + p); V nodes = t[0]; nodes[0] += 3e-3 * bar; nodes.back() -= 3e-3 * bar; check(g, RSpline(t, 50 + p), nodes, true);
        }
        std::vector<int> rows(n); for (int i = 0; i < n; ++i) rows[i] = p == 0 ? 1 : p == 1 ? 2 : p == 2 ? i % 3 : p == 3 ? i == n - 1 || i % 5 == 2 : p == 4 ? (i == n - 1) * 2 : 1 + (i * i) % 3;
        if (rows[n - 1] == 0) rows[n - 1] = 2;
        for (int kind = 0; kind < 3; ++kind) if (vh::begin(vh::fmt("long/liveoil/%d/%d/%d", n, p, kind))) { std::vector<Section> s = oilsections(rows, kind); SinglePvtLiveOil f(table(s)); phases(f); rowsback(f, s); check(f, RLiveOil(s), oilnodes(s), true); }
        if (vh::begin(vh::fmt("long/livegas/%d/%d", n, p))) {
            std::vector<Section> s = gassections(rows, 0); SinglePvtLiveGas f(table(s)); phases(f); V nodes; bool mixed = false;
            for (int i = 0; i < n; ++i) mixed = mixed || (rows[i] == 0) != (rows[0] == 0);
            for (int i = 0; i < n; ++i) nodes.push_back(s[i].key + (mixed ? i ? 0.05 * bar : -0.05 * bar : 0));
            check(f, RLiveGas(s), nodes, true);
        }
    }
    for (int phase = 0; phase < 3; ++phase) for (int oil = 0; oil < 3; ++oil) for (int gas = 0; gas < 2; ++gas) for (int water = 0; water < 2; ++water) for (int s = 0; s < 3; ++s) {
        if (phase == 0 && (gas || oil == 1)) continue;
        if (phase == 1 && water) continue;
        if (!vh::begin(vh::fmt("deck/%d.%d.%d.%d.%d", phase, oil, gas, water, s))) continue;
        whole(phase, oil, gas, water, s == 0 ? 0 : s == 1 ? 5 : 200);
    }
    const std::string den = "PROPS\nDENSITY\n 800 1000 1 /\n", pvdo = "PVDO\n 100 1.1 1\n 200 1.0 1 /\n", pvdg = "PVDG\n 100 0.1 0.01\n 200 0.05 0.02 /\n", pvtw = "PVTW\n 100 1 0 1 0 /\n", pvcdo = "PVCDO\n 100 1 0 1 0 /\n";
    const std::string go = "OIL\nGAS\n" + den, sgof = "SGOF\n 0 0 1 0\n 1 1 0 0 /\n";
    refused("live oil with one section", go + pvdg + sgof + "PVTO\n 10 100 1.2 1\n 200 1.1 1.2 /\n/\n", false);
    refused("live oil, one bare section", go + pvdg + sgof + "PVTO\n 10 100 1.2 1 /\n/\n", false);
    refused("live oil without undersaturated rows", go + pvdg + sgof + "PVTO\n 10 100 1.2 1 /\n 20 200 1.3 0.9 /\n/\n", false);
    refused("live oil without undersaturated rows at the end", go + pvdg + sgof + "PVTO\n 10 100 1.2 1 /\n 20 200 1.3 0.9\n 300 1.2 1 /\n 30 300 1.4 0.8 /\n/\n", false);
    refused("live gas with one section", go + pvdo + sgof + "PVTG\n 100 0.001 0.1 0.01\n 0 0.11 0.012 /\n/\n", false);
    refused("dead oil with one row", go + pvdg + sgof + "PVDO\n 100 1.1 1 /\n", false);
    refused("dead gas with one row", go + pvdo + sgof + "PVDG\n 100 0.1 0.01 /\n", false);
    refused("dead oil with one row, resampled", go + pvdg + sgof + "PVDO\n 100 1.1 1 /\n", false, 5);
    refused("dead gas with one row, resampled", go + pvdo + sgof + "PVDG\n 100 0.1 0.01 /\n", false, 5);
    // fluid data for a second region
    for (int sm = 0; sm <= 5; sm += 5) {
        const std::string w = sm ? ", resampled" : "", o2 = "PVDO\n 100 1.1 1\n 200 1.0 1 /\n 100 1.3 1\n 200 1.2 1 /\n", g2 = "PVDG\n 100 0.1 0.01\n 200 0.05 0.02 /\n 100 0.2 0.01\n 200 0.05 0.02 /\n";
        refused(("two dead oils" + w).c_str(), go + pvdg + o2, false, sm);
        refused(("two dead gases" + w).c_str(), go + pvdo + g2, false, sm);
        refused(("two waters" + w).c_str(), "OIL\nWATER\n" + den + pvdo + "PVTW\n 100 1 0 1 0 /\n 100 1.1 0 1 0 /\n", false, sm);
        refused(("two constant oils" + w).c_str(), "OIL\nWATER\n" + den + pvtw + "PVCDO\n 100 1 0 1 0 /\n 100 1.1 0 1 0 /\n", false, sm);
        refused(("two live oils" + w).c_str(), go + pvdg + "PVTO\n 10 100 1.2 1\n 200 1.1 1.2 /\n 20 150 1.3 1\n 200 1.2 1.2 /\n/\n 10 100 1.2 1\n 200 1.1 1.2 /\n 20 150 1.3 1\n 200 1.2 1.2 /\n/\n", false, sm);
        refused(("two live gases" + w).c_str(), go + pvdo + "PVTG\n 100 0.001 0.1 0.01\n 0 0.11 0.012 /\n 200 0.002 0.05 0.01\n 0 0.06 0.012 /\n/\n 100 0.001 0.1 0.01\n 0 0.11 0.012 /\n 200 0.002 0.05 0.01\n 0 0.06 0.012 /\n/\n", false, sm);
    }
    refused("no density", "OIL\nWATER\nPROPS\n" + pvdo + pvtw, false);
    refused("no oil data", "OIL\nWATER\n" + den + pvtw, false);
    refused("no gas data", "OIL\nGAS\n" + den + pvdo, false);
    refused("water-gas", "WATER\nGAS\n" + den + pvtw + pvdg, false);
    refused("one phase", "OIL\n" + den + pvdo, false);
    refused("no phase", den + pvdo, false);
    refused("incompressible with gas", "OIL\nWATER\nGAS\n" + den + pvcdo + pvtw, true);
    refused("incompressible without water", "OIL\nGAS\n" + den + pvcdo + pvtw, true);
    refused("incompressible without PVTW", "OIL\nWATER\n" + den + pvcdo, true);
    refused("incompressible with PVDO", "OIL\nWATER\n" + den + pvtw + pvdo, true);
    refused("incompressible without density", "OIL\nWATER\nPROPS\n" + pvtw + pvcdo, true);
    // properties from parameters
    for (int np = 1; np <= 2; ++np) for (int rf = 0; rf < 3; ++rf) for (int dim = 2; dim <= 3; ++dim) for (int def = 0; def < 2; ++def) {
        if (!vh::begin(vh::fmt("basic/%d.%d.%d.%d", np, rf, dim, def))) continue;
        const char* names[] = { "Linear", "Quadratic", "Constant" };
        parameter::ParameterGroup par;
        par.disableOutput();
        par.insertParameter("num_phases", vh::fmt("%d", np));
        par.insertParameter("relperm_func", names[rf]);
        if (!def) {
            par.insertParameter("rho1", "1010"); par.insertParameter("rho2", "720.5"); par.insertParameter("mu1", "0.3"); par.insertParameter("mu2", "4.5");
            par.insertParameter("porosity", "0.35"); par.insertParameter("permeability", "250");
        }
        double rho[2] = { def ? 1000.0 : 1010.0, def ? 1000.0 : 720.5 }, mu[2] = { def ? 1e-3 : 0.3e-3, def ? 1e-3 : 4.5e-3 };
        double poro = def ? 1.0 : 0.35, perm = (def ? 100 : 250) * 9.869232667160130e-16;
        const bool bad = np == 2 && rf == 2;
        bool threw = false;
        try {
            IncompPropertiesBasic ip(par, dim, 5);
            BlackoilPropertiesBasic bp(par, dim, 5);
            std::vector<double> r(rho, rho + np), m(mu, mu + np);
            IncompPropertiesBasic ia(np, rf == 0 ? SaturationPropsBasic::Linear : rf == 1 ? SaturationPropsBasic::Quadratic : SaturationPropsBasic::Constant, r, m, poro, perm, dim, 5);
            PvtPropertiesBasic pb, pe2;
            pb.init(par); pe2.init(np, r, m);
            for (int k = 0; k < 2; ++k) {
                const PvtPropertiesBasic& f = k ? pe2 : pb;
                V p(7, 1e7), z(7 * np, 0.5), v(7 * np, NAN), B(v), B2(v), dB(v), R(v), R2(v), dR(v);
                f.mu(7, &p[0], &z[0], &v[0]); f.B(7, &p[0], &z[0], &B[0]); f.dBdp(7, &p[0], &z[0], &B2[0], &dB[0]); f.R(7, &p[0], &z[0], &R[0]); f.dRdp(7, &p[0], &z[0], &R2[0], &dR[0]);
                for (int i = 0; i < 7 * np; ++i) { vh::tr(); VH_CHECK(vh::close_to(v[i], mu[i % np], 1e-12) && B[i] == 1 && B2[i] == 1 && dB[i] == 0 && R[i] == 0 && R2[i] == 0 && dR[i] == 0, "basic pvt", "point %d phase %d", i / np, i % np); }
                for (int p = 0; p < np; ++p) VH_CHECK(vh::close_to(f.surfaceDensities()[p], rho[p], 1e-12), "basic pvt", "density %d", p);
                VH_CHECK(f.numPhases() == np, "basic pvt", "phases");
            }
            const IncompPropertiesInterface* q[2] = { &ip, &ia };
            V s; std::vector<int> cells;
            for (int i = 0; i <= 10; ++i) { s.push_back(i / 10.0); if (np == 2) s.push_back(1 - i / 10.0); cells.push_back(i % 5); }
            const int n = 11;
            for (int k = 0; k < 3; ++k) {
                V kr(n * np, NAN), kr2(n * np, NAN), dkr(n * np * np, NAN), pc(n * np, 7.0), dpc(n * np * np, 7.0), lo(n * np, NAN), hi(n * np, NAN);
                const double *po, *pe; int nd, nc;
                if (k < 2) {
                    for (int p = 0; p < np; ++p) VH_CHECK(vh::close_to(q[k]->viscosity()[p], mu[p], 1e-12) && vh::close_to(q[k]->density()[p], rho[p], 1e-12) && vh::close_to(q[k]->surfaceDensity()[p], rho[p], 1e-12), "basic fluid", "%d", p);
                    q[k]->relperm(n, &s[0], &cells[0], &kr[0], 0); q[k]->relperm(n, &s[0], &cells[0], &kr2[0], &dkr[0]);
                    q[k]->capPress(n, &s[0], &cells[0], &pc[0], &dpc[0]); q[k]->satRange(n, &cells[0], &lo[0], &hi[0]);
                    po = q[k]->porosity(); pe = q[k]->permeability(); nd = q[k]->numDimensions(); nc = q[k]->numCells();
                    VH_CHECK(q[k]->numPhases() == np, "phases", "");
                } else {
                    V p(n, 1e7), z(s), A(n * np * np, NAN), dA(A), v(n * np, NAN), d(n * np, NAN);
                    bp.viscosity(n, &p[0], &z[0], &cells[0], &v[0], 0); bp.matrix(n, &p[0], &z[0], &cells[0], &A[0], &dA[0]); bp.density(n, &A[0], &d[0]);
                    for (int i = 0; i < n; ++i) for (int a = 0; a < np; ++a) {
                        VH_CHECK(vh::close_to(v[np * i + a], mu[a], 1e-12) && vh::close_to(d[np * i + a], rho[a], 1e-12) && vh::close_to(bp.surfaceDensity()[a], rho[a], 1e-12), "basic fluid", "blackoil");
                        for (int b = 0; b < np; ++b) VH_CHECK(A[(i * np + b) * np + a] == (a == b) && dA[(i * np + b) * np + a] == 0, "basic A", "");
                    }
                    bp.relperm(n, &s[0], &cells[0], &kr[0], 0); bp.relperm(n, &s[0], &cells[0], &kr2[0], &dkr[0]);
                    bp.capPress(n, &s[0], &cells[0], &pc[0], &dpc[0]); bp.satRange(n, &cells[0], &lo[0], &hi[0]);
                    po = bp.porosity(); pe = bp.permeability(); nd = bp.numDimensions(); nc = bp.numCells();
                    VH_CHECK(bp.numPhases() == np, "phases", "");
                }
                VH_CHECK(nd == dim && nc == 5, "sizes", "%d %d", nd, nc);
                for (int c = 0; c < 5; ++c) {
                    VH_CHECK(vh::close_to(po[c], poro, 1e-12), "porosity", "%g", po[c]);
                    for (int a = 0; a < dim; ++a) for (int b = 0; b < dim; ++b) VH_CHECK(vh::close_to(pe[(c * dim + a) * dim + b], a == b ? perm : 0, 1e-9), "permeability", "%g", pe[(c * dim + a) * dim + b]);
                }
                for (int i = 0; i < n; ++i) for (int a = 0; a < np; ++a) {
                    double ss = s[np * i + a], w = rf == 0 ? ss : rf == 1 ? ss * ss : 1, dw = rf == 0 ? 1 : rf == 1 ? 2 * ss : 0;
                    vh::tr();
                    VH_CHECK(vh::close_to(kr[np * i + a], w, 1e-12) && kr2[np * i + a] == kr[np * i + a], "basic kr", "%g", kr[np * i + a]);
                    VH_CHECK(pc[np * i + a] == 0 && lo[np * i + a] == 0 && hi[np * i + a] == 1, "basic pc or range", "");
                    for (int b = 0; b < np; ++b) VH_CHECK(vh::close_to(dkr[(np * i + b) * np + a], a == b ? dw : 0, 1e-12, 1e-15) && dpc[(np * i + b) * np + a] == 0, "basic derivative", "");
                }
            }
        } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw == bad, "basic refusal", "threw %d", threw);
    }
}
