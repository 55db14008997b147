// Saturation functions: every small SWOF/SGOF table, three-phase model and end-point scaling, on a lattice of saturations.
#include "deck.hpp"
#include <opm/core/props/satfunc/SaturationPropsFromDeck.hpp>
#include <opm/core/props/satfunc/SatFuncStone2.hpp>
#include <opm/core/props/satfunc/SatFuncSimple.hpp>
#include <opm/core/props/satfunc/SatFuncGwseg.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#include <opm/core/utility/linearInterpolation.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid.h>
using namespace Opm;
typedef std::vector<double> V;
typedef std::vector<V> VV;
enum { SIMPLE = 0, STONE2 = 1, GWSEG = 2 };

static double lin(const V& x, const V& y, double q)
{
    int n = x.size(), i = 0;
    while (i + 2 < n && q >= x[i + 1]) ++i;
    return y[i] + (y[i + 1] - y[i]) * (q - x[i]) / (x[i + 1] - x[i]);
}
// a curve: the table itself (samples 0), or resampled uniformly and constant outside
struct Curve {
    V x, y; bool flat;
    Curve() {}
    Curve(const V& a, const V& b, int samples) : x(a), y(b), flat(samples > 0) {
        if (!samples) return;
        MonotCubicInterpolator f(a, b);
        x.clear(); y.clear();
        for (int i = 0; i < samples; ++i) { double w = double(i) / (samples - 1), q = (1 - w) * a[0] + w * a.back(); x.push_back(q); y.push_back(f(q)); }
    }
    double operator()(double q) const { if (flat) q = std::min(std::max(q, x[0]), x.back()); return lin(x, y, q); }
};
// one saturation region
struct Region {
    VV wo, go;          // columns
    Curve krw, krow, pcow, krg, krog, pcog;
    double swco, swmax, swcr, sowcr, krwmax, kromax, krwr, krorw;
    void init(int samples) {
        swco = 0; swmax = 1;
        if (!wo.empty()) {
            krw = Curve(wo[0], wo[1], samples); krow = Curve(wo[0], wo[2], samples); pcow = Curve(wo[0], wo[3], samples);
            const int n = wo[0].size();
            swco = wo[0][0]; swmax = wo[0][n - 1]; krwmax = wo[1][n - 1]; kromax = wo[2][0];
            // critical: the largest water (oil) saturation at which water (oil) does not flow
            int i = 0; while (i + 1 < n && wo[1][i + 1] == 0) ++i;
            swcr = wo[0][i]; krorw = wo[2][i];
            int k = n - 1; while (k > 0 && wo[2][k - 1] == 0) --k;
            sowcr = 1 - wo[0][k]; krwr = wo[1][k];
        }
        if (!go.empty()) { krg = Curve(go[0], go[1], samples); krog = Curve(go[0], go[2], samples); pcog = Curve(go[0], go[3], samples); }
    }
    bool water() const { return !wo.empty(); }
    bool gas() const { return !go.empty(); }
    // oil cannot flow in the Stone II model, with a margin
    bool limited(double sw, double sg) const {
        double a = krw(sw), b = krg(sg);
        return (krow(sw + sg) / kromax + a) * (krog(sg) / kromax + b) - a - b < -1e-5;
    }
    // kr and pc in the order water, oil, gas
    void eval(int model, double sw, double so, double sg, double* kr, double* pc) const {
        pc[0] = water() ? pcow(sw) : 0; pc[1] = 0; pc[2] = gas() ? pcog(sg) : 0;
        kr[0] = kr[1] = kr[2] = 0;
        if (!gas()) { kr[0] = krw(sw); kr[1] = krow(1 - so); return; }
        if (!water()) { kr[2] = krg(sg); kr[1] = krog(sg); return; }
        if (model == SIMPLE) { kr[0] = krw(sw); kr[2] = krg(sg); kr[1] = std::max(0.0, krow(1 - so)); }
        if (model == STONE2) {
            kr[0] = krw(sw); kr[2] = krg(sg);
            kr[1] = std::max(0.0, kromax * ((krow(1 - so) / kromax + kr[0]) * (krog(sg) / kromax + kr[2]) - kr[0] - kr[2]));
        }
        if (model == GWSEG) {
            double m = sw - swco + sg, xw = (sw - swco) / std::max(m, 1e-6);
            kr[0] = xw * krw(swco + m); kr[2] = (1 - xw) * krg(m);
            kr[1] = xw * krow(swco + m) + (1 - xw) * krog(m);
        }
    }
};
static std::string table(const VV& t)
{
    std::string s;
    for (size_t i = 0; i < t[0].size(); ++i) { for (int k = 0; k < 4; ++k) s += " " + dk::num(t[k][i]); s += "\n"; }
    return s + "/\n";
}
static std::string body(const std::vector<Region>& r)
{
    std::string s = std::string("OIL\n") + (r[0].water() ? "WATER\n" : "") + (r[0].gas() ? "GAS\n" : "") + "PROPS\n";
    if (r[0].water()) { s += "SWOF\n"; for (size_t i = 0; i < r.size(); ++i) s += table(r[i].wo); }
    if (r[0].gas()) { s += "SGOF\n"; for (size_t i = 0; i < r.size(); ++i) s += table(r[i].go); }
    return s;
}
static SaturationPropsInterface* make(int model, int samples, const EclipseGridParser& d, const UnstructuredGrid& g)
{
#define MK(F) { SaturationPropsFromDeck<F>* p = new SaturationPropsFromDeck<F>; try { p->init(d, g, samples); } catch (...) { delete p; throw; } return p; }
    if (samples) { if (model == SIMPLE) MK(SatFuncSimpleUniform) if (model == STONE2) MK(SatFuncStone2Uniform) MK(SatFuncGwsegUniform) }
    if (model == SIMPLE) MK(SatFuncSimpleNonuniform) if (model == STONE2) MK(SatFuncStone2Nonuniform) MK(SatFuncGwsegNonuniform)
}
// saturation states inside the allowed range of a region; tiny offsets also test the nodes themselves
static VV states(const Region& r)
{
    VV s;
    const double fr[] = { 0, 0.037, 0.113, 0.209, 0.317, 0.4123, 0.5571, 0.6371, 0.813, 0.9307, 0.9999, 1 };
    const int n = 12;
    if (!r.gas() || !r.water()) {
        V x = r.gas() ? r.go[0] : r.wo[0];
        double a = x[0], b = x.back();
        V q(x);
        for (int i = 0; i < n; ++i) q.push_back(a + (b - a) * fr[i]);
        for (size_t i = 0; i < q.size(); ++i) { V t(3, 0.0); t[r.gas() ? 2 : 0] = q[i]; t[1] = 1 - q[i]; s.push_back(t); }
        return s;
    }
    for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) {
        double sw = r.swco + (r.swmax - r.swco) * fr[i], sg = (r.swmax - sw) * fr[k];
        V t(3); t[0] = sw; t[2] = sg; t[1] = 1 - sw - sg;
        s.push_back(t);
    }
    return s;
}

typedef std::function<void(int, const V&, double*, double*)> Eval; // cell, (w,o,g), kr, pc
static void compare(const SaturationPropsInterface& f, const std::vector<const Region*>& cells, int model, bool bulk)
{
    const Region& r0 = *cells[0];
    const bool w = r0.water(), g = r0.gas();
    const int np = 1 + w + g, pos[3] = { 0, w ? 1 : 0, w ? 2 : 1 };
    const bool on[3] = { w, true, g };
    VH_CHECK(f.numPhases() == np, "phases", "%d", f.numPhases());
    V s; std::vector<int> ci; VV full;
    for (size_t c = 0; c < cells.size(); ++c) {
        VV q = states(*cells[c]);
        for (size_t i = 0; i < q.size(); ++i) { full.push_back(q[i]); ci.push_back(c); for (int k = 0; k < 3; ++k) if (on[k]) s.push_back(q[i][k]); }
    }
    const int n = ci.size();
    V kr(n * np, NAN), kr2(n * np, NAN), dkr(n * np * np, NAN), pc(n * np, NAN), pc2(n * np, NAN), dpc(n * np * np, NAN), lo(n * np, NAN), hi(n * np, NAN);
    f.relperm(n, &s[0], &ci[0], &kr[0], 0);
    f.relperm(n, &s[0], &ci[0], &kr2[0], &dkr[0]);
    f.capPress(n, &s[0], &ci[0], &pc[0], 0);
    f.capPress(n, &s[0], &ci[0], &pc2[0], &dpc[0]);
    f.satRange(n, &ci[0], &lo[0], &hi[0]);
    // one point displaced along every direction that keeps the sum
    const double h = 1e-6;
    std::vector<std::pair<int, int> > dir;
    for (int a = 0; a < 3; ++a) for (int b = a + 1; b < 3; ++b) if (on[a] && on[b]) dir.push_back(std::make_pair(pos[a], pos[b]));
    std::vector<V> krl(dir.size(), V(n * np)), krh(krl), pcl(krl), pch(krl);
    for (size_t d = 0; d < dir.size(); ++d) {
        V sl(s), sh(s);
        for (int i = 0; i < n; ++i) { sl[np * i + dir[d].first] -= h; sl[np * i + dir[d].second] += h; sh[np * i + dir[d].first] += h; sh[np * i + dir[d].second] -= h; }
        f.relperm(n, &sl[0], &ci[0], &krl[d][0], 0); f.relperm(n, &sh[0], &ci[0], &krh[d][0], 0);
        f.capPress(n, &sl[0], &ci[0], &pcl[d][0], 0); f.capPress(n, &sh[0], &ci[0], &pch[d][0], 0);
    }
    for (int i = 0; i < n; ++i) {
        const Region& r = *cells[ci[i]];
        const V& q = full[i];
        std::string at = vh::fmt("cell %d s=(%.6g,%.6g,%.6g)", ci[i], q[0], q[1], q[2]);
        double rk[3], rp[3];
        r.eval(model, q[0], q[1], q[2], rk, rp);
        vh::tr(3);
        for (int k = 0; k < 3; ++k) if (on[k]) {
            const int e = np * i + pos[k];
            VH_CHECK(vh::close_to(kr[e], rk[k], 1e-9, 1e-12), "kr", "phase %d %s: %.12g, expected %.12g", k, at.c_str(), kr[e], rk[k]);
            VH_CHECK(kr2[e] == kr[e], "kr with derivatives", "phase %d %s: %.15g / %.15g", k, at.c_str(), kr[e], kr2[e]);
            VH_CHECK(vh::close_to(pc[e], rp[k], 1e-9, 1e-9 * 1e5), "pc", "phase %d %s: %.12g, expected %.12g", k, at.c_str(), pc[e], rp[k]);
            VH_CHECK(pc2[e] == pc[e], "pc with derivatives", "phase %d %s", k, at.c_str());
            double a = k == 0 ? r.swco : k == 1 ? 1 - r.swmax : r.go[0][0], b = k == 0 ? r.swmax : k == 1 ? 1 - r.swco : r.go[0].back();
            VH_CHECK(vh::close_to(lo[e], a, 1e-12, 1e-14) && vh::close_to(hi[e], b, 1e-12, 1e-14), "range", "phase %d cell %d: %g-%g, expected %g-%g", k, ci[i], lo[e], hi[e], a, b);
        }
        bool finite = true;
        for (int e = 0; e < np * np; ++e) finite = finite && std::isfinite(dkr[i * np * np + e]) && std::isfinite(dpc[i * np * np + e]);
        VH_CHECK(finite, "finite", "a derivative is not a number %s", at.c_str());
        // neither water nor gas mobile: the segregation model has a corner there
        if (model == GWSEG && w && g && (q[0] - r.swco + q[2] < 1e-4 || q[1] - (1 - r.swmax) < 1e-9)) continue; // and where both tables end
        for (size_t d = 0; d < dir.size(); ++d) for (int p = 0; p < np; ++p) {
            const int e = np * i + p;
            // where the oil curve is just about to be limited to zero there is a corner too
            const bool corner = w && g && model == STONE2 && p == pos[1] && std::fabs(kr[e]) < 1e-5 && !r.limited(q[0], q[2]);
            const double* J[2] = { &dkr[i * np * np], &dpc[i * np * np] };
            const V* base[2] = { &kr, &pc }; const V* low[2] = { &krl[d], &pcl[d] }; const V* high[2] = { &krh[d], &pch[d] };
            for (int t = corner; t < 2; ++t) {
                double l = ((*base[t])[e] - (*low[t])[e]) / h, u = ((*high[t])[e] - (*base[t])[e]) / h;
                double scale = std::max(std::fabs((*base[t])[e]), t ? 1e3 : 1.0), tol = 2e-15 * scale / h;
                // only changes that stay in the range count
                const int ia = np * i + dir[d].first, ib = np * i + dir[d].second;
                bool inl = s[ia] - h > lo[ia] && s[ib] + h < hi[ib], inu = s[ia] + h < hi[ia] && s[ib] - h > lo[ib];
                if (!inl && !inu) continue;
                if (inl && inu && std::fabs(l - u) > 1e-4 * (std::fabs(l) + scale)) continue;  // a kink
                double v = J[t][p + np * dir[d].first] - J[t][p + np * dir[d].second], c = inl && inu ? 0.5 * (l + u) : inl ? l : u;
                vh::tr();
                bool ok = vh::close_to(v, c, 1e-4, tol + 1e-4 * scale);
                // at the very end of a table rounding decides on which side the point is
                if (!(inl && inu)) ok = ok || vh::close_to(v, l, 1e-4, tol + 1e-4 * scale) || vh::close_to(v, u, 1e-4, tol + 1e-4 * scale);
                VH_CHECK(ok, t ? "dpc" : "dkr", "model %d phase %d direction %d-%d %s: value %.12g derivative %.9g, slopes %.9g %.9g", model, p, dir[d].first, dir[d].second, at.c_str(), (*base[t])[e], v, l, u);
            }
        }
        if (bulk) {
            V k1(np), p1(np), d1(np * np), e1(np * np);
            f.relperm(1, &s[np * i], &ci[i], &k1[0], &d1[0]); f.capPress(1, &s[np * i], &ci[i], &p1[0], &e1[0]);
            VH_CHECK(!memcmp(&k1[0], &kr[np * i], 8 * np) && !memcmp(&p1[0], &pc[np * i], 8 * np) && !memcmp(&d1[0], &dkr[np * np * i], 8 * np * np) && !memcmp(&e1[0], &dpc[np * np * i], 8 * np * np),
                     "bulk", "%s differs in bulk", at.c_str());
        }
        vh::outcome(vh::hash(&kr[np * i], 8 * np));
        vh::state();
    }
}

static VV swof(double swco, double swmax, const std::vector<int>& kw, const std::vector<int>& ko)
{
    // rows at multiples of 1/20 of the range, increments 0, small or large
    const int n = kw.size() + 1;
    const int at[3][5] = { { 0, 20 }, { 0, 8, 20 }, { 0, 5, 14, 20 } };
    const double inc[] = { 0, 0.15, 0.35 }, pcs[] = { 3.0, 1.25, 0.5, 0.25 };
    VV t(4);
    double a = 0, b = 0;
    V rb(n, 0.0);
    for (int i = n - 2; i >= 0; --i) { b += inc[ko[i]] * (n > 4 ? 3.0 / n : 1); rb[i] = b; }
    for (int i = 0; i < n; ++i) {
        t[0].push_back(swco + (swmax - swco) * (n > 4 ? 20.0 * i / (n - 1) : at[n - 2][i]) / 20);
        if (i) a += inc[kw[i - 1]] * (n > 4 ? 3.0 / n : 1);
        t[1].push_back(a); t[2].push_back(rb[i]); t[3].push_back(n > 4 ? 3.0 / (1 + i) : pcs[i]);
    }
    return t;
}
static VV sgof(double swco, const std::vector<int>& kg, const std::vector<int>& ko, double krocw)
{
    VV t = swof(0, 1 - swco, kg, ko);
    double top = t[2][0];
    for (size_t i = 0; i < t[2].size(); ++i) { t[2][i] *= top > 0 ? krocw / top : 0; t[3][i] = 0.2 * i * i; }
    return t;
}
static std::vector<int> iv(int a, int b, int c) { int q[3] = { a, b, c }; return std::vector<int>(q, q + 3); }
static void finish(std::vector<Region>& r, int samples)
{
    // from bar to Pa, as the deck reader does in metric decks
    for (size_t i = 0; i < r.size(); ++i) {
        Region k = r[i];
        if (k.water()) for (size_t a = 0; a < k.wo[3].size(); ++a) k.wo[3][a] *= 1e5;
        if (k.gas()) for (size_t a = 0; a < k.go[3].size(); ++a) k.go[3][a] *= 1e5;
        k.init(samples);
        r[i] = k;
    }
}
static const std::string head = "RUNSPEC\nDIMENS\n 2 2 1 /\nMETRIC\n";
static const int samp[] = { 0, 21, 2, 41 };

static void one(const std::string& id, const Region& r, int model, int samples, bool bulk)
{
    if (!vh::begin(id)) return;
    std::vector<Region> rr(1, r);
    UnstructuredGrid* g = create_grid_cart2d(2, 2, 1, 1);
    dk::Deck d = dk::parse(head + body(rr));
    finish(rr, samples);
    bool bad = model == SIMPLE && r.water() && (r.wo[1][0] != 0 || r.wo[2].back() != 0), threw = false;
    try {
        std::unique_ptr<SaturationPropsInterface> f(make(model, samples, *d, *g));
        std::vector<const Region*> cells(4, &rr[0]);
        if (!bad) compare(*f, cells, model, bulk);
    } catch (const std::exception& e) { threw = true; }
    VH_CHECK(threw == bad, "refusal", "threw %d", threw);
    destroy_grid(g);
}

// ---------- end-point scaling ----------
enum { SWL, SWCR, SWU, SOWCR, KRW, KRWR, KRO, KRORW, NEP };
static const char* epname[] = { "SWL", "SWCR", "SWU", "SOWCR", "KRW", "KRWR", "KRO", "KRORW" };
static double epof(const Region& r, int k)
{
    const double v[] = { r.swco, r.swcr, r.swmax, r.sowcr, r.krwmax, r.krwr, r.kromax, r.krorw };
    return v[k];
}
static double piece(double s, const V& from, const V& to)
{
    if (s <= from[0]) return to[0];
    if (s >= from.back()) return to.back();
    for (size_t i = 0; i + 1 < from.size(); ++i) if (s <= from[i + 1]) return to[i] + (to[i + 1] - to[i]) * (s - from[i]) / (from[i + 1] - from[i]);
    return to.back();
}
// kr of one phase: own critical and maximal saturation, the other's displacing saturation, values there and at the end
static double scaled(const Curve& kr, double s, bool three, bool flip, const double* e /*cr, r, max, vr, vmax*/, const double* t, bool hasr, bool hasmax)
{
    V from, to;
    from.push_back(e[0]); to.push_back(t[0]);
    if (three) { from.push_back(e[1]); to.push_back(t[1]); }
    from.push_back(e[2]); to.push_back(t[2]);
    double x = piece(s, from, to), v = kr(flip ? 1 - x : x);
    if (!hasr && !hasmax) return v;
    if (!hasr) return v * e[4] / t[4];
    // the displacing saturation on the scaled axis
    double r = three ? e[1] : e[0] + (t[1] - t[0]) * (e[2] - e[0]) / (t[2] - t[0]);
    if (s <= e[0]) return 0;
    if (r > e[2] - 1e-6) return three ? v * e[3] / t[3] : hasmax ? v * e[4] / t[4] : v;
    if (s <= r) return v * e[3] / t[3];
    if (s >= e[2]) return e[4];
    if (std::fabs(t[4] - t[3]) > 1e-6) return e[3] + (v - t[3]) * (e[4] - e[3]) / (t[4] - t[3]);
    return e[3] + (e[4] - e[3]) * (s - r) / (e[2] - r);
}
// given[c][k]: value of end point k in cell c, NAN if not given
static void scaling(const std::string& id, const Region& base, int subset, bool three, int mode, int samples)
{
    // mode 0: keywords with a value per cell, 1: by depth, 2: keywords equal to the table's own end points,
    // 3: by depth within an interval (cells above and below it keep the table's own end points), 4: by depth in two regions, 5: keywords in a grid with inactive cells
    if (!vh::begin(id)) return;
    std::vector<Region> rr(mode == 4 ? 2 : 1, base);
    if (mode == 4) { // another region with other end points
        for (size_t i = 0; i < base.wo[0].size(); ++i) rr[1].wo[0][i] = 0.05 + 0.9 * base.wo[0][i];
        for (size_t i = 0; i < base.wo[0].size(); ++i) { rr[1].wo[1][i] *= 0.75; rr[1].wo[2][i] *= 0.875; }
    }
    std::vector<Region> done(rr);
    finish(done, samples);
    const int nc = 4, region[nc] = { 0, mode == 4, 0, mode == 4 };
    static const int where[nc] = { 5, 0, 3, 2 };
    UnstructuredGrid* g = create_grid_cart3d(1, 1, nc); // centroids at depth 0.5, 1.5, ...
    if (mode == 5) { g->global_cell = (int*)malloc(sizeof where); memcpy(g->global_cell, where, sizeof where); }
    const bool depth = mode == 1 || mode == 3 || mode == 4;
    const double from = mode == 3 ? 1 : 0, to = mode == 3 ? 3 : 4;
    const double d[NEP] = { 0.05, 0.07, -0.06, 0.04, -0.1, 0.05, 0.1, -0.05 };
    double val[nc][NEP];
    for (int c = 0; c < nc; ++c) for (int k = 0; k < NEP; ++k) {
        const double z = c + 0.5, own = epof(done[region[c]], k);
        // the second region's end points by depth start at twice the displacement and end at none
        const double f = !depth ? (c == 0 ? 0 : c / 3.0) : z < from || z > to ? 0 : region[c] ? 1 - (z - from) / (to - from) : (z - from) / (to - from);
        val[c][k] = !(subset >> k & 1) || mode == 2 ? own : own + d[k] * f;
    }
    std::string s = "RUNSPEC\nDIMENS\n 1 1 4 /\nMETRIC\n" + std::string("OIL\nWATER\nENDSCALE\n /\nPROPS\n") + (three ? "SCALECRS\n YES /\n" : "");
    s += "SWOF\n";
    for (size_t i = 0; i < rr.size(); ++i) s += table(rr[i].wo);
    if (mode == 4) s += "REGIONS\nSATNUM\n 1 2 1 2 /\nPROPS\n";
    if (mode == 5) {
        for (int k = 0; k < NEP; ++k) if (subset >> k & 1) { s += std::string(epname[k]) + "\n"; for (int c = 0; c < 6; ++c) { int at = std::find(where, where + nc, c) - where; s += " " + dk::num(at < nc ? val[at][k] : 0.5); } s += " /\n"; }
    } else if (!depth) {
        for (int k = 0; k < NEP; ++k) if (subset >> k & 1) { s += std::string(epname[k]) + "\n"; for (int c = 0; c < nc; ++c) s += " " + dk::num(val[c][k]); s += " /\n"; }
    } else {
        for (int half = 0; half < 2; ++half) {
            if (!(subset >> 4 * half & 15)) continue;
            s += half ? "ENKRVD\n" : "ENPTVD\n";
            for (int reg = 0; reg < (int)rr.size(); ++reg) {
            for (int z = 0; z < 2; ++z) {
                const int col[2][8] = { { SWL, SWCR, SWU, -1, -1, -1, SOWCR, -1 }, { KRW, -1, KRO, KRWR, -1, -1, KRORW, -1 } };
                s += vh::fmt(" %g", z ? to : from);
                for (int k = 0; k < (half ? 7 : 8); ++k) { int e = col[half][k]; s += e >= 0 && (subset >> e & 1) ? " " + dk::num(epof(done[reg], e) + d[e] * (reg ? 1 - z : z)) : std::string(" 1*"); }
                s += "\n";
            }
            s += "/\n";
            }
            s += "/\n";
        }
    }
    dk::Deck deck = dk::parse(s);
    std::unique_ptr<SaturationPropsInterface> f(make(SIMPLE, samples, *deck, *g));
    for (int c = 0; c < nc; ++c) {
        const double* v = val[c];
        const Region& r = done[region[c]];
        double lo[2], hi[2];
        f->satRange(1, &c, lo, hi);
        VH_CHECK(vh::close_to(lo[0], v[SWL], 1e-12, 1e-14) && vh::close_to(hi[0], v[SWU], 1e-12) && vh::close_to(lo[1], 1 - v[SWU], 1e-12, 1e-14) && vh::close_to(hi[1], 1 - v[SWL], 1e-12),
                 "scaled range", "cell %d: water %g-%g oil %g-%g, SWL %g SWU %g", c, lo[0], hi[0], lo[1], hi[1], v[SWL], v[SWU]);
        const double ew[] = { v[SWCR], 1 - v[SOWCR], v[SWU], v[KRWR], v[KRW] }, tw[] = { r.swcr, 1 - r.sowcr, r.swmax, r.krwr, r.krwmax };
        const double eo[] = { v[SOWCR], 1 - v[SWCR], 1 - v[SWL], v[KRORW], v[KRO] }, to[] = { r.sowcr, 1 - r.swcr, 1 - r.swco, r.krorw, r.kromax };
        // contradictory end points (displacing saturation outside the mobile range) have no meaning
        const bool okw = !three || (ew[1] <= ew[2] + 1e-9 && ew[1] >= ew[0]), oko = !three || (eo[1] <= eo[2] + 1e-9 && eo[1] >= eo[0]);
        for (int i = 0; i <= 24; ++i) {
            double sw = i < 17 ? v[SWL] + (v[SWU] - v[SWL]) * i / 16.0 : i == 17 ? v[SWCR] : i == 18 ? 1 - v[SOWCR] : v[SWL] + (v[SWU] - v[SWL]) * (i - 18.5) / 6.1;
            // the ends of the pieces themselves are continuous except where relperm jumps at a critical saturation
            double q[2] = { sw, 1 - sw }, kr[2];
            f->relperm(1, q, &c, kr, 0);
            double w = scaled(r.krw, sw, three, false, ew, tw, subset >> KRWR & 1, subset >> KRW & 1);
            double o = scaled(r.krow, 1 - sw, three, true, eo, to, subset >> KRORW & 1, subset >> KRO & 1);
            vh::tr(2);
            bool own = samples == 0 && mode == 2;
            VH_CHECK(!okw || vh::close_to(kr[0], w, 1e-8, 1e-9), "scaled krw", "cell %d sw=%.9g: %.12g, expected %.12g", c, sw, kr[0], w);
            VH_CHECK(!oko || vh::close_to(kr[1], o, 1e-8, 1e-9), "scaled kro", "cell %d sw=%.9g: %.12g, expected %.12g", c, sw, kr[1], o);
            // end points given as the tables have them change nothing
            if (own) VH_CHECK(vh::close_to(kr[0], r.krw(sw), 1e-8, 1e-9) && vh::close_to(kr[1], r.krow(sw), 1e-8, 1e-9), "neutral scaling", "cell %d sw=%.9g: %.12g %.12g, table %.12g %.12g", c, sw, kr[0], kr[1], r.krw(sw), r.krow(sw));
            vh::state();
            vh::outcome(vh::hash(kr, sizeof kr));
        }
        double q[2] = { 0.5, 0.5 }, kr[2], dk[4]; bool threw = false;
        try { f->relperm(1, q, &c, kr, dk); } catch (const std::exception&) { threw = true; }
        if (!threw) { // should derivatives become available, they have to be the slopes
            const double h = 1e-6; double a[2] = { 0.5 - h, 0.5 + h }, b[2] = { 0.5 + h, 0.5 - h }, ka[2], kb[2];
            f->relperm(1, a, &c, ka, 0); f->relperm(1, b, &c, kb, 0);
            for (int p = 0; p < 2; ++p) VH_CHECK(vh::close_to(dk[p] - dk[p + 2], (kb[p] - ka[p]) / (2 * h), 1e-3, 1e-3), "scaled dkr", "phase %d", p);
        }
    }
    destroy_grid(g);
}

void explore()
{
    const bool T = vh::thorough();
    dk::quiet();
    long nb = 0;
    // two phases: water and oil
    for (int n = 2; n <= 4; ++n) {
        std::vector<int> k(2 * (n - 1), 0);
        do {
            std::vector<int> kw(k.begin(), k.begin() + n - 1), ko(k.begin() + n - 1, k.end());
            for (int range = 0; range < 3; ++range) for (int model = 0; model < 3; ++model) for (int s = 0; s < (T ? 4 : 2); ++s) {
                if (!T && n == 4 && (range == 1 || (model != SIMPLE && range))) continue;
                Region r; r.wo = swof(range ? 0.2 : 0, range == 2 ? 0.8 : 1, kw, ko);
                one(vh::fmt("wo/%s/%d/%d/%d", vh::str(k).c_str(), range, model, samp[s]), r, model, samp[s], ++nb % 7 == 0);
            }
        } while (vh::next(k, 3));
    }
    // gas and oil
    for (int n = 2; n <= (T ? 4 : 3); ++n) {
        std::vector<int> k(2 * (n - 1), 0);
        do {
            std::vector<int> kw(k.begin(), k.begin() + n - 1), ko(k.begin() + n - 1, k.end());
            for (int model = 0; model < 3; ++model) for (int s = 0; s < (T ? 4 : 2); ++s) {
                Region r; r.go = sgof(0, kw, ko, 0.7);
                one(vh::fmt("go/%s/%d/%d", vh::str(k).c_str(), model, samp[s]), r, model, samp[s], ++nb % 7 == 0);
            }
        } while (vh::next(k, 3));
    }
    // three phases
    for (int wi = 0; wi < (T ? 6 : 3); ++wi) for (int range = 0; range < 3; ++range) for (int n = 2; n <= (T ? 4 : 3); ++n) {
        const std::vector<int> wk[] = { iv(1, 2, 1), iv(0, 1, 2), iv(2, 0, 1), iv(0, 0, 2), iv(1, 1, 1), iv(2, 2, 0) };
        const std::vector<int> wk2[] = { iv(2, 1, 1), iv(1, 2, 0), iv(2, 1, 0), iv(1, 0, 1), iv(1, 0, 0), iv(0, 1, 1) };
        std::vector<int> k(2 * (n - 1), 0);
        do {
            std::vector<int> kg(k.begin(), k.begin() + n - 1), ko(k.begin() + n - 1, k.end());
            bool flows = false; for (size_t i = 0; i < ko.size(); ++i) flows = flows || ko[i];
            if (!flows) continue;
            if (n == 4 && (k[0] + k[5]) % 2) continue;
            for (int model = 0; model < 3; ++model) for (int s = 0; s < (T ? 4 : 2); ++s) {
                Region r; r.wo = swof(range ? 0.2 : 0, range == 2 ? 0.8 : 1, wk[wi], wk2[wi]);
                r.go = sgof(r.wo[0][0], kg, ko, r.wo[2][0]);
                one(vh::fmt("wog/%d/%d/%s/%d/%d", wi, range, vh::str(k).c_str(), model, samp[s]), r, model, samp[s], ++nb % 7 == 0);
            }
        } while (vh::next(k, 3));
    }
    // long tables, and many of them
    for (int n = 7; n <= 40; n = n * 2 + 1) for (int p = 0; p < 5; ++p) for (int ph = 0; ph < 3; ++ph) for (int model = 0; model < 3; ++model) for (int s = 0; s < (T ? 4 : 2); ++s) {
        std::vector<int> a(n - 1), b(n - 1);
        for (int i = 0; i < n - 1; ++i) { a[i] = p == 0 ? 1 : p == 1 ? i > 2 : p == 2 ? (i * i) % 3 : p == 3 ? 2 - i % 3 : i % 5 == 0; b[i] = p == 0 ? 1 : p == 1 ? i < n - 4 : p == 2 ? (i + 1) % 3 : p == 3 ? i % 2 : 2; }
        Region r; if (ph != 1) r.wo = swof(p % 2 ? 0.2 : 0, p == 2 ? 0.8 : 1, a, b);
        if (ph) { std::swap(a, b); r.go = sgof(ph == 1 ? 0 : r.wo[0][0], a, b, ph == 1 ? 0.7 : r.wo[2][0]); }
        one(vh::fmt("long/%d/%d/%d/%d/%d", n, p, ph, model, samp[s]), r, model, samp[s], true);
    }
    for (int nt = 5; nt <= 25; nt += 10) for (int g3 = 0; g3 < 3; ++g3) for (int a = 1; a < 8; ++a) {
        if (!vh::begin(vh::fmt("manysatnum/%d/%d/%d", nt, g3, a))) continue;
        std::vector<Region> rr(nt); const int s = a % 2, nc = 60; std::string t;
        for (int i = 0; i < nt; ++i) {
            if (g3 != 1) rr[i].wo = swof(0.1 + 0.01 * i, 1, iv(i % 3, 1, 2 - i % 3), iv(1, i / 3 % 3, 1));
            if (g3 >= 1) rr[i].go = sgof(g3 == 1 ? 0 : 0.1 + 0.01 * i, iv(1, i % 3, 1), iv(2 - i / 3 % 3, 1, 1), g3 == 1 ? 0.8 : rr[i].wo[2][0]);
        }
        t = body(rr) + "REGIONS\nSATNUM\n"; for (int i = 0; i < nc; ++i) t += vh::fmt(" %d", (i * a + i / nt) % nt + 1);
        UnstructuredGrid* g = create_grid_cart2d(10, 6, 1, 1);
        dk::Deck d = dk::parse(head + t + " /\n"); finish(rr, samp[s]);
        std::vector<const Region*> cells; for (int c = 0; c < nc; ++c) cells.push_back(&rr[(c * a + c / nt) % nt]);
        for (int model = 0; model < 3; ++model) { std::unique_ptr<SaturationPropsInterface> f(make(model, samp[s], *d, *g)); compare(*f, cells, model, true); }
        destroy_grid(g);
    }
    // simple model: tables which let water flow at connate saturation or oil at the end
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int model = 0; model < 3; ++model) for (int s = 0; s < 2; ++s) {
        Region r; r.wo = swof(0.2, 1, iv(1, 1, 1), iv(1, 1, 1));
        if (a) r.wo[1][0] = 0.01;
        if (b) r.wo[2].back() = 0.02;
        one(vh::fmt("ends/%d%d/%d/%d", a, b, model, samp[s]), r, model, samp[s], true);
    }
    // regions: every assignment of three tables to the cells, in several orders of the cells
    for (int a = 0; a < 81; ++a) for (int g3 = 0; g3 < 3; ++g3) for (int map = 0; map < 3; ++map) {
        const int s = a % 2;
        if (!vh::begin(vh::fmt("satnum/%d/%d/%d", a, g3, map))) continue;
        std::vector<Region> rr(3);
        const double co[] = { 0.1, 0.2, 0.3 };
        for (int i = 0; i < 3; ++i) {
            if (g3 != 1) rr[i].wo = swof(co[i], 1, iv(i, 1, 2 - i), iv(1, i, 1));
            if (g3 >= 1) rr[i].go = sgof(g3 == 1 ? 0 : co[i], iv(1, i, 1), iv(2 - i, 1, 1), g3 == 1 ? 0.8 : rr[i].wo[2][0]);
        }
        int num[4] = { a % 3, a / 3 % 3, a / 9 % 3, a / 27 };
        UnstructuredGrid* g = create_grid_cart2d(map == 2 ? 3 : 2, map == 2 ? 1 : 2, 1, 1);
        const int gc[3][4] = { { 0, 1, 2, 3 }, { 2, 0, 3, 1 }, { 3, 1, 0, -1 } };
        if (map) { g->global_cell = (int*)malloc(4 * sizeof(int)); memcpy(g->global_cell, gc[map], sizeof gc[map]); }
        std::string t = body(rr) + "REGIONS\nSATNUM\n";
        for (int i = 0; i < 4; ++i) t += vh::fmt(" %d", num[i] + 1);
        dk::Deck d = dk::parse(head + t + " /\n");
        finish(rr, samp[s]);
        std::vector<const Region*> cells;
        for (int c = 0; c < g->number_of_cells; ++c) cells.push_back(&rr[num[gc[map][c]]]);
        for (int model = 0; model < 3; ++model) {
            std::unique_ptr<SaturationPropsInterface> f(make(model, samp[s], *d, *g));
            compare(*f, cells, model, true);
        }
        destroy_grid(g);
    }
    // end-point scaling
    for (int t = 0; t < (T ? 9 : 5); ++t) for (int three = 0; three < 2; ++three) for (int mode = 0; mode < 6; ++mode) for (int sub = 0; sub < 256; ++sub) for (int s = 0; s < 2; ++s) {
        if (s && !T && sub % 5 != t) continue;
        if (mode > 2 && !T && sub % 3 != t % 3 && sub != 255) continue;
        const std::vector<int> a[] = { iv(1, 2, 1), iv(0, 1, 2), iv(0, 2, 1), iv(0, 1, 1), iv(1, 1, 0), iv(2, 1, 1), iv(1, 2, 0), iv(0, 1, 0), iv(1, 1, 2) };
        const std::vector<int> b[] = { iv(2, 1, 0), iv(1, 2, 1), iv(1, 2, 0), iv(0, 1, 0), iv(2, 1, 0), iv(1, 0, 0), iv(0, 1, 1), iv(0, 2, 1), iv(1, 1, 0) };
        Region r; r.wo = swof(0.1, t % 2 ? 0.9 : 0.8, a[t], b[t]);
        scaling(vh::fmt("scale/%d/%d/%d/%d/%d", t, three, mode, sub, samp[s]), r, sub, three, mode, samp[s]);
    }
    // the property objects: choice of the model, and refusal of what is not supported
    for (int model = 0; model < 4; ++model) for (int s = 0; s < 3; ++s) for (int ph = 0; ph < 3; ++ph) for (int eps = 0; eps < 2; ++eps) for (int def = 0; def < 2; ++def) {
        if (def && (model || s)) continue;
        if (!vh::begin(vh::fmt("props/%d/%d/%d/%d/%d", model, s, ph, eps, def))) continue;
        const int ns[] = { 0, 21, 200 };
        std::vector<Region> rr(1);
        if (ph != 1) rr[0].wo = swof(0.2, 1, iv(0, 1, 2), iv(1, 2, 0));
        if (ph >= 1) rr[0].go = sgof(ph == 1 ? 0 : 0.2, iv(1, 0, 2), iv(1, 1, 0), ph == 1 ? 0.8 : rr[0].wo[2][0]);
        std::string t = head + (eps ? "ENDSCALE\n /\n" : "") + body(rr) + "DENSITY\n 800 1000 1 /\nPVDO\n 100 1.1 1\n 200 1.0 1 /\nPVDG\n 100 0.1 0.01\n 200 0.05 0.02 /\nPVTW\n 100 1 0 1 0 /\nGRID\nPORO\n 4*0.2 /\nPERMX\n 4*1 /\n";
        UnstructuredGrid* g = create_grid_cart2d(2, 2, 1, 1);
        dk::Deck d = dk::parse(t);
        int n = def ? 200 : ns[s], m = def ? SIMPLE : model;
        finish(rr, n);
        parameter::ParameterGroup par; par.disableOutput();
        const char* names[] = { "simple", "stone2", "gwseg", "other" };
        if (!def) { par.insertParameter("threephase_model", names[model]); par.insertParameter("sat_tab_size", vh::fmt("%d", ns[s])); }
        bool threw = false, bad = m == 3 || (eps && (m != SIMPLE || ph != 0));
        try {
            std::unique_ptr<BlackoilPropertiesFromDeck> q(def ? new BlackoilPropertiesFromDeck(*d, *g, false) : new BlackoilPropertiesFromDeck(*d, *g, par, false));
            struct Wrap : SaturationPropsInterface {
                BlackoilPropertiesFromDeck* q;
                int numPhases() const { return q->numPhases(); }
                void relperm(const int n, const double* s, const int* c, double* k, double* dk) const { q->relperm(n, s, c, k, dk); }
                void capPress(const int n, const double* s, const int* c, double* k, double* dk) const { q->capPress(n, s, c, k, dk); }
                void satRange(const int n, const int* c, double* a, double* b) const { q->satRange(n, c, a, b); }
            } w;
            w.q = q.get();
            std::vector<const Region*> cells(4, &rr[0]);
            if (!eps) compare(w, cells, m, true);
        } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw == bad, "refusal", "threw %d", threw);
        destroy_grid(g);
    }
    for (int eps = 0; eps < 2; ++eps) for (int sat = 0; sat < 2; ++sat) {
        if (!vh::begin(vh::fmt("incomp/%d/%d", eps, sat))) continue;
        std::vector<Region> rr(1);
        rr[0].wo = swof(0.2, 1, iv(0, 1, 2), iv(1, 2, 0));
        std::string t = head + (eps ? "ENDSCALE\n /\n" : "") + body(rr) + "DENSITY\n 800 1000 1 /\nPVCDO\n 100 1 0 1 0 /\nPVTW\n 100 1 0 1 0 /\nGRID\nPORO\n 4*0.2 /\nPERMX\n 4*1 /\n";
        if (eps && sat) t += "PROPS\nSWL\n 4*0.25 /\nSWCR\n 4*0.5 /\nKRW\n 4*0.4 /\nKRWR\n 4*0.3 /\n";
        UnstructuredGrid* g = create_grid_cart2d(2, 2, 1, 1);
        dk::Deck d = dk::parse(t);
        finish(rr, 200);
        bool threw = false;
        try {
            IncompPropertiesFromDeck q(*d, *g);
            struct Wrap : SaturationPropsInterface {
                IncompPropertiesFromDeck* q;
                int numPhases() const { return q->numPhases(); }
                void relperm(const int n, const double* s, const int* c, double* k, double* dk) const { q->relperm(n, s, c, k, dk); }
                void capPress(const int n, const double* s, const int* c, double* k, double* dk) const { q->capPress(n, s, c, k, dk); }
                void satRange(const int n, const int* c, double* a, double* b) const { q->satRange(n, c, a, b); }
            } w;
            w.q = &q;
            std::vector<const Region*> cells(4, &rr[0]);
            if (!eps) compare(w, cells, STONE2, true);
        } catch (const std::exception&) { threw = true; }
        // scaling is not available here: decks asking for it must not be run with other curves
        VH_CHECK(threw == (eps != 0), "refusal", "threw %d", threw);
        destroy_grid(g);
    }
    // inconsistent tables
    for (int c = 0; c < 14; ++c) {
        if (!vh::begin(vh::fmt("bad/%d", c))) continue;
        std::vector<Region> rr(2);
        for (int i = 0; i < 2; ++i) { rr[i].wo = swof(0.2, 1, iv(1, 1, 1), iv(1, 1, 1)); rr[i].go = sgof(c == 0 ? 0.25 : 0.2, iv(1, 1, 1), iv(1, 1, 1), 0.45); }
        std::string t = body(rr);
        if (c == 1) { std::vector<Region> q(1, rr[0]); t = body(q) + "REGIONS\nSATNUM\n 1 1 2 1 /\n"; }
        if (c == 2) t = "OIL\nWATER\nGAS\nPROPS\nSWOF\n" + table(rr[0].wo) + "SGOF\n" + table(rr[0].go) + table(rr[1].go);
        if (c == 3) t = "WATER\nGAS\nPROPS\nSWOF\n" + table(rr[0].wo) + "SGOF\n" + table(rr[0].go);
        if (c == 4) t = "OIL\nGAS\nPROPS\nSGOF\n" + table(swof(0, 1, iv(1, 1, 1), iv(1, 1, 1))) + "REGIONS\nSATNUM\n 1 1 2 1 /\n";
        // curves of a single row, and cells without a region
        if (c == 5) t = "OIL\nWATER\nPROPS\nSWOF\n 0.2 0 0 0 /\n";
        if (c == 6) t = "OIL\nGAS\nPROPS\nSGOF\n 1 0 0 0 /\n";
        if (c == 7) t += "REGIONS\nSATNUM\n 1 0 2 1 /\n";
        if (c == 8) t += "REGIONS\nSATNUM\n 1 -1 2 1 /\n";
        // scaling: end points for fewer regions than the cells use, or for fewer cells than there are
        const std::string two = "OIL\nWATER\nENDSCALE\n /\nPROPS\nSWOF\n" + table(rr[0].wo) + table(rr[1].wo) + "REGIONS\nSATNUM\n 1 2 1 2 /\nPROPS\n";
        if (c == 9) t = two + "ENPTVD\n 0 .1 .2 .9 1* 1* 1* .1 1*\n 4 .1 .2 .9 1* 1* 1* .1 1* /\n/\n";
        if (c == 10) t = two + "ENKRVD\n 0 .5 1* .5 1* 1* 1* 1*\n 4 .5 1* .5 1* 1* 1* 1* /\n/\n";
        if (c == 11) t = two + "SWL\n .1 .1 .1 /\n";
        if (c == 12) t = two + "KRW\n .5 .5 /\n";
        if (c == 13) t = body(rr) + "REGIONS\nSATNUM\n 1 1 2 /\n";
        UnstructuredGrid* g = create_grid_cart2d(2, 2, 1, 1);
        dk::Deck d = dk::parse(head + t);
        for (int model = 0; model < 3; ++model) for (int s = 0; s < 2; ++s) {
            bool threw = false;
            try { std::unique_ptr<SaturationPropsInterface> f(make(model, samp[s], *d, *g)); } catch (const std::exception&) { threw = true; }
            VH_CHECK(threw, "refusal", "accepted by model %d, samples %d", model, samp[s]);
        }
        destroy_grid(g);
    }
}
