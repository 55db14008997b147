// Interpolation tables: linear (uniform and not), monotone cubic, resampled monotone; every small data set and
// every short history of edits, against an independent reference.
#include "vh.hpp"
#include <opm/core/utility/linearInterpolation.hpp>
#include <opm/core/utility/ErrorMacros.hpp>
#include <opm/core/utility/NonuniformTableLinear.hpp>
#include <sstream>
#include <opm/core/utility/UniformTableLinear.hpp>
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#include <opm/core/utility/buildUniformMonotoneTable.hpp>
using namespace Opm;
typedef std::vector<double> V;
typedef std::map<double, double> Data;

// ---- reference: Fritsch-Carlson with averaged one-sided slopes, constant outside ----
static V refslopes(const V& x, const V& y, bool monotone)
{
    int n = x.size();
    V s(n - 1), d(n);
    for (int i = 0; i + 1 < n; ++i) s[i] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
    d[0] = s[0]; d[n - 1] = s[n - 2];
    for (int i = 1; i + 1 < n; ++i) d[i] = 0.5 * (s[i - 1] + s[i]);
    if (monotone) for (int i = 0; i + 1 < n; ++i) {
        if (s[i] == 0) { d[i] = d[i + 1] = 0; continue; }
        double a = d[i] / s[i], b = d[i + 1] / s[i], q = a * a + b * b;
        if (q > 9) { double t = 3 / std::sqrt(q); d[i] = t * a * s[i]; d[i + 1] = t * b * s[i]; }
    }
    return d;
}
struct Shape { bool inc, dec, sinc, sdec; };
static Shape shape(const V& y)
{
    Shape r = { true, true, true, true };
    for (size_t i = 1; i < y.size(); ++i) {
        if (y[i] < y[i - 1]) r.inc = false;
        if (y[i] > y[i - 1]) r.dec = false;
        if (y[i] <= y[i - 1]) r.sinc = false;
        if (y[i] >= y[i - 1]) r.sdec = false;
    }
    return r;
}
static double refcubic(const V& x, const V& y, const V& d, double q)
{
    int n = x.size();
    if (n == 1 || q <= x[0]) return y[0];
    if (q >= x[n - 1]) return y[n - 1];
    int i = 0;
    while (x[i + 1] < q) ++i;
    double h = x[i + 1] - x[i], t = (q - x[i]) / h, u = 1 - t;
    // Bernstein form
    double b0 = y[i], b1 = y[i] + d[i] * h / 3, b2 = y[i + 1] - d[i + 1] * h / 3, b3 = y[i + 1];
    return u * u * u * b0 + 3 * u * u * t * b1 + 3 * u * t * t * b2 + t * t * t * b3;
}
static int seg(const V& x, double q)
{
    int n = x.size(), i = 0;
    while (i + 2 < n && q >= x[i + 1]) ++i;
    return i;
}
static V probes(const V& x)
{
    V q;
    for (size_t i = 0; i < x.size(); ++i) {
        q.push_back(x[i]);
        if (i + 1 < x.size()) for (int k = 1; k < 8; ++k) q.push_back(x[i] + (x[i + 1] - x[i]) * k / 8);
    }
    q.push_back(x[0] - 0.5); q.push_back(x[0] - 50); q.push_back(x.back() + 0.25); q.push_back(x.back() + 1000);
    return q;
}

static void checkcubic(MonotCubicInterpolator& m, const Data& data, const char* where)
{
    V x, y;
    for (Data::const_iterator i = data.begin(); i != data.end(); ++i) { x.push_back(i->first); y.push_back(i->second); }
    const int n = x.size();
    VH_CHECK(m.getSize() == n, "size", "%s: %d points, expected %d", where, m.getSize(), n);
    V gx = m.get_xVector(), gf = m.get_fVector();
    VH_CHECK(gx == x && gf == y, "data", "%s: holds %s -> %s, expected %s -> %s", where, vh::str(gx).c_str(), vh::str(gf).c_str(), vh::str(x).c_str(), vh::str(y).c_str());
    Shape s = shape(y);
    bool mono = s.inc || s.dec;
    V q = probes(x), d = n > 1 ? refslopes(x, y, mono) : V(1, 0.0), got(q.size());
    for (size_t i = 0; i < q.size(); ++i) {
        got[i] = m(q[i]);
        double w = refcubic(x, y, d, q[i]);
        vh::tr();
        VH_CHECK(vh::close_to(got[i], w, 1e-9, 1e-11), "value", "%s: f(%g) = %.12g, expected %.12g", where, q[i], got[i], w);
    }
    for (int i = 0; i < n; ++i) VH_CHECK(m(x[i]) == y[i], "node", "%s: f(%g) = %.17g, data %.17g", where, x[i], m(x[i]), y[i]);
    if (mono) {
        V g = q; std::sort(g.begin(), g.end());
        for (size_t i = 1; i < g.size(); ++i) {
            double a = m(g[i - 1]), b = m(g[i]), tol = 1e-12 * (std::fabs(a) + std::fabs(b));
            VH_CHECK((s.inc && b >= a - tol) || (s.dec && b <= a + tol), "monotone", "%s: f(%g)=%.15g f(%g)=%.15g", where, g[i - 1], a, g[i], b);
        }
    }
    std::pair<double, double> lo = m.getMinimumX(), hi = m.getMaximumX();
    VH_CHECK(lo.first == x[0] && lo.second == y[0] && hi.first == x[n - 1] && hi.second == y[n - 1], "xrange", "%s", where);
    if (n >= 2) {
        std::pair<double, double> a = m.getMaximumF(), b = m.getMinimumF(), g = m.getMissingX();
        double ymax = *std::max_element(y.begin(), y.end()), ymin = *std::min_element(y.begin(), y.end());
        VH_CHECK(a.second == ymax && data.count(a.first) && data.find(a.first)->second == ymax, "maxF", "%s: (%g,%g), maximum is %g", where, a.first, a.second, ymax);
        VH_CHECK(b.second == ymin && data.count(b.first) && data.find(b.first)->second == ymin, "minF", "%s: (%g,%g), minimum is %g", where, b.first, b.second, ymin);
        double jump = 0;
        for (int i = 1; i < n; ++i) jump = std::max(jump, std::fabs(y[i] - y[i - 1]));
        bool ok = false;
        for (int i = 1; i < n; ++i) ok = ok || (std::fabs(y[i] - y[i - 1]) == jump && vh::close_to(g.first, 0.5 * (x[i] + x[i - 1]), 1e-14));
        VH_CHECK(ok && g.second == jump, "missing", "%s: missing x (%.12g,%g), largest jump %g", where, g.first, g.second, jump);
        VH_CHECK(m.isMonotone() == mono, "isMonotone", "%s: %d, data %s", where, m.isMonotone(), vh::str(y).c_str());
        VH_CHECK(m.isStrictlyMonotone() == (s.sinc || s.sdec), "isStrictlyMonotone", "%s: data %s", where, vh::str(y).c_str());
        VH_CHECK(m.isStrictlyIncreasing() == s.sinc && m.isStrictlyDecreasing() == s.sdec, "strict direction", "%s: %d %d data %s", where, m.isStrictlyIncreasing(), m.isStrictlyDecreasing(), vh::str(y).c_str());
        if (!(s.inc && s.dec))
            VH_CHECK(m.isMonotoneIncreasing() == s.inc && m.isMonotoneDecreasing() == s.dec, "direction", "%s: %d %d data %s", where, m.isMonotoneIncreasing(), m.isMonotoneDecreasing(), vh::str(y).c_str());
        // queries do not change the function
        for (size_t i = 0; i < q.size(); ++i) VH_CHECK(m(q[i]) == got[i], "query", "%s: f(%g) changed after queries: %.15g, was %.15g", where, q[i], m(q[i]), got[i]);
    }
    vh::outcome(vh::str(gx) + "|" + vh::str(gf));
    vh::state();
}

static void edit(MonotCubicInterpolator& m, Data& data, int op)
{
    switch (op) {
    case 0: m.addPair(0.5, 1.5); data[0.5] = 1.5; break;
    case 1: { double x = data.rbegin()->first; m.addPair(x, 0.25); data[x] = 0.25; break; }
    case 2: { double x = data.begin()->first - 1; m.addPair(x, 2); data[x] = 2; break; }
    case 3: m.scaleData(-2); for (Data::iterator i = data.begin(); i != data.end(); ++i) i->second *= -2; break;
    case 4: m.scaleData(0.5); for (Data::iterator i = data.begin(); i != data.end(); ++i) i->second *= 0.5; break;
    case 5: {
        m.chopFlatEndpoints();
        if (data.size() < 3) break;
        while (data.size() > 1) { Data::iterator a = data.begin(), b = a; ++b; if (a->second != b->second) break; data.erase(a); }
        while (data.size() > 2) { Data::iterator a = --data.end(), b = a; --b; if (a->second != b->second) break; data.erase(a); }
        break; }
    case 6: {
        m.shrinkFlatAreas();
        V y; for (Data::iterator i = data.begin(); i != data.end(); ++i) y.push_back(i->second);
        Shape s = shape(y);
        if (data.size() < 2 || !(s.inc || s.dec)) break;
        // one point of every flat stretch stays; take over which from the object, it is not promised
        Data left; V gx = m.get_xVector(), gf = m.get_fVector();
        std::set<double> vals(y.begin(), y.end());
        bool ok = gx.size() == vals.size();
        for (size_t i = 0; i < gx.size() && ok; ++i) {
            ok = data.count(gx[i]) && data[gx[i]] == gf[i] && vals.count(gf[i]);
            left[gx[i]] = gf[i];
        }
        VH_CHECK(ok, "shrink", "left %s -> %s", vh::str(gx).c_str(), vh::str(gf).c_str());
        data = left;
        break; }
    case 7: m.scaleData(0); for (Data::iterator i = data.begin(); i != data.end(); ++i) i->second *= 0; break;
    }
}
static const int NOP = 8;

static void linear(const V& x, const V& y)
{
    const int n = x.size();
    V q = probes(x);
    NonuniformTableLinear<double> t(x, y);
    for (size_t i = 0; i < q.size(); ++i) {
        int k = seg(x, q[i]);
        double s = (y[k + 1] - y[k]) / (x[k + 1] - x[k]), w = y[k] + s * (q[i] - x[k]);
        vh::tr(2);
        VH_CHECK(vh::close_to(t(q[i]), w, 1e-12, 1e-12), "nonuniform", "f(%g) = %.12g, expected %.12g", q[i], t(q[i]), w);
        VH_CHECK(vh::close_to(linearInterpolation(x, y, q[i]), w, 1e-12, 1e-12), "linear", "f(%g), expected %.12g", q[i], w);
        int ix = -1;
        double v = linearInterpolation(x, y, q[i], ix);
        VH_CHECK(vh::close_to(v, w, 1e-12, 1e-12) && ix == tableIndex(x, q[i]), "linear index", "f(%g) = %.12g index %d", q[i], v, ix);
        VH_CHECK(ix >= 0 && ix + 1 < n && (q[i] >= x[ix] || ix == 0) && (q[i] <= x[ix + 1] || ix == n - 2), "interval", "x=%g index %d", q[i], ix);
        bool node = false;
        for (int j = 1; j + 1 < n; ++j) node = node || q[i] == x[j];
        double dv = t.derivative(q[i]), dw = linearInterpolationDerivative(x, y, q[i]);
        double s2 = node ? (y[k] - y[k - 1]) / (x[k] - x[k - 1]) : s; // either side at a data point
        VH_CHECK((vh::close_to(dv, s, 1e-12, 1e-13) || vh::close_to(dv, s2, 1e-12, 1e-13)) && dv == dw, "slope", "f'(%g) = %.12g / %.12g, expected %.12g", q[i], dv, dw, s);
    }
    VH_CHECK(t.domain() == std::make_pair(x[0], x[n - 1]), "domain", "(%g,%g)", t.domain().first, t.domain().second);
    NonuniformTableLinear<double> t2(x, y);
    VH_CHECK(t == t2, "equal", "equal tables differ");
    for (int i = 0; i < n; ++i) {
        V xx = x, yy = y;
        xx[i] += i + 1 < n ? (x[i + 1] - x[i]) / 2 : 1.0;
        yy[i] += 1.0;
        VH_CHECK(!(t == NonuniformTableLinear<double>(xx, y)) && !(t == NonuniformTableLinear<double>(x, yy)), "unequal", "tables that differ at point %d are equal", i);
    }
    // the free functions also take tables with falling arguments
    V xd(x.rbegin(), x.rend()), yd(y.rbegin(), y.rend());
    for (size_t i = 0; i < q.size(); ++i) {
        int k = seg(x, q[i]), ix = -1;
        double w = y[k] + (y[k + 1] - y[k]) / (x[k + 1] - x[k]) * (q[i] - x[k]);
        VH_CHECK(vh::close_to(linearInterpolation(xd, yd, q[i]), w, 1e-12, 1e-12) && vh::close_to(linearInterpolation(xd, yd, q[i], ix), w, 1e-12, 1e-12), "falling", "f(%g), expected %.12g", q[i], w);
        VH_CHECK(ix >= 0 && ix + 1 < n && (q[i] <= xd[ix] || ix == 0) && (q[i] >= xd[ix + 1] || ix == n - 2), "falling interval", "x=%g index %d", q[i], ix);
    }
    Shape s = shape(y);
    if (s.sinc || s.sdec) for (int round = 0; round < 2; ++round) {
        // inverse, before and after the domain is rescaled
        for (size_t i = 0; i < q.size(); ++i) {
            double a = x[0], b = x[n - 1], qq = round ? (q[i] - a) * (8.0 - 3.0) / (b - a) + 3.0 : q[i];
            double v = t(qq), z = t.inverse(v);
            VH_CHECK(vh::close_to(z, qq, 1e-10, 1e-10), "inverse", "round %d: inverse(f(%g)) = %.12g", round, qq, z);
        }
        if (round == 0) {
            t.rescaleDomain(std::make_pair(3.0, 8.0));
            VH_CHECK(vh::close_to(t.domain().first, 3, 1e-13) && vh::close_to(t.domain().second, 8, 1e-13), "rescaled domain", "(%g,%g)", t.domain().first, t.domain().second);
            for (int i = 0; i < n; ++i) {
                double z = (x[i] - x[0]) * 5.0 / (x[n - 1] - x[0]) + 3.0;
                VH_CHECK(vh::close_to(t(z), y[i], 1e-11, 1e-12), "rescaled", "f(%g) = %g, expected %g", z, t(z), y[i]);
            }
        }
    }
}
static void uniform(double x0, double x1, const V& y)
{
    const int n = y.size();
    V x(n);
    for (int i = 0; i < n; ++i) x[i] = x0 + (x1 - x0) * i / (n - 1);
    x[n - 1] = x1;
    UniformTableLinear<double> t(x0, x1, y), u(x0, x1, &y[0], n);
    VH_CHECK(t == u, "equal", "equal uniform tables differ");
    VH_CHECK(!(t == UniformTableLinear<double>(x0, x1 + 1, y)) && !(t == UniformTableLinear<double>(x0 - 1, x1, y)), "unequal", "tables over different ranges are equal");
    for (int i = 0; i < n; ++i) {
        V yy = y;
        yy[i] += 1;
        VH_CHECK(!(t == UniformTableLinear<double>(x0, x1, yy)), "unequal", "tables that differ at point %d are equal", i);
    }
    std::ostringstream os;
    os << t;
    std::istringstream is(os.str());
    for (int i = 0; i < n; ++i) {
        double a = 1e9, b = 1e9;
        is >> a >> b;
        VH_CHECK(is && vh::close_to(a, x[i], 1e-5, 1e-9) && vh::close_to(b, y[i], 1e-5, 1e-9), "printed", "row %d: %g %g", i, a, b);
    }
    for (int round = 0; round < 2; ++round) {
        V q = probes(x);
        for (size_t i = 0; i < q.size(); ++i) {
            double c = std::min(std::max(q[i], x[0]), x[n - 1]);
            int k = seg(x, c);
            double h = (x[n - 1] - x[0]) / (n - 1), w = y[k] + (y[k + 1] - y[k]) * (c - x[k]) / h;
            vh::tr(2);
            VH_CHECK(vh::close_to(t(q[i]), w, 1e-11, 1e-11), "uniform", "round %d f(%g) = %.12g, expected %.12g", round, q[i], t(q[i]), w);
            double dv = t.derivative(q[i]);
            bool ok = false;
            if (q[i] <= x[0] || q[i] >= x[n - 1]) ok = dv == 0;
            if (q[i] >= x[0] && q[i] <= x[n - 1]) // neighbours on both sides are acceptable near a data point
                for (int j = std::max(0, k - 1); j <= std::min(n - 2, k + 1); ++j)
                    if (q[i] > x[j] - 1e-9 && q[i] < x[j + 1] + 1e-9) ok = ok || vh::close_to(dv, (y[j + 1] - y[j]) / h, 1e-11, 1e-12);
            VH_CHECK(ok, "uniform slope", "round %d f'(%g) = %.12g", round, q[i], dv);
        }
        VH_CHECK(t.domain() == std::make_pair(x[0], x[n - 1]) , "uniform domain", "(%g,%g)", t.domain().first, t.domain().second);
        t.rescaleDomain(std::make_pair(-2.0, 0.5));
        for (int i = 0; i < n; ++i) x[i] = -2 + 2.5 * i / (n - 1);
        x[n - 1] = 0.5;
    }
    VH_CHECK(!(t == u), "unequal", "tables with different domains are equal");
    typedef UniformTableLinear<double> U;
    for (int p = 0; p < 3; ++p) for (int side = 0; side < 2; ++side) {
        bool threw = false;
        try { if (side) t.setLeftPolicy(U::RangePolicy(p)); else t.setRightPolicy(U::RangePolicy(p)); } catch (...) { threw = true; }
        VH_CHECK(threw == (p != U::ClosestValue), "policy", "policy %d", p);
    }
}

static void files(const std::string& id, const std::string& text, int xc, int fc, const Data& want)
{
    if (!vh::begin(id)) return;
    std::string fn = vh::scratch() + vh::fmt("/t%d.txt", (int)getpid());
    FILE* f = fopen(fn.c_str(), "w"); fputs(text.c_str(), f); fclose(f);
    MonotCubicInterpolator m;
    m.addPair(99, 99); m.addPair(98, 97);
    bool ok = m.read(fn, xc, fc);
    VH_CHECK(ok == !want.empty(), "read", "returned %d", ok);
    if (ok && !want.empty()) checkcubic(m, want, "read");
    try {
        MonotCubicInterpolator c(fn, xc, fc);
        VH_CHECK(!want.empty(), "constructor", "accepted a file without data");
        if (!want.empty()) checkcubic(c, want, "constructed");
    } catch (const char*) { VH_CHECK(want.empty(), "constructor", "refused"); }
    unlink(fn.c_str());
}

void explore()
{
    const bool T = vh::thorough();
    freopen("/dev/null", "w", stderr);
    const double X[3][7] = { { 0, 1, 2, 3, 4, 5, 6 }, { -1, 0, 0.125, 2, 2.5, 7, 7.25 }, { 0, 1e-3, 1, 1.001, 100, 101, 1e4 } };
    for (int sp = 0; sp < 3; ++sp) for (int n = 2; n <= (T ? 6 : 5); ++n) {
        V x(X[sp], X[sp] + n);
        std::vector<int> k(n, 0);
        do {
            if (!vh::begin(vh::fmt("data/%d/%d/%s", sp, n, vh::str(k).c_str()))) continue;
            V y(n);
            const double lev[4] = { 0, 1, 1.25, 9 };
            for (int i = 0; i < n; ++i) y[i] = lev[k[i]];
            MonotCubicInterpolator m(x, y);
            Data d;
            for (int i = 0; i < n; ++i) d[x[i]] = y[i];
            checkcubic(m, d, "constructed");
            // construction order does not matter
            V xr(x.rbegin(), x.rend()), yr(y.rbegin(), y.rend());
            MonotCubicInterpolator r(xr, yr);
            checkcubic(r, d, "constructed reversed");
            linear(x, y);
            if (sp == 0) { uniform(0, n - 1, y); uniform(-3, 11.7, y); }
            for (int samples = 2; samples <= 9; samples += samples > 3 ? 4 : 1) {
                UniformTableLinear<double> t;
                buildUniformMonotoneTable(x, y, samples, t);
                V dd = refslopes(x, y, shape(y).inc || shape(y).dec);
                for (int i = 0; i < samples; ++i) {
                    double q = x[0] + (x[n - 1] - x[0]) * i / (samples - 1), w = refcubic(x, y, dd, q);
                    VH_CHECK(vh::close_to(t(q), w, 1e-9, 1e-8 + (sp == 2 ? 1e-6 : 0)), "resampled", "%d samples: f(%g) = %.12g, expected %.12g", samples, q, t(q), w);
                    vh::tr();
                }
                VH_CHECK(vh::close_to(t(x[0] - 1), y[0], 1e-12, 1e-14) && vh::close_to(t(x[n - 1] + 1), y[n - 1], 1e-12, 1e-14), "resampled ends", "%d samples", samples);
            }
        } while (vh::next(k, 4));
    }
    // long tables
    for (int n = 17; n <= 300; n = n * 2 + 1) for (int p = 0; p < 8; ++p) for (int sp = 0; sp < 2; ++sp) if (vh::begin(vh::fmt("long/%d/%d/%d", n, p, sp))) {
        V x(n), y(n); Data d;
        for (int i = 0; i < n; ++i) { x[i] = sp ? 0.25 * i * (1 + i % 2) + i : i; y[i] = p == 0 ? i : p == 1 ? n - i : p == 2 ? i / 7 : p == 3 ? (i * 5) % 11 : p == 4 ? i * i * 0.01 : p == 5 ? (i > n / 2) * 3 : p == 6 ? -std::sqrt(1.0 + i) : 2; }
        for (int i = 0; i + 1 < n; ++i) if (!(x[i] < x[i + 1])) x[i + 1] = x[i] + 0.5;
        for (int i = 0; i < n; ++i) d[x[i]] = y[i];
        vh::state(); MonotCubicInterpolator m(x, y); checkcubic(m, d, "long"); linear(x, y); if (!sp) { uniform(0, n - 1, y); uniform(-3, 11.7, y); }
    }
    // histories of edits
    const int depth = T ? 5 : 4;
    for (int n = 2; n <= 4; ++n) {
        std::vector<int> k(n, 0);
        do for (int L = 1; L <= depth; ++L) {
            if (L == depth && n == 4 && !T) continue;
            if (L == 5 && n == 4) continue;
            // cases: data x first two edits; the rest of the history inside
            std::vector<int> h(L, 0);
            std::string cur = "?";
            bool run = false;
            do {
                std::string id = vh::fmt("edit/%d/%s/%d.%d.%d", n, vh::str(k).c_str(), L, h[L - 1], L > 1 ? h[L - 2] : 0);
                if (id != cur) { cur = id; run = vh::begin(id); }
                if (!run) continue;
                V x(X[0], X[0] + n), y(n);
                for (int i = 0; i < n; ++i) y[i] = k[i];
                Data d;
                for (int i = 0; i < n; ++i) d[x[i]] = y[i];
                MonotCubicInterpolator m(x, y);
                for (int i = 0; i < L; ++i) { edit(m, d, h[i]); vh::tr(); }
                checkcubic(m, d, vh::str(h).c_str());
            } while (vh::next(h, NOP));
        } while (vh::next(k, 3));
    }
    // files
    Data d; d[1] = 2; d[3] = 4; d[5] = -1;
    files("file/plain", "1 2\n3 4\n5 -1\n", 1, 2, d);
    files("file/commas", "1,2\n 3 , 4 \n\t5,-1", 1, 2, d);
    files("file/text", "# 7 7\nx y\n1 2\n\nabc 3\n7\n7 abc\n   \n3 4 junk\n5 -1 8\n", 1, 2, d);
    files("file/single", "1 2\n3 4\n5 -1\n6\n", 1, 2, d);
    files("file/columns", "0 1 9 2\n0 3 9 4\n0 5 9 -1\n0 8 9\n", 2, 4, d);
    files("file/swapped", "2 1\n4 3\n-1 5\n", 2, 1, d);
    files("file/none", "# nothing\n\n", 1, 2, Data());
    files("file/word", "hello world\n", 1, 2, Data());
    files("file/unsorted", "5 -1\n1 2\n3 7\n3 4\n", 1, 2, d);
    if (vh::begin("file/missing")) {
        MonotCubicInterpolator m;
        VH_CHECK(!m.read(vh::scratch() + "/does-not-exist"), "missing", "reading a missing file succeeded");
        const double bad[3] = { NAN, INFINITY, -INFINITY };
        m.addPair(0, 1); m.addPair(1, 2);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            bool threw = false;
            try { if (j == 0) m.addPair(bad[i], 1); else if (j == 1) m.addPair(1, bad[i]); else m(bad[i]); } catch (const char*) { threw = true; }
            VH_CHECK(threw, "nan", "accepted %g", bad[i]);
        }
        Data e; e[0] = 1; e[1] = 2;
        checkcubic(m, e, "after refusals");
        bool threw = false;
        try { MonotCubicInterpolator c(V(2, 0.0), V(3, 0.0)); } catch (const char*) { threw = true; }
        VH_CHECK(threw, "length", "accepted vectors of different lengths");
    }
}
