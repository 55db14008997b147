// Root finders on every function of a lattice: piecewise linear, stepped and curved, over intervals, guesses, tolerances, limits.
#include "vh.hpp"
#include <iostream>
#include <opm/core/utility/RootFinders.hpp>

struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
// kind 0: continuous through the nodes, 1: constant between nodes, 2: cube of the continuous one
struct Fun {
    double a, b, scale; std::vector<double> y; int kind; mutable int calls; mutable double lo, hi;
    double value(double x) const {
        const int n = y.size() - 1;
        double t = (x - a) / (b - a) * n; int i = (int)std::floor(t); i = i < 0 ? 0 : i >= n ? n - 1 : i;
        double u = t - i, v;
        if (kind == 1) v = t >= n ? y[n] : y[i]; else { v = u == 0 ? y[i] : u == 1 ? y[i + 1] : y[i] + u * (y[i + 1] - y[i]); if (kind == 2) v = v * v * v; }
        return scale * v;
    }
    double operator()(double x) const { ++calls; lo = std::min(lo, x); hi = std::max(hi, x); return value(x); }
};
struct Record {
    static int failed, toomany; static double x0, x1, f0, f1; static int maxit;
    static double handleBracketingFailure(double a, double b, double c, double d) { ++failed; x0 = a; x1 = b; f0 = c; f1 = d; return -7777; }
    static double handleTooManyIterations(double a, double b, int m) { ++toomany; x0 = a; x1 = b; maxit = m; return -8888; }
};
int Record::failed, Record::toomany, Record::maxit; double Record::x0, Record::x1, Record::f0, Record::f1;

static void one(Fun& f, bool guess, double g, int maxit, double tol, const char* what)
{
    vh::tr();
    Record::failed = Record::toomany = 0;
    f.calls = 0; f.lo = 1e300; f.hi = -1e300;
    int it = -5;
    double r = guess ? Opm::RegulaFalsi<Record>::solve(f, g, f.a, f.b, maxit, tol, it) : Opm::RegulaFalsi<Record>::solve(f, f.a, f.b, maxit, tol, it);
    const int calls = f.calls;
    const double fa = f.value(f.a), fb = f.value(f.b), fg = guess ? f.value(g) : fa;
    const double epsF = tol + 2.3e-16 * std::max(std::fabs(guess ? fg : fa), 1.0), epsX = tol + 2.3e-16 * std::max(std::max(std::fabs(f.a), std::fabs(f.b)), 1.0);
    VH_CHECK(f.lo >= std::min(f.a, f.b) - 1e-12 * std::fabs(f.a) && f.hi <= std::max(f.a, f.b) + 1e-12 * std::fabs(f.a), "outside", "%s: evaluated at [%.9g, %.9g]", what, f.lo, f.hi);
    VH_CHECK(it >= 0 && it <= calls && calls <= it + 3, "count", "%s: %d iterations reported, %d evaluations", what, it, calls);
    VH_CHECK(it <= maxit + 1, "count", "%s: %d iterations, at most %d allowed", what, it, maxit);
    const double best = std::min(std::fabs(fa), std::min(std::fabs(fb), std::fabs(fg)));
    const bool bracket = (fa < 0) != (fb < 0) || (guess && (fa < 0) != (fg < 0));
    if (Record::failed) {
        VH_CHECK(!bracket && best >= epsF * 0.99, "bracket", "%s: refused though f = %.9g, %.9g, %.9g", what, fa, fg, fb);
        VH_CHECK(Record::x0 == f.a && Record::x1 == f.b && Record::f0 == fa && Record::f1 == fb, "policy", "%s: told f(%.9g) = %.9g, f(%.9g) = %.9g, they are %.9g and %.9g", what, Record::x0, Record::f0, Record::x1, Record::f1, fa, fb);
        VH_CHECK(r == -7777, "policy", "%s: policy's answer ignored", what);
        Quiet q;
        int it2 = 0;
        double w = guess ? Opm::RegulaFalsi<Opm::WarnAndContinueOnError>::solve(f, g, f.a, f.b, maxit, tol, it2) : Opm::RegulaFalsi<Opm::WarnAndContinueOnError>::solve(f, f.a, f.b, maxit, tol, it2);
        double c = guess ? Opm::RegulaFalsi<Opm::ContinueOnError>::solve(f, g, f.a, f.b, maxit, tol, it2) : Opm::RegulaFalsi<Opm::ContinueOnError>::solve(f, f.a, f.b, maxit, tol, it2);
        VH_CHECK((w == f.a || w == f.b) && std::fabs(f.value(w)) == std::min(std::fabs(fa), std::fabs(fb)), "policy", "%s: continued with %.9g where f = %.9g, ends have %.9g and %.9g", what, w, f.value(w), fa, fb);
        VH_CHECK(c == w, "policy", "%s: quiet policy %.9g, warning policy %.9g", what, c, w);
        bool threw = false;
        try { if (guess) Opm::RegulaFalsi<Opm::ThrowOnError>::solve(f, g, f.a, f.b, maxit, tol, it2); else Opm::RegulaFalsi<Opm::ThrowOnError>::solve(f, f.a, f.b, maxit, tol, it2); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "policy", "%s: no exception", what);
    } else if (Record::toomany) {
        VH_CHECK(r == -8888 && Record::maxit == maxit, "policy", "%s: policy's answer ignored", what);
        VH_CHECK(f.value(Record::x0) * f.value(Record::x1) <= 0, "policy", "%s: not a bracket", what);
        VH_CHECK(maxit < 100 || f.kind != 0 || tol < 1e-14 * f.scale * std::max(*std::max_element(f.y.begin(), f.y.end()), 2.0) * f.y.size() * std::max(1.0, std::max(std::fabs(f.a), std::fabs(f.b)) / std::fabs(f.b - f.a)), "slow", "%s: not converged in %d iterations", what, maxit);
        Quiet q; int it2 = 0;
        double c = guess ? Opm::RegulaFalsi<Opm::ContinueOnError>::solve(f, g, f.a, f.b, maxit, tol, it2) : Opm::RegulaFalsi<Opm::ContinueOnError>::solve(f, f.a, f.b, maxit, tol, it2);
        VH_CHECK(c >= std::min(Record::x0, Record::x1) && c <= std::max(Record::x0, Record::x1), "policy", "%s: continued with %.9g", what, c);
        double w = guess ? Opm::RegulaFalsi<Opm::WarnAndContinueOnError>::solve(f, g, f.a, f.b, maxit, tol, it2) : Opm::RegulaFalsi<Opm::WarnAndContinueOnError>::solve(f, f.a, f.b, maxit, tol, it2);
        VH_CHECK(c == w, "policy", "%s: quiet policy %.9g, warning policy %.9g", what, c, w);
        bool threw = false;
        try { if (guess) Opm::RegulaFalsi<Opm::ThrowOnError>::solve(f, g, f.a, f.b, maxit, tol, it2); else Opm::RegulaFalsi<Opm::ThrowOnError>::solve(f, f.a, f.b, maxit, tol, it2); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "policy", "%s: no exception when out of iterations", what);
    } else {
        if (!(r >= std::min(f.a, f.b) && r <= std::max(f.a, f.b))) vh::fail("outside", "%s: root %.12g", what, r);
        bool ok = std::fabs(f.value(r)) <= epsF * 1.001;
        // else a change of sign must be this close
        const double ds[2] = { 1e-15 * std::fabs(r), 1e-9 * epsX + 1e-15 * std::fabs(r) };
        for (size_t k = 0; k < f.y.size() && !ok; ++k) { double x = f.a + (f.b - f.a) * k / (f.y.size() - 1); ok = std::fabs(x - r) <= ds[1] && f.value(r) * f.value(x) <= 0; }
        if (!ok && guess) ok = std::fabs(g - r) <= ds[1] && f.value(r) * fg <= 0;
        for (int k = 0; k < 2 && !ok; ++k) for (int h = -64; h <= 64 && !ok; ++h)
            ok = f.value(r) * f.value(std::max(std::min(f.a, f.b), std::min(std::max(f.a, f.b), r + ds[k] * h / 64))) <= 0;
        VH_CHECK(ok, "root", "%s: f(%.12g) = %.9g (tolerance %.3g)", what, r, f.value(r), tol);
        if (best < epsF * 0.999 && !guess) VH_CHECK(it == 0, "count", "%s: %d iterations though an end is a root", what, it);
    }
    vh::outcome(vh::hash(&r, 8));
}
struct Shift { const Fun& f; mutable int calls; Shift(const Fun& g) : f(g), calls(0) {} double operator()(double x) const { ++calls; return f.value(x); } };

void explore()
{
    const bool T = vh::thorough();
    const double lv[7] = { -2, -1, -1e-3, 0, 0.5, 3, 1e4 };
    const double iv[4][2] = { { 0, 1 }, { -1000, 3 }, { 1, 1 + 1e-6 }, { 2, -2 } };
    const double tols[4] = { 1e-9, 1e-3, 0, 0.7 };
    const int mi[4] = { 200, 3, 1, 0 };
    for (int kind = 0; kind < 3; ++kind) for (int i = 0; i < 4; ++i) for (int n = 2; n <= (T ? 5 : 4); ++n) {
        std::vector<int> d(n, 0);
        do {
            if (!vh::begin(vh::fmt("falsi/k%d/i%d/%s", kind, i, vh::str(d).c_str()))) continue;
            for (int sc = 0; sc < 3; ++sc) {
                Fun f; f.a = iv[i][0]; f.b = iv[i][1]; f.kind = kind; f.scale = sc == 0 ? 1 : sc == 1 ? 1e-7 : 1e6;
                for (int k = 0; k < n; ++k) f.y.push_back(lv[d[k]]);
                for (int t = 0; t < 4; ++t) for (int m = 0; m < 4; ++m) {
                    if (sc && m > 1) continue;
                    vh::state();
                    one(f, false, 0, mi[m], tols[t], vh::fmt("scale %d tol %g maxit %d", sc, tols[t], mi[m]).c_str());
                    const double w[5] = { 0, 1, 0.5, 0.3, 0.875 };
                    for (int g = 0; g < 5; ++g) {
                        double x = w[g] == 0 ? f.a : w[g] == 1 ? f.b : f.a + w[g] * (f.b - f.a);
                        one(f, true, x, mi[m], tols[t], vh::fmt("guess %.9g scale %d tol %g maxit %d", x, sc, tols[t], mi[m]).c_str());
                    }
                }
            }
        } while (vh::next(d, 7));
    }
    // enlarging the interval until it brackets: sign patterns of a function on a lattice around the start
    for (int kind = 0; kind < 2; ++kind) for (int n = 3; n <= (T ? 8 : 7); ++n) {
        std::vector<int> d(n, 0);
        do {
            if (!vh::begin(vh::fmt("enlarge/k%d/%s", kind, vh::str(d).c_str()))) continue;
            const double l3[3] = { -1, 0, 2 };
            Fun f; f.a = -20; f.b = 20; f.kind = kind; f.scale = 1;
            for (int k = 0; k < n; ++k) f.y.push_back(l3[d[k]]);
            // constant outside [-20, 20] for stepped functions; the continuous ones go on straight
            for (int s = 0; s < 7; ++s) for (int e = 0; e < 4; ++e) {
                const double x0 = -18 + 6 * s, dx = e == 0 ? 1 : e == 1 ? -1 : e == 2 ? 0.01 : 15;
                Shift g(f); double a = 1e300, b = -1e300; bool threw = false;
                vh::tr();
                { Quiet q; try { Opm::bracketZero(g, x0, dx, a, b); } catch (const std::exception&) { threw = true; } }
                if (threw) {
                    bool any = false;
                    // every point tried has the sign of the start
                    double c = dx; for (int k = 0; k < 100; ++k, c *= -2) any = any || f.value(x0) * f.value(x0 + c) <= 0;
                    VH_CHECK(!any, "bracket", "from %g by %g: gave up", x0, dx);
                    continue;
                }
                VH_CHECK(a < b && f.value(a) * f.value(b) <= 0, "bracket", "from %g by %g: [%g, %g] has f = %g, %g", x0, dx, a, b, f.value(a), f.value(b));
                VH_CHECK(a >= x0 - std::fabs(dx) * 1.3e30 && b <= x0 + std::fabs(dx) * 1.3e30 && !(a > x0 && b > x0 && a - x0 > b - a), "bracket", "from %g by %g: [%g, %g]", x0, dx, a, b);
                VH_CHECK(g.calls <= 101, "count", "%d evaluations", g.calls);
            }
        } while (vh::next(d, 3));
    }
}
