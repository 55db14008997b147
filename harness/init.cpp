// Initial states: every small grid, contact, datum, gravity and option, for incompressible and compressible fluids, from
// parameters and from decks; pressure against closed-form hydrostatic columns.
#include "flow.hpp"
#include "deck.hpp"
#include <map>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/simulator/initState.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace Opm;
typedef std::vector<double> V;
typedef long double LD;
static const double BAR = 1e5;

struct Grid {
    UnstructuredGrid* g;
    int k;
    // k 0-7: grids of flow.hpp, 11-13: its larger ones; 8: single cell; 9: one layer of 3x2x1; depths are stretched and shifted
    Grid(int k_, double scale, double shift) : k(k_) {
        if (k < 8) g = fl::grid(k);
        else if (k > 10) g = fl::grid(fl::LARGE + k - 11);
        else if (k == 8) g = create_grid_hexa3d(1, 1, 1, 1, 1, 1);
        else g = create_grid_hexa3d(3, 2, 1, 1, 1, 0.7);
        if (k == 10) {      // the active cells of a 4 x 2 x 2 box
            static const int act[] = { 1, 2, 5, 8, 12, 15 };
            g->global_cell = (int*)std::malloc(6 * sizeof(int));
            std::copy(act, act + 6, g->global_cell);
            g->cartdims[0] = 4; g->cartdims[1] = 2; g->cartdims[2] = 2;
        }
        const int d = g->dimensions;
        for (int c = 0; c < g->number_of_cells; ++c) g->cell_centroids[d * c + d - 1] = shift + scale * g->cell_centroids[d * c + d - 1];
        for (int f = 0; f < g->number_of_faces; ++f) g->face_centroids[d * f + d - 1] = shift + scale * g->face_centroids[d * f + d - 1];
    }
    ~Grid() { destroy_grid(g); }
    double z(int c) const { return g->cell_centroids[g->dimensions * (c + 1) - 1]; }
    V depths() const { V v; for (int c = 0; c < g->number_of_cells; ++c) v.push_back(z(c)); std::sort(v.begin(), v.end()); V u; for (size_t i = 0; i < v.size(); ++i) if (u.empty() || v[i] - u.back() > 1e-9 * std::fabs(v[i])) u.push_back(v[i]); return u; }
};
static double smin(int c) { return 0.05 * (c % 3); }
static double smax(int c) { return 1 - 0.1 * (c % 2); }
static void satrange(int np, int n, const int* cells, double* a, double* b)
{
    for (int i = 0; i < n; ++i) for (int p = 0; p < np; ++p) { a[i * np + p] = p ? 1 - smax(cells[i]) : smin(cells[i]); b[i * np + p] = p ? 1 - smin(cells[i]) : smax(cells[i]); }
}
struct IP : public fl::Incomp {
    IP(const UnstructuredGrid* g, int np, int dens) : fl::Incomp(g, np) { rho.resize(3); mu.resize(3, 1.0); rho[0] = dens ? 700 : 1000; rho[1] = dens ? 1100 : 800; rho[2] = 1; }
    void satRange(const int n, const int* c, double* a, double* b) const { satrange(np, n, c, a, b); }
};
struct BP : public fl::Black {
    // fluid 0: constant, 1: compressible, 2: strongly compressible with the lighter phase first
    BP(const UnstructuredGrid* g, int np, int fluid) : fl::Black(g, np, 0) {
        static const double C[3][3] = { { 0, 0, 0 }, { 5e-10, 1e-8, 5e-9 }, { 3e-8, 1e-10, 1e-8 } };
        for (int q = 0; q < 3; ++q) c[q] = C[fluid][q];
        rs[0] = fluid == 2 ? 700 : 1000; rs[1] = 800; rs[2] = 10;
        b0[0] = 1; b0[1] = 0.9; b0[2] = 20;
    }
    void satRange(const int n, const int* cc, double* a, double* b) const { satrange(np, n, cc, a, b); }
    // pressure after moving by dz in phase q
    LD move(LD p, int q, LD dz, LD grav) const {
        const LD r = (LD)rs[q] * b0[q] * grav;
        if (c[q] == 0) return p + r * dz;
        const LD k = (1 - (LD)c[q]) / c[q];
        return (p + k) * std::exp(r * c[q] * dz) - k;
    }
};
static LD move(const IP& f, LD p, int q, LD dz, LD grav) { return p + (LD)f.rho[q] * grav * dz; }
static LD move(const BP& f, LD p, int q, LD dz, LD grav) { return f.move(p, q, dz, grav); }
// below: phase below the contact
template <class F> static LD hydro(const F& f, LD zd, LD pd, LD woc, LD z, LD grav, int below)
{
    const int qd = zd > woc ? below : 1 - below, qz = z > woc ? below : 1 - below;
    if (qd == qz) return move(f, pd, qd, z - zd, grav);
    return move(f, move(f, pd, qd, woc - zd, grav), qz, z - woc, grav);
}
// first-order integration in 100 steps; constant densities only suffer from interpolation next to the contact
static double tolp(const IP&, LD) { return 1e-10; }
static double tolp(const BP& f, LD near) { return f.c[0] == 0 && f.c[1] == 0 && near > 0.031 ? 1e-9 : 4e-3; }
template <class F, class St> static bool pressure(const Grid& G, const F& f, St& st, LD zd, LD pd, LD woc, LD grav, int below, const std::string& what)
{
    LD span = 0, lo = zd, hi = zd;
    for (int c = 0; c < G.g->number_of_cells; ++c) { span = std::max(span, std::fabs((LD)G.z(c) - zd)); lo = std::min(lo, (LD)G.z(c)); hi = std::max(hi, (LD)G.z(c)); }
    const LD unit = grav * span * 1100;
    for (int c = 0; c < G.g->number_of_cells; ++c) {
        LD e = hydro(f, zd, pd, woc, G.z(c), grav, below), got = st.pressure()[c];
        if (!(std::fabs(got - e) <= tolp(f, std::fabs(G.z(c) - woc) / (hi - lo)) * unit + 1e-12 * std::fabs(pd))) { vh::fail("pressure", "%s: cell %d at depth %.9g has %.12Lg, expected %.12Lg (datum %.9Lg: %.9Lg, contact %.9Lg)", what.c_str(), c, G.z(c), got, e, zd, pd, woc); return false; }
    }
    return true;
}
template <class St> static bool saturation(const Grid& G, St& st, const V& want, const std::string& what)
{
    const int np = want.size() / G.g->number_of_cells;
    if (st.numPhases() != np || st.saturation().size() != want.size()) { vh::fail("size", "%s: %d phases", what.c_str(), st.numPhases()); return false; }
    for (size_t i = 0; i < want.size(); ++i) if (!(std::fabs(st.saturation()[i] - want[i]) < 1e-14)) { vh::fail("saturation", "%s: cell %d phase %d has %.12g, expected %.12g", what.c_str(), (int)i / np, (int)i % np, st.saturation()[i], want[i]); return false; }
    return true;
}
template <class St> static void faces(const Grid& G, St& st, const std::string& what)
{
    const UnstructuredGrid* g = G.g; const int d = g->dimensions;
    if ((int)st.pressure().size() != g->number_of_cells || (int)st.facepressure().size() != g->number_of_faces || (int)st.faceflux().size() != g->number_of_faces) { vh::fail("size", "%s", what.c_str()); return; }
    for (int f = 0; f < g->number_of_faces; ++f) {
        LD num = 0, den = 0; int n = 0;
        for (int j = 0; j < 2; ++j) {
            int c = g->face_cells[2 * f + j]; if (c < 0) continue;
            LD r = 0; for (int i = 0; i < d; ++i) { LD x = (LD)g->face_centroids[d * f + i] - g->cell_centroids[d * c + i]; r += x * x; }
            r = std::sqrt(r); num += st.pressure()[c] / r; den += 1 / r; ++n;
        }
        LD e = num / den;
        if (n && !(std::fabs(st.facepressure()[f] - e) <= 1e-12 * std::fabs(e))) { vh::fail("facepressure", "%s: face %d has %.12g, expected %.12Lg", what.c_str(), f, st.facepressure()[f], e); return; }
        VH_CHECK(st.faceflux()[f] == 0, "flux", "%s: face %d", what.c_str(), f);
    }
}
static int column(const UnstructuredGrid* g, int c) { return (g->global_cell ? g->global_cell[c] : c) % g->cartdims[0]; }
static V wocs(const Grid& G)
{
    V z = G.depths(), w;
    w.push_back(z[0] - 37.5);
    for (size_t i = 0; i < z.size(); ++i) { w.push_back(z[i]); w.push_back(i + 1 < z.size() ? 0.6 * z[i] + 0.4 * z[i + 1] : z[i] + 12.5); }
    return w;
}
// options: 0 none, 1 convection, 2 segregation, 3 both; sat: -1 none
template <class F, class St> static void basic(const Grid& G, const F& f, int opt, const double* woc, double sat, double ref, double grav, bool incomp, const std::string& what)
{
    fl::Quiet q;
    parameter::ParameterGroup par; par.disableOutput();
    if (opt & 1) par.insertParameter("convection_testcase", "true");
    if (opt & 2) par.insertParameter("segregation_testcase", "true");
    if (woc) par.insertParameter("water_oil_contact", dk::num(*woc));
    if (sat >= 0) par.insertParameter("init_saturation", dk::num(sat));
    if (ref >= 0) par.insertParameter("ref_pressure", dk::num(ref));
    const double p0 = (ref >= 0 ? ref : 100) * BAR;
    St st;
    initStateBasic(*G.g, f, par, grav, st);
    vh::tr();
    const int nc = G.g->number_of_cells; V want;
    if (opt & 1) {
        for (int c = 0; c < nc; ++c) { double s = column(G.g, c) < G.g->cartdims[0] / 2 ? smax(c) : smin(c); want.push_back(s); want.push_back(1 - s); }
        if (!saturation(G, st, want, what)) return;
        for (int c = 0; c < nc; ++c) if (!(st.pressure()[c] == p0)) { vh::fail("pressure", "%s: cell %d has %.12g, expected %.12g", what.c_str(), c, st.pressure()[c], p0); return; }
    } else if (incomp && (opt & 2)) {
        for (int c = 0; c < nc; ++c) { double s = G.z(c) > *woc ? smin(c) : smax(c); want.push_back(s); want.push_back(1 - s); }
        if (!saturation(G, st, want, what) || !pressure(G, f, st, *woc, p0, *woc, grav, 1, what)) return;
    } else if (woc) {
        for (int c = 0; c < nc; ++c) { double s = G.z(c) > *woc ? smax(c) : smin(c); want.push_back(s); want.push_back(1 - s); }
        if (!saturation(G, st, want, what) || !pressure(G, f, st, *woc, p0, *woc, grav, 0, what)) return;
    } else if (incomp && sat >= 0) {
        for (int c = 0; c < nc; ++c) { want.push_back(sat); want.push_back(1 - sat); }
        if (!saturation(G, st, want, what)) return;
        const LD r0 = move(f, 0, 0, 1, 1), r1 = move(f, 0, 1, 1, 1);
        for (int c = 0; c < nc; ++c) { LD e = p0 + (r0 * sat + r1 * (1 - (LD)sat)) * grav * (G.z(c) - G.z(0)); if (!(std::fabs(st.pressure()[c] - e) <= 1e-12 * std::fabs(e))) { vh::fail("pressure", "%s: cell %d has %.12g, expected %.12Lg", what.c_str(), c, st.pressure()[c], e); return; } }
    } else {
        for (int c = 0; c < nc; ++c) { want.push_back(smin(c)); want.push_back(1 - smin(c)); }
        if (!saturation(G, st, want, what) || !pressure(G, f, st, G.z(0), p0, 1e100, grav, 0, what)) return;
    }
    faces(G, st, what);
    vh::outcome(vh::hash(&st.pressure()[0], 8 * nc) ^ vh::hash(&st.saturation()[0], 16 * nc));
}
template <class F, class St> static void equil(const Grid& G, const F& f, double zd, double pd, double woc, double grav, const std::string& what)
{
    fl::Quiet q;
    dk::Deck deck = dk::parse("METRIC\nOIL\nWATER\nEQUIL\n " + dk::num(zd) + " " + dk::num(pd) + " " + dk::num(woc) + " 0 0 0 /\n");
    St st;
    initStateFromDeck(*G.g, f, *deck, grav, st);
    vh::tr();
    V want; for (int c = 0; c < G.g->number_of_cells; ++c) { double s = G.z(c) > woc ? smax(c) : smin(c); want.push_back(s); want.push_back(1 - s); }
    if (!saturation(G, st, want, what) || !pressure(G, f, st, zd, pd * BAR, woc, grav, 0, what)) return;
    faces(G, st, what);
    vh::outcome(vh::hash(&st.pressure()[0], 8 * G.g->number_of_cells));
}
static void surfvol(const Grid& G, const BP& f, BlackoilState& st, const std::string& what)
{
    const int np = f.np, nc = G.g->number_of_cells;
    if ((int)st.surfacevol().size() != np * nc) { vh::fail("surfacevol", "%s: size %d", what.c_str(), (int)st.surfacevol().size()); return; }
    for (int c = 0; c < nc; ++c) {
        LD b[3], z[3]; for (int q = 0; q < np; ++q) b[q] = (LD)f.b0[q] * (1 + (LD)f.c[q] * (st.pressure()[c] - 1));
        for (int q = 0; q < np; ++q) z[q] = b[q] * st.saturation()[np * c + q];
        if (np == 3) z[2] += ((LD)f.r0 + (LD)f.r1 * st.pressure()[c]) * z[1];
        for (int q = 0; q < np; ++q) if (!(std::fabs(st.surfacevol()[np * c + q] - z[q]) <= 1e-13 * (std::fabs(z[q]) + 1e-3))) { vh::fail("surfacevol", "%s: cell %d phase %d has %.12g, expected %.12Lg", what.c_str(), c, q, st.surfacevol()[np * c + q], z[q]); return; }
    }
}
// present: bits of the phases in the deck; fields: bits pressure, water, gas saturation given
template <class F, class St> static void arrays(const Grid& G, const F& f, int present, int fields, int pat, bool vol, const std::string& what)
{
    fl::Quiet q;
    const UnstructuredGrid* g = G.g;
    const int nc = g->number_of_cells, n = g->cartdims[0] * g->cartdims[1] * (g->dimensions == 3 ? g->cartdims[2] : 1);
    int np = 0; for (int b = 0; b < 3; ++b) np += present >> b & 1;
    V p, sw, sg;
    for (int i = 0; i < n; ++i) { p.push_back(100 + 7.25 * ((i * 5 + pat) % 11)); sw.push_back(0.0625 * ((i * 3 + pat) % 9)); sg.push_back(0.03125 * ((i * 7 + 2 * pat) % 13)); }
    std::string t = "METRIC\n";
    if (present & 1) t += "WATER\n";
    if (present & 2) t += "OIL\n";
    if (present & 4) t += "GAS\n";
    if (fields & 1) t += "PRESSURE\n" + dk::list(p) + "/\n";
    if (fields & 2) t += "SWAT\n" + dk::list(sw) + "/\n";
    if (fields & 4) t += "SGAS\n" + dk::list(sg) + "/\n";
    dk::Deck deck = dk::parse(t);
    if (present == 5) return;                    // water and gas alone: not supported by the decks
    const bool ok = (fields & 1) && f.numPhases() == np && np >= 2 && (np == 3 ? (fields & 6) == 6 : present & 1 ? fields & 2 : fields & 4);
    St st; bool threw = false;
    try { initStateFromDeck(*g, f, *deck, 9.8, st); } catch (const std::exception&) { threw = true; }
    vh::tr();
    if (threw == ok) { vh::fail("refused", "%s: %s", what.c_str(), threw ? "refused" : "accepted"); return; }
    if (!ok) return;
    V want;
    for (int c = 0; c < nc; ++c) {
        const int i = g->global_cell ? g->global_cell[c] : c;
        const double w = present & 1 ? sw[i] : 0, s = np == 3 || !(present & 1) ? sg[i] : 0;
        if (present & 1) want.push_back(w);
        if (present & 2) want.push_back(1 - w - s);
        if (present & 4) want.push_back(np == 3 || !(present & 1) ? s : 1 - w);
        if (!(std::fabs(st.pressure()[c] - p[i] * BAR) <= 1e-9 * p[i] * BAR)) { vh::fail("pressure", "%s: cell %d has %.12g, expected %.12g", what.c_str(), c, st.pressure()[c], p[i] * BAR); return; }
    }
    if (!saturation(G, st, want, what)) return;
    faces(G, st, what);
    (void)vol;
    vh::outcome(vh::hash(&st.saturation()[0], 8 * st.saturation().size()));
}
static void volumes(const Grid& G, int np, int fluid, int live, int pat, const std::string& what)
{
    fl::Quiet q;
    BP f(G.g, np, fluid);
    if (live) { f.r0 = 5; f.r1 = 1e-6; }
    BlackoilState st; st.init(*G.g, np);
    for (int c = 0; c < G.g->number_of_cells; ++c) {
        double left = 1; for (int k = 0; k < np; ++k) { double s = k + 1 == np ? left : left * ((c + pat + k) % 5) / 4.0; st.saturation()[np * c + k] = s; left -= s; }
        st.pressure()[c] = 1e7 + 3e5 * ((c * 3 + pat) % 7);
    }
    initBlackoilSurfvol(*G.g, f, st);
    vh::tr();
    surfvol(G, f, st, what);
    // the whole thing from a deck
    if (np == 2) {
        dk::Deck deck = dk::parse("METRIC\nOIL\nWATER\nEQUIL\n 2000 150 2001.5 0 0 0 /\n");
        BlackoilState d; initBlackoilStateFromDeck(*G.g, f, *deck, 9.8, d);
        surfvol(G, f, d, what + " deck");
        pressure(G, f, d, 2000, 150 * BAR, 2001.5, 9.8, 0, what + " deck");
        vh::tr();
    }
}
template <class St> static void bare(const Grid& G, int np, const std::string& what)
{
    St st; st.init(*G.g, np);
    V want; for (int c = 0; c < G.g->number_of_cells; ++c) for (int q = 0; q < np; ++q) want.push_back(q == (np > 1 ? 1 : 0));
    saturation(G, st, want, what);
    faces(G, st, what);
    for (size_t c = 0; c < st.pressure().size(); ++c) VH_CHECK(st.pressure()[c] == 0, "pressure", "%s", what.c_str());
    vh::tr();
}
// d: per well: 0 shut, 1 pressure current, 2 rate current with a pressure control, 3 pressure current with a rate control first
static void wells(const Grid& G, const std::vector<int>& d, int perfs, const std::string& what)
{
    const int nc = G.g->number_of_cells, nw = d.size();
    TwophaseState st; st.init(*G.g, 2);
    for (int c = 0; c < nc; ++c) st.pressure()[c] = 100 + 3.5 * c;
    Wells* W = create_wells(2, nw, 3 * nw);
    V bhp; int np = 0; const double comp[2] = { 1, 0 };
    for (int w = 0; w < nw; ++w) {
        int n = 1 + (w + perfs) % 2; n = std::min(n, nc);
        std::vector<int> cells; V wi; for (int i = 0; i < n; ++i) { cells.push_back((w * 2 + i + perfs) % nc); wi.push_back(1); }
        if (!add_well(w % 2 ? INJECTOR : PRODUCER, 0, n, comp, &cells[0], &wi[0], "w", W)) { vh::fail("setup", "add_well"); destroy_wells(W); return; }
        const double distr[2] = { 1, 1 };
        if (d[w] >= 2) append_well_controls(SURFACE_RATE, 5 + w, distr, w, W);
        append_well_controls(BHP, 1000 + w, 0, w, W);
        set_current_control(w, d[w] == 0 ? -1 : d[w] == 1 ? 0 : d[w] == 2 ? 0 : 1, W);
        bhp.push_back(d[w] & 1 ? 1000 + w : 100 + 3.5 * cells[0]);
        np += n;
    }
    WellState ws; ws.init(W, st);
    VH_CHECK(ws.bhp() == bhp, "bhp", "%s: %s, expected %s", what.c_str(), vh::str(ws.bhp()).c_str(), vh::str(bhp).c_str());
    VH_CHECK(ws.perfRates() == V(np, 0.0), "perfrates", "%s: %s", what.c_str(), vh::str(ws.perfRates()).c_str());
    VH_CHECK((int)ws.perfPress().size() == np, "perfpress", "%s: %d", what.c_str(), (int)ws.perfPress().size());
    destroy_wells(W);
    vh::tr();
}
void explore()
{
    dk::quiet();
    static const double scales[] = { 1, 40, 10 };
    static const double refs[] = { -1, 50, 250.5 };
    static const double gravs[] = { 0, 9.80665 };
    for (int k = 0; k < 14; ++k) for (int sc = 0; sc < (k > 10 ? 1 : 3); ++sc) {
        Grid G(k, scales[sc], sc == 2 ? -150 : 2000);
        V w = wocs(G);
        for (int r = 0; r < 3; ++r) for (int gi = 0; gi < 2; ++gi) for (int m = 0; m < 5; ++m) {
            // m 0,1: incompressible; 2,3,4: compressible
            IP ip(G.g, 2, m == 1); BP bp(G.g, 2, m < 2 ? 0 : m - 2);
            for (int opt = 0; opt < 4; ++opt) for (int wi = -1; wi < (int)w.size(); ++wi) for (int s = -1; s < (m < 2 ? 3 : 0); ++s) {
                if (wi < 0 && (opt & 2) && !(opt & 1) && m < 2) continue;
                if (!vh::begin(vh::fmt("basic/%d,%d,%d,%d,%d,%d,%d,%d", k, sc, r, gi, m, opt, wi, s))) continue;
                static const double sats[] = { 0, 0.3, 1 };
                const double sat = s < 0 ? -1 : sats[s];
                if (m < 2) basic<IP, TwophaseState>(G, ip, opt, wi < 0 ? 0 : &w[wi], sat, refs[r], gravs[gi], true, vh::ctx().cur);
                else basic<BP, BlackoilState>(G, bp, opt, wi < 0 ? 0 : &w[wi], sat, refs[r], gravs[gi], false, vh::ctx().cur);
            }
        }
        // datum and contact anywhere
        V dz = w; V zz = G.depths(); dz.push_back(zz.front() - 150); dz.push_back(zz.back() + 150);
        for (size_t a = 0; a < dz.size(); ++a) for (size_t b = 0; b < dz.size(); ++b) for (int gi = 0; gi < 2; ++gi) for (int m = 0; m < 5; ++m) {
            if (!vh::begin(vh::fmt("equil/%d,%d,%d,%d,%d,%d", k, sc, (int)a, (int)b, gi, m))) continue;
            if (m < 2) { IP ip(G.g, 2, m); equil<IP, TwophaseState>(G, ip, dz[a], 210.25, dz[b], gravs[gi], vh::ctx().cur); }
            else { BP bp(G.g, 2, m - 2); equil<BP, BlackoilState>(G, bp, dz[a], 210.25, dz[b], gravs[gi], vh::ctx().cur); }
            if (k == 3 && a == 1 && b == 2) vh::sample(vh::ctx().cur);
        }
        if (sc) continue;
        for (int present = 1; present < 8; ++present) for (int fields = 0; fields < 8; ++fields) for (int np = 1; np <= 3; ++np) for (int pat = 0; pat < (vh::thorough() ? 11 : 3); ++pat) {
            if (vh::begin(vh::fmt("arrays/%d,%d,%d,%d,%d,0", k, present, fields, np, pat))) { IP f(G.g, np, 0); arrays<IP, TwophaseState>(G, f, present, fields, pat, false, vh::ctx().cur); }
            if (vh::begin(vh::fmt("arrays/%d,%d,%d,%d,%d,1", k, present, fields, np, pat))) { BP f(G.g, np, 1); arrays<BP, BlackoilState>(G, f, present, fields, pat, true, vh::ctx().cur); }
        }
        for (int np = 2; np <= 3; ++np) for (int fl = 0; fl < 3; ++fl) for (int live = 0; live < np - 1; ++live) for (int pat = 0; pat < 5; ++pat)
            if (vh::begin(vh::fmt("volumes/%d,%d,%d,%d,%d", k, np, fl, live, pat))) volumes(G, np, fl, live, pat, vh::ctx().cur);
        for (int np = 1; np <= 3; ++np) if (vh::begin(vh::fmt("bare/%d,%d", k, np))) { bare<TwophaseState>(G, np, vh::ctx().cur); bare<BlackoilState>(G, np, vh::ctx().cur + "b"); }
        for (int nw = 0; nw <= 4; ++nw) for (int perfs = 0; perfs < 2; ++perfs) {
            std::vector<int> d(nw, 0);
            do if (vh::begin(vh::fmt("wells/%d,%d/", k, perfs) + vh::str(d))) wells(G, d, perfs, vh::ctx().cur); while (nw && vh::next(d, 4));
        }
    }
    if (vh::begin("wells/none")) { Grid G(0, 1, 0); TwophaseState st; st.init(*G.g, 2); WellState ws; ws.init(0, st); VH_CHECK(ws.bhp().empty() && ws.perfRates().empty(), "bhp", "none"); }
    // refused: phases not two, several regions, gas
    static const char* bad[] = { "OIL\nWATER\n", "OIL\nGAS\nEQUIL\n 2000 150 2001 0 0 0 /\n", "WATER\nGAS\nEQUIL\n 2000 150 2001 0 0 0 /\n", "OIL\nWATER\nGAS\nEQUIL\n 2000 150 2001 0 0 0 /\n" };
    for (int i = 0; i < 4; ++i) for (int np = 2; np <= 3; ++np) if (vh::begin(vh::fmt("bad/%d,%d", i, np))) {
        Grid G(3, 1, 2000); IP f(G.g, np, 0); TwophaseState st; bool threw = false;
        dk::Deck deck = dk::parse(bad[i]);
        try { initStateFromDeck(*G.g, f, *deck, 9.8, st); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "refused", "accepted");
        parameter::ParameterGroup par; par.disableOutput(); TwophaseState s2; threw = false;
        try { fl::Quiet q; initStateBasic(*G.g, f, par, 9.8, s2); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw == (np != 2), "refused", "basic %d phases", np);
        vh::tr();
    }
}
