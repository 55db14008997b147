// Rock data: every subset of permeability keywords and every active-cell pattern; rock compressibility tables.
#include "deck.hpp"
#include <opm/core/props/rock/RockFromDeck.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/utility/miscUtilities.hpp>
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid.h>
using namespace Opm;
typedef std::vector<double> V;
static const double mD = 9.869232667160130e-16, bar = 1e5;
static const char* pk[9] = { "PERMX", "PERMXY", "PERMXZ", "PERMYX", "PERMY", "PERMYZ", "PERMZX", "PERMZY", "PERMZ" };

static std::string cpdeck(int nx, int ny, int nz, int active)
{
    std::string s = vh::fmt("RUNSPEC\nDIMENS\n %d %d %d /\nMETRIC\nOIL\nWATER\nGRID\nCOORD\n", nx, ny, nz);
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) s += vh::fmt(" %d %d 0 %d %d 10\n", i, j, i, j);
    s += "/\nZCORN\n";
    for (int k = 0; k < 2 * nz; ++k) { for (int i = 0; i < 4 * nx * ny; ++i) s += vh::fmt(" %d", (k + 1) / 2); s += "\n"; }
    s += "/\nACTNUM\n";
    for (int c = 0; c < nx * ny * nz; ++c) s += vh::fmt(" %d", active >> c & 1);
    return s + " /\n";
}
static double value(int k, int c) { return k == 4 && c == 1 ? -3 : (k + 1) * 10 + c + (k % 4 ? -25 : 0); }
static void subset(const std::string& id, int set, const std::string& grid, const UnstructuredGrid* g, int ng, bool poro, bool whole)
{
    if (!vh::begin(id)) return;
    std::string s = grid;
    if (poro) { s += "PORO\n"; for (int c = 0; c < ng; ++c) s += " " + dk::num(0.1 + 0.05 * c); s += " /\n"; }
    // mirrored components given twice have the same values
    for (int k = 0; k < 9; ++k) if (set >> k & 1 && k != 2 && k != 3 && k != 7) { int m = std::min(k, k % 3 * 3 + k / 3); s += std::string(pk[k]) + "\n"; for (int c = 0; c < ng; ++c) s += " " + dk::num(value(m, c)); s += " /\n"; }
    dk::Deck d = dk::parse(s + (whole ? "PROPS\nDENSITY\n 800 1000 1 /\nPVCDO\n 100 1 0 1 0 /\nPVTW\n 100 1 0 1 0 /\nSWOF\n 0 0 1 0\n 1 1 0 0 /\n" : ""));
    // three mirrored components have no keyword of their own in the deck reader
    for (int k = 2; k < 8; ++k) if (set >> k & 1 && (k == 2 || k == 3 || k == 7)) { int m = std::min(k, k % 3 * 3 + k / 3); V v; for (int c = 0; c < ng; ++c) v.push_back(value(m, c) * mD); d->setFloatingPointField(pk[k], v); }
    bool has[9]; for (int k = 0; k < 9; ++k) has[k] = set >> k & 1;
    bool bad = false;
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) if (i != k && has[3 * i + k]) bad = bad || !has[4 * i] || !has[4 * k];
    bool threw = false;
    try {
        RockFromDeck r;
        r.init(*d, *g);
        static RockFromDeck again;      // set up for one deck after another
        again.init(*d, *g);
        VH_CHECK(again.numCells() == r.numCells() && !memcmp(again.porosity(), r.porosity(), 8 * g->number_of_cells) && !memcmp(again.permeability(), r.permeability(), 72 * g->number_of_cells), "reuse", "an object used before gives other values");
        std::unique_ptr<IncompPropertiesFromDeck> ip; std::unique_ptr<BlackoilPropertiesFromDeck> bp;
        const double *po = r.porosity(), *K = r.permeability();
        VH_CHECK(r.numCells() == g->number_of_cells && r.numDimensions() == 3, "size", "%d cells, %d dimensions", r.numCells(), r.numDimensions());
        if (whole) {
            ip.reset(new IncompPropertiesFromDeck(*d, *g)); bp.reset(new BlackoilPropertiesFromDeck(*d, *g, true));
            const int nc = g->number_of_cells;
            VH_CHECK(ip->numCells() == nc && bp->numCells() == nc && ip->numDimensions() == 3 && bp->numDimensions() == 3, "size", "of properties");
            VH_CHECK(!memcmp(ip->porosity(), po, 8 * nc) && !memcmp(bp->porosity(), po, 8 * nc) && !memcmp(ip->permeability(), K, 72 * nc) && !memcmp(bp->permeability(), K, 72 * nc), "properties", "differ from the rock");
        }
        for (int c = 0; c < g->number_of_cells; ++c) {
            int gc = g->global_cell ? g->global_cell[c] : c;
            vh::tr(10);
            VH_CHECK(vh::close_to(po[c], poro ? 0.1 + 0.05 * gc : 1.0, 1e-12), "porosity", "cell %d: %g", c, po[c]);
            for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) {
                double w = 0;
                int e = 3 * i + k, m = 3 * k + i;
                if (i != k) { if (has[e] || has[m]) w = value(std::min(e, m), gc); }
                else {
                    int src = -1;
                    if (has[e]) src = e;
                    else for (int q = 0; q < 9; q += 4) if (src < 0 && has[q]) src = q; // the first direction given
                    if (src >= 0) w = std::max(0.0, value(src, gc));
                }
                VH_CHECK(vh::close_to(K[9 * c + e], w * mD, 1e-12, 1e-40), "permeability", "cell %d component %d: %.12g mD, expected %g", c, e, K[9 * c + e] / mD, w);
                VH_CHECK(K[9 * c + e] == K[9 * c + m], "symmetry", "cell %d component %d", c, e);
            }
            vh::state();
        }
        vh::outcome(vh::hash(K, 72 * g->number_of_cells));
    } catch (const std::exception&) { threw = true; }
    VH_CHECK(threw == bad, "refusal", "threw %d", threw);
}
static double lin(const V& x, const V& y, double q)
{
    int n = x.size(), i = 0;
    while (i + 2 < n && q >= x[i + 1]) ++i;
    return y[i] + (y[i + 1] - y[i]) * (q - x[i]) / (x[i + 1] - x[i]);
}
static void volumes(const UnstructuredGrid* g, const RockCompressibility& rc, const std::function<double(double)>& mult)
{
    const int n = g->number_of_cells;
    V po(n), p(n), pv, pc, pi;
    for (int c = 0; c < n; ++c) { po[c] = 0.1 + 0.07 * c; p[c] = (40 + 130.0 * c) * bar; }
    computePorevolume(*g, &po[0], pv);
    computePorevolume(*g, &po[0], rc, p, pc);
    pi.assign(n + 2, 7e7);
    computePorosity(*g, &po[0], rc, p, pi);
    VH_CHECK((int)pi.size() == n, "porosity", "%d values for %d cells", (int)pi.size(), n);
    for (int c = 0; c < n; ++c) VH_CHECK(vh::close_to(pi[c], po[c] * mult(p[c]), 1e-12), "porosity", "cell %d: %g", c, pi[c]);
    for (int c = 0; c < n; ++c) {
        VH_CHECK(vh::close_to(pv[c], po[c] * g->cell_volumes[c], 1e-13), "pore volume", "cell %d: %g", c, pv[c]);
        VH_CHECK(vh::close_to(pc[c], po[c] * g->cell_volumes[c] * mult(p[c]), 1e-12), "compressed pore volume", "cell %d: %g", c, pc[c]);
    }
}
void explore()
{
    const bool T = vh::thorough();
    dk::quiet();
    // all keyword subsets on a small grid with an inactive cell
    {
        std::string s = cpdeck(2, 2, 1, 13);
        dk::Deck d = dk::parse(s);
        GridManager gm(*d);
        const UnstructuredGrid* g = gm.c_grid();
        for (int set = 0; set < 512; ++set) for (int poro = 0; poro < 2; ++poro) subset(vh::fmt("keywords/%d/%d", set, poro), set, s, g, 4, poro, set % 8 == 1);
    }
    // all active-cell patterns of several grids
    const int dims[][3] = { { 2, 2, 1 }, { 1, 1, 4 }, { 3, 1, 2 }, { 2, 2, 2 } };
    for (int a = 0; a < 4; ++a) {
        const int nx = dims[a][0], ny = dims[a][1], nz = dims[a][2], ng = nx * ny * nz;
        for (int act = 1; act < 1 << ng; ++act) for (int set = 0; set < (T ? 6 : 3); ++set) {
            const int sets[] = { 1 | 16 | 256, 511, 2 | 1 | 16, 16, 256 | 4 | 1, 1 };
            std::string id = vh::fmt("active/%d/%d/%d", a, act, set);
            if (!vh::ctx().only.empty() && vh::ctx().only != id) continue;
            std::string s = cpdeck(nx, ny, nz, act);
            std::unique_ptr<GridManager> gm;
            dk::Deck d = dk::parse(s);
            gm.reset(new GridManager(*d));
            int bits = 0; for (int c = 0; c < ng; ++c) bits += act >> c & 1;
            subset(id, sets[set], s, gm->c_grid(), ng, true, false);
            if (gm->c_grid()->number_of_cells != bits) vh::fail("grid", "%d cells", gm->c_grid()->number_of_cells);
        }
    }
    // Cartesian grids without a cell map
    for (int set = 0; set < 512; set += 7) {
        UnstructuredGrid* g = create_grid_cart3d(2, 1, 2);
        subset(vh::fmt("plain/%d", set), set, "RUNSPEC\nDIMENS\n 2 1 2 /\nMETRIC\nGRID\n", g, 4, true, false);
        destroy_grid(g);
    }
    // compressibility
    UnstructuredGrid* g = create_grid_hexa3d(2, 1, 2, 10, 20, 3);
    for (int c = 0; c < 5; ++c) for (int r = 0; r < 4; ++r) for (int from = 0; from < 3; ++from) {
        if (!vh::begin(vh::fmt("rock/%d/%d/%d", c, r, from))) continue;
        const double cs[] = { 0, 1e-6, 5e-5, 4e-4, 2e-3 }, rs[] = { 0, 100, 200, 317.5 };
        std::unique_ptr<RockCompressibility> q;
        double cc = cs[c] / bar, pr = rs[r] * bar;
        if (from == 0) {
            parameter::ParameterGroup par; par.disableOutput();
            par.insertParameter("rock_compressibility", dk::num(cs[c])); par.insertParameter("rock_compressibility_pref", dk::num(rs[r]));
            q.reset(new RockCompressibility(par));
        } else if (from == 1) q.reset(new RockCompressibility(*dk::parse("RUNSPEC\nDIMENS\n 1 1 1 /\nMETRIC\nPROPS\nROCK\n " + dk::num(rs[r]) + " " + dk::num(cs[c]) + " /\n")));
        else {
            parameter::ParameterGroup par; par.disableOutput();
            if (c) par.insertParameter("rock_compressibility", dk::num(cs[c]));
            q.reset(new RockCompressibility(par));
            pr = 100 * bar;
        }
        VH_CHECK(q->isActive() == (c > 0), "active", "%d", q->isActive());
        for (int i = 0; i <= 40; ++i) {
            double p = i * 12.5 * bar, x = cc * (p - pr);
            vh::tr(2);
            VH_CHECK(vh::close_to(q->poroMult(p), 1 + x + x * x / 2, 1e-12), "multiplier", "p=%g: %.12g", p / bar, q->poroMult(p));
            VH_CHECK(vh::close_to(q->rockComp(p), cc, 1e-12), "compressibility", "p=%g: %.12g", p / bar, q->rockComp(p));
            vh::state();
        }
        volumes(g, *q, [&](double p) { double x = cc * (p - pr); return 1 + x + x * x / 2; });
    }
    for (int n = 2; n <= (T ? 6 : 5); ++n) {
        std::vector<int> k(n, 0);
        do {
            if (!vh::begin(vh::fmt("rocktab/%s", vh::str(k).c_str()))) continue;
            V p, m; double a = 60, b = 0.9;
            for (int i = 0; i < n; ++i) { p.push_back(a * bar); m.push_back(b); a += k[i] == 2 ? 200 : 35; b += k[i] == 0 ? 0 : 0.03 * k[i]; }
            std::string s = "RUNSPEC\nDIMENS\n 1 1 1 /\nMETRIC\nPROPS\nROCKTAB\n";
            for (int i = 0; i < n; ++i) s += " " + dk::num(p[i] / bar) + " " + dk::num(m[i]) + " " + dk::num(1 + 0.1 * i) + "\n";
            // a table takes precedence over a single compressibility
            RockCompressibility q(*dk::parse(s + "/\n" + (k[0] ? "ROCK\n 123 1e-4 /\n" : "")));
            VH_CHECK(q.isActive(), "active", "table not active");
            V at(p);
            for (int i = 0; i < n; ++i) { at.push_back(p[i] + 0.3 * (i + 1 < n ? p[i + 1] - p[i] : 50 * bar)); }
            at.push_back(20 * bar); at.push_back(p[n - 1] + 100 * bar);
            for (size_t i = 0; i < at.size(); ++i) {
                double w = lin(p, m, at[i]), h = 1e-4 * bar;
                vh::tr(2);
                VH_CHECK(vh::close_to(q.poroMult(at[i]), w, 1e-12), "multiplier", "p=%g: %.12g, expected %.12g", at[i] / bar, q.poroMult(at[i]), w);
                double l = (w - lin(p, m, at[i] - h)) / h / w, u = (lin(p, m, at[i] + h) - w) / h / w, v = q.rockComp(at[i]);
                VH_CHECK(vh::close_to(v, l, 1e-5, 1e-6 * 1e-4 / bar) || vh::close_to(v, u, 1e-5, 1e-6 * 1e-4 / bar), "compressibility", "p=%g: %.12g, slopes %.12g %.12g", at[i] / bar, v, l, u);
                vh::state();
            }
            volumes(g, q, [&](double x) { return lin(p, m, x); });
        } while (vh::next(k, 3));
    }
    if (vh::begin("rocktab/one row")) {
        bool threw = false;
        try { RockCompressibility q(*dk::parse("RUNSPEC\nDIMENS\n 1 1 1 /\nMETRIC\nPROPS\nROCKTAB\n 100 1 1 /\n")); q.poroMult(2e7); q.rockComp(2e7); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "refusal", "a table of one row was accepted");
    }
    if (vh::begin("none")) {
        RockCompressibility q(*dk::parse("RUNSPEC\nDIMENS\n 1 1 1 /\nMETRIC\nPROPS\n"));
        VH_CHECK(!q.isActive() && q.poroMult(3e7) == 1 && q.rockComp(3e7) == 0, "none", "active without data");
    }
    destroy_grid(g);
}
