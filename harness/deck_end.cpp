// Decks whose arrays stop short: every array keyword, every length, every consumer.
#include "deck.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/io/eclipse/EclipseGridInspector.hpp>
#include <opm/core/io/eclipse/CornerpointChopper.hpp>
#include <opm/core/props/rock/RockFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/satfunc/SaturationPropsFromDeck.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/initState.hpp>
#include <fstream>
using namespace Opm;
typedef std::vector<double> V;

struct Array { std::string name; V v; };
struct Text {
    std::string head;
    std::vector<Array> a;
    std::string tail;
    Array& operator[](const std::string& n) { for (size_t i = 0; i < a.size(); ++i) if (a[i].name == n) return a[i]; a.push_back(Array()); a.back().name = n; return a.back(); }
    std::string str() const { std::string s = head; for (size_t i = 0; i < a.size(); ++i) s += a[i].name + "\n " + dk::list(a[i].v) + "/\n"; return s + tail; }
    // the values are the first n of the given ones (repeated beyond the end)
    void cut(size_t k, size_t n) { V w; for (size_t i = 0; i < n; ++i) w.push_back(a[k].v[i % a[k].v.size()]); a[k].v = w; }
};
static std::string what;
static bool throws(const std::function<void()>& f) { try { f(); } catch (const std::exception& e) { what = e.what(); return true; } what = ""; return false; }
static void grid(Text& t, const int* n, int act, bool mapaxes)
{
    V& c = t["COORD"].v;
    for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) { double q[6] = { 2.0 * i, 3.0 * j, 0, 2.0 * i, 3.0 * j, 10 }; c.insert(c.end(), q, q + 6); }
    V& z = t["ZCORN"].v;
    for (int k = 0; k < 2 * n[2]; ++k) for (int i = 0; i < 4 * n[0] * n[1]; ++i) z.push_back((k + 1) / 2 + 1);
    if (act >= 0) for (int i = 0; i < n[0] * n[1] * n[2]; ++i) t["ACTNUM"].v.push_back(act >> i & 1);
    if (mapaxes) { double q[6] = { 0, 1, 0, 0, 1, 0 }; t["MAPAXES"].v.assign(q, q + 6); }
}

static void grids()
{
    static const int sz[][3] = { { 1, 1, 1 }, { 2, 1, 2 }, { 1, 3, 1 }, { 2, 2, 1 } };
    for (int s = 0; s < 4; ++s) for (int dim = 0; dim < 2; ++dim) for (int opt = 0; opt < 4; ++opt) {
        Text full;
        const int* n = sz[s];
        if (dim) { double q[3] = { double(n[0]), double(n[1]), double(n[2]) }; full["DIMENS"].v.assign(q, q + 3); }
        else full.head = vh::fmt("SPECGRID\n %d %d %d 1 F /\n", n[0], n[1], n[2]);
        const int nc = n[0] * n[1] * n[2];
        const int act = opt & 1 ? (1 << nc) - 1 - (nc > 1 ? 2 : 0) : -1;
        grid(full, n, act, opt & 2);
        for (size_t k = 0; k < full.a.size(); ++k) for (size_t len = 0; len <= full.a[k].v.size() + 2; ++len) {
            if (!vh::begin(vh::fmt("grid/%d/%d/%d/%s/%d", s, dim, opt, full.a[k].name.c_str(), (int)len))) continue;
            Text t(full);
            t.cut(k, len);
            const std::string& name = full.a[k].name;
            const bool ok = len == full.a[k].v.size(), more = len > full.a[k].v.size(), loose = more && (name == "DIMENS" || name == "MAPAXES");
            dk::Deck d;
            const bool unread = throws([&] { d = dk::parse(t.str()); });
            vh::tr(4);
            if (unread) { VH_CHECK(!ok, "refused", "a complete deck is not read"); continue; }
            // the grid
            bool r = throws([&] {
                GridManager g(*d);
                const struct grdecl gd = d->get_grdecl();
                VH_CHECK(gd.dims[0] == n[0] && gd.dims[1] == n[1] && gd.dims[2] == n[2] && (gd.actnum != 0) == (act >= 0) && (gd.mapaxes != 0) == ((opt & 2) != 0), "arrays", "%d %d %d", gd.dims[0], gd.dims[1], gd.dims[2]);
                const char* an[] = { "COORD", "ZCORN", "MAPAXES" }; const double* av[] = { gd.coord, gd.zcorn, gd.mapaxes };
                for (int q = 0; q < 3; ++q) if (av[q]) { const V& v = t[an[q]].v; for (size_t i = 0; i < v.size(); ++i) VH_CHECK(av[q][i] == v[i], "arrays", "%s value %d is %g", an[q], (int)i, av[q][i]); }
                if (gd.actnum) for (int c = 0; c < nc; ++c) VH_CHECK(gd.actnum[c] == (act >> c & 1), "arrays", "ACTNUM of cell %d", c);
                VH_CHECK(g.c_grid()->number_of_cells == nc - (act >= 0 && nc > 1), "cells", "%d cells of %d", g.c_grid()->number_of_cells, nc);
                for (int c = 0; c < g.c_grid()->number_of_cells; ++c) VH_CHECK(vh::close_to(g.c_grid()->cell_volumes[c], 6, 1e-12), "volume", "cell %d: %g", c, g.c_grid()->cell_volumes[c]);
            });
            VH_CHECK(ok ? !r : loose || r, "grid", "%s with %d values, %d needed: %s", name.c_str(), (int)len, (int)full.a[k].v.size(), r ? "refused" : "accepted");
            // the inspector
            r = throws([&] {
                EclipseGridInspector in(*d);
                std::tr1::array<double, 6> l = in.getGridLimits();
                VH_CHECK(l[0] == 0 && l[1] == 2 * n[0] && l[2] == 0 && l[3] == 3 * n[1] && l[4] == 1 && l[5] == n[2] + 1, "limits", "%g..%g %g..%g %g..%g", l[0], l[1], l[2], l[3], l[4], l[5]);
                for (int c = 0; c < nc; ++c) {
                    int i = c % n[0], j = c / n[0] % n[1], q = c / n[0] / n[1];
                    VH_CHECK(vh::close_to(in.cellVolumeVerticalPillars(i, j, q), 6, 1e-12), "inspected volume", "cell %d", c);
                    std::pair<double, double> p = in.cellDips(i, j, q);
                    VH_CHECK(n[2] == 1 || (p.first == 0 && p.second == 0), "inspected dips", "cell %d: %g %g", c, p.first, p.second);
                }
            });
            const bool shape = name == "COORD" || name == "ZCORN" || name == "DIMENS";
            VH_CHECK(ok || !shape ? !r : loose || r, "inspector", "%s with %d values: %s", name.c_str(), (int)len, r ? "refused" : "accepted");
            // the chopper
            if (dim == 0) {
                const std::string f = vh::scratch() + "/end.grdecl";
                { std::ofstream o(f.c_str()); o << t.str(); }
                r = throws([&] {
                    CornerPointChopper ch(f);
                    ch.chop(0, n[0], 0, n[1], 1, n[2] + 1);
                    VH_CHECK(ch.newDimensions()[2] == n[2], "chopped", "%d layers", ch.newDimensions()[2]);
                    EclipseGridParser sub = ch.subparser();
                    GridManager g(sub);
                    VH_CHECK(g.c_grid()->number_of_cells == nc - (act >= 0 && nc > 1), "chopped cells", "%d cells of %d", g.c_grid()->number_of_cells, nc);
                });
                VH_CHECK(ok || name == "MAPAXES" ? !r : (more && name == "ACTNUM") || r, "chopper", "%s with %d values: %s", name.c_str(), (int)len, r ? "refused" : "accepted");
            }
            vh::outcome(vh::hash(&r, 1));
        }
    }
    // regular grids
    for (int s = 0; s < 4; ++s) for (int dim = 0; dim < 2; ++dim) for (int top = 0; top < 3; ++top) {
        const int* n = sz[s];
        Text full;
        if (dim) { double q[3] = { double(n[0]), double(n[1]), double(n[2]) }; full["DIMENS"].v.assign(q, q + 3); }
        else full.head = vh::fmt("SPECGRID\n %d %d %d 1 F /\n", n[0], n[1], n[2]);
        full["DXV"].v.assign(n[0], 2); full["DYV"].v.assign(n[1], 3); full["DZV"].v.assign(n[2], 1);
        if (top == 1) full["TOPS"].v.assign(n[0] * n[1], 5);
        if (top == 2) full["DEPTHZ"].v.assign((n[0] + 1) * (n[1] + 1), 5);
        for (size_t k = 0; k < full.a.size(); ++k) for (size_t len = 0; len <= full.a[k].v.size() + 2; ++len) {
            if (!vh::begin(vh::fmt("regular/%d/%d/%d/%s/%d", s, dim, top, full.a[k].name.c_str(), (int)len))) continue;
            Text t(full);
            t.cut(k, len);
            const std::string& name = full.a[k].name;
            const bool ok = len == full.a[k].v.size(), loose = (name == "TOPS" && len > 0) || (name == "DIMENS" && len > 3);
            bool r = throws([&] {
                dk::Deck d = dk::parse(t.str());
                GridManager g(*d);
                VH_CHECK(g.c_grid()->number_of_cells == n[0] * n[1] * n[2], "cells", "%d cells", g.c_grid()->number_of_cells);
                double lo = 1e30; for (int i = 0; i < g.c_grid()->number_of_nodes; ++i) lo = std::min(lo, g.c_grid()->node_coordinates[3 * i + 2]);
                VH_CHECK(lo == (top ? 5 : 0), "top", "%g", lo);
            });
            vh::tr();
            VH_CHECK(ok ? !r : loose || r, "regular grid", "%s with %d values: %s", name.c_str(), (int)len, r ? "refused" : "accepted");
            vh::outcome(vh::hash(&r, 1));
        }
    }
}

struct NoProps : IncompPropertiesInterface {
    int np, nc;
    int numDimensions() const { return 3; } int numCells() const { return nc; } const double* porosity() const { return 0; } const double* permeability() const { return 0; }
    int numPhases() const { return np; } const double* viscosity() const { return 0; } const double* density() const { static const double r[3] = { 1000, 800, 1 }; return r; }
    const double* surfaceDensity() const { return density(); }
    void relperm(const int, const double*, const int*, double*, double*) const {} void capPress(const int, const double*, const int*, double*, double*) const {}
    void satRange(const int n, const int*, double* a, double* b) const { for (int i = 0; i < n * np; ++i) { a[i] = 0; b[i] = 1; } }
};
static const double mD = 9.869232667160130e-16, bar = 1e5;

// arrays with one value per cell
static void cells(bool thorough)
{
    static const int n[3] = { 2, 1, 3 };
    const int nc = 6;
    static const int maps[] = { -1, 63, 61, 31, 7, 1, 32, 42, 21 };
    // kinds of decks: 0 rock, 1 scalar permeability, 2 full tensor, 3 scaled relperm, 4 regions, 5 state water-oil, 6 state oil-gas, 7 state three phases
    for (int kind = 0; kind < 8; ++kind) for (int mi = 0; mi < 9; ++mi) {
        Text full;
        full.head = vh::fmt("RUNSPEC\nMETRIC\nDIMENS\n %d %d %d /\n%s%s%s%sGRID\n", n[0], n[1], n[2], kind == 6 ? "" : "WATER\n", "OIL\n", kind >= 6 ? "GAS\n" : "", kind == 3 ? "ENDSCALE\n /\n" : "");
        grid(full, n, maps[mi], false);
        const size_t first = full.a.size();
        std::vector<const char*> names;
        if (kind == 0) { const char* k[] = { "PORO", "PERMX", "PERMY", "PERMZ" }; names.assign(k, k + 4); }
        if (kind == 1) { const char* k[] = { "PERMX" }; names.assign(k, k + 1); }
        if (kind == 2) { const char* k[] = { "PORO", "PERMX", "PERMXY", "PERMYZ", "PERMY", "PERMZX", "PERMZ" }; names.assign(k, k + 7); }
        if (kind == 3) { const char* k[] = { "SWL", "SWCR", "SWU", "SOWCR", "KRW", "KRWR", "KRO", "KRORW" }; names.assign(k, k + 8); }
        if (kind == 4) { const char* k[] = { "SATNUM" }; names.assign(k, k + 1); }
        if (kind == 5) { const char* k[] = { "PRESSURE", "SWAT" }; names.assign(k, k + 2); }
        if (kind == 6) { const char* k[] = { "PRESSURE", "SGAS" }; names.assign(k, k + 2); }
        if (kind == 7) { const char* k[] = { "PRESSURE", "SWAT", "SGAS" }; names.assign(k, k + 3); }
        for (size_t k = 0; k < names.size(); ++k) for (int c = 0; c < nc; ++c) {
            const std::string s = names[k];
            full[s].v.push_back(kind == 4 ? 1 + c % 2 : s == "PORO" ? 0.1 + c / 32.0 : s[0] == 'P' && kind < 3 ? 10 * (k + 1) + c : s == "PRESSURE" ? 100 + c :
                                s == "SWL" || s == "SWCR" || s == "SOWCR" ? 0.1 + c / 64.0 : s == "SWU" ? 0.9 + c / 128.0 : s == "SWAT" || s == "SGAS" ? 0.125 + c / 32.0 : 0.5 + c / 32.0);
        }
        full.tail = "PROPS\nDENSITY\n 800 1000 1 /\nPVTW\n 100 1 0 1 0 /\nPVCDO\n 100 1 0 1 0 /\nPVDG\n 100 0.1 0.01\n 200 0.05 0.02 /\n";
        if (kind != 6) full.tail += kind == 7 ? "SWOF\n 0.1 0 1 0\n 1 1 0 0 /\n" : "SWOF\n 0.1 0 1 0\n 0.9 0.75 0 0 /\n 0.2 0 1 0\n 1 0.5 0 0 /\n";
        if (kind >= 6) full.tail += kind == 6 ? "SGOF\n 0 0 1 0\n 1 1 0 0 /\n" : "SGOF\n 0 0 1 0\n 0.9 1 0 0 /\n";
        int last = 0; std::vector<int> where;
        for (int c = 0; c < nc; ++c) if (maps[mi] < 0 || maps[mi] >> c & 1) { where.push_back(c); last = c; }
        // one or two of the arrays cut
        const size_t na = names.size();
        for (size_t k = 0; k < na; ++k) for (int len = 0; len <= nc + 1; ++len) for (size_t k2 = k; k2 < (thorough ? na : k + 1); ++k2) for (int len2 = 0; len2 <= (k2 == k ? 0 : nc + 1); ++len2) {
            if (!vh::begin(vh::fmt("cells/%d/%d/%s/%d/%s/%d", kind, mi, names[k], len, k2 == k ? "-" : names[k2], len2))) continue;
            Text t(full);
            t.cut(first + k, len);
            if (k2 != k) t.cut(first + k2, len2);
            const int shortest = k2 == k ? len : std::min(len, len2);
            const bool must = shortest <= last, may = shortest >= nc; // in between only inactive cells lack a value
            dk::Deck d;
            const bool unread = throws([&] { d = dk::parse(t.str()); });
            if (unread) { VH_CHECK(shortest == 0, "refused", "not read"); continue; }
            GridManager gm(*d);
            const UnstructuredGrid* g = gm.c_grid();
            VH_CHECK(g->number_of_cells == (int)where.size(), "cells", "%d", g->number_of_cells);
            bool r[3] = { false, false, false };
            int nr = 0;
            vh::tr(3);
            const std::vector<Array>& A = full.a;
            #define VAL(name, c) (full[name].v[where[c]])
            (void)A;
            if (kind < 3) {
                std::function<void(const double*, const double*)> check = [&](const double* po, const double* K) {
                    for (int c = 0; c < g->number_of_cells; ++c) {
                        VH_CHECK(po[c] == (kind == 1 ? 1.0 : VAL("PORO", c)), "porosity", "cell %d: %g", c, po[c]);
                        VH_CHECK(vh::close_to(K[9 * c], VAL("PERMX", c) * mD, 1e-12), "permeability", "cell %d: %g", c, K[9 * c]);
                        VH_CHECK(vh::close_to(K[9 * c + 8], (kind == 1 ? VAL("PERMX", c) : VAL("PERMZ", c)) * mD, 1e-12), "permeability", "cell %d zz: %g", c, K[9 * c + 8]);
                        if (kind == 2) VH_CHECK(vh::close_to(K[9 * c + 1], VAL("PERMXY", c) * mD, 1e-12) && vh::close_to(K[9 * c + 5], VAL("PERMYZ", c) * mD, 1e-12) && vh::close_to(K[9 * c + 2], VAL("PERMZX", c) * mD, 1e-12), "permeability", "cell %d off the diagonal", c);
                    }
                };
                r[0] = throws([&] { RockFromDeck k; k.init(*d, *g); check(k.porosity(), k.permeability()); });
                r[1] = throws([&] { BlackoilPropertiesFromDeck k(*d, *g, true); check(k.porosity(), k.permeability()); });
                r[2] = throws([&] { IncompPropertiesFromDeck k(*d, *g); check(k.porosity(), k.permeability()); });
                nr = 3;
            } else if (kind < 5) {
                std::function<void(const SaturationPropsInterface*, const BlackoilPropertiesInterface*)> check = [&](const SaturationPropsInterface* a, const BlackoilPropertiesInterface* b) {
                    for (int c = 0; c < g->number_of_cells; ++c) {
                        double lo[2], hi[2];
                        if (a) a->satRange(1, &c, lo, hi); else b->satRange(1, &c, lo, hi);
                        const double swl = kind == 4 ? VAL("SATNUM", c) / 10 : VAL("SWL", c), swu = kind == 4 ? (VAL("SATNUM", c) == 1 ? 0.9 : 1) : VAL("SWU", c);
                        VH_CHECK(vh::close_to(lo[0], swl, 1e-12) && vh::close_to(hi[0], swu, 1e-12), "range", "cell %d: %g-%g, expected %g-%g", c, lo[0], hi[0], swl, swu);
                    }
                };
                r[0] = throws([&] { SaturationPropsFromDeck<SatFuncSimpleNonuniform> f; f.init(*d, *g, 0); check(&f, 0); });
                r[1] = throws([&] { BlackoilPropertiesFromDeck k(*d, *g, false); check(0, &k); });
                nr = 2;
            } else {
                NoProps p; p.np = kind == 7 ? 3 : 2; p.nc = g->number_of_cells;
                std::function<void(const V&, const V&)> check = [&](const V& pr, const V& s) {
                    for (int c = 0; c < g->number_of_cells; ++c) {
                        VH_CHECK(vh::close_to(pr[c], VAL("PRESSURE", c) * bar, 1e-12), "pressure", "cell %d: %g", c, pr[c]);
                        const double w = kind == 6 ? 0 : VAL("SWAT", c), x = kind == 5 ? 0 : VAL("SGAS", c);
                        const double e[3] = { kind == 6 ? 1 - x : w, kind == 6 ? x : 1 - w - x, x };
                        for (int q = 0; q < p.np; ++q) VH_CHECK(vh::close_to(s[p.np * c + q], e[q], 1e-12), "saturation", "cell %d phase %d: %g", c, q, s[p.np * c + q]);
                    }
                };
                r[0] = throws([&] { TwophaseState st; initStateFromDeck(*g, p, *d, 0.0, st); check(st.pressure(), st.saturation()); });
                nr = 1;
            }
            for (int q = 0; q < nr; ++q) VH_CHECK(must ? r[q] : may ? !r[q] : true, "cells", "%s with %d values (%s %d), last active cell %d: consumer %d %s", names[k], len, k2 == k ? "" : names[k2], len2, last + 1, q, r[q] ? "refuses" : "accepts");
            vh::outcome(vh::hash(r, sizeof r) + kind);
        }
    }
}

// tables by region: tables given against tables needed; and keywords left out
static void tables()
{
    for (int kind = 0; kind < 4; ++kind) for (int given = 1; given <= 3; ++given) for (int need = 1; need <= 3; ++need) {
        if (!vh::begin(vh::fmt("tables/%d/%d/%d", kind, given, need))) continue;
        std::string s = "RUNSPEC\nMETRIC\nDIMENS\n 3 1 1 /\nOIL\nWATER\nGAS\n", one;
        if (kind >= 2) s = "RUNSPEC\nMETRIC\nDIMENS\n 3 1 1 /\nOIL\nWATER\nENDSCALE\n /\n";
        s += "GRID\nDXV\n 3*1 /\nDYV\n 1 /\nDZV\n 1 /\nPROPS\n";
        s += vh::fmt("REGIONS\nSATNUM\n 1 %d 1 /\nPROPS\nSWOF\n", need);
        for (int i = 0; i < (kind == 0 ? given : 3); ++i) s += "0.1 0 1 0\n 1 1 0 0 /\n";
        if (kind < 2) { s += "SGOF\n"; for (int i = 0; i < (kind == 1 ? given : 3); ++i) s += "0 0 1 0\n 0.9 1 0 0 /\n"; }
        if (kind == 2) { s += "ENPTVD\n"; for (int i = 0; i < given; ++i) s += vh::fmt(" 0 .15 .2 .9 1* 1* 1* .1 1*\n 4 .15 .2 .9 1* 1* 1* .1 1* /\n"); s += "/\n"; }
        if (kind == 3) { s += "ENKRVD\n"; for (int i = 0; i < given; ++i) s += vh::fmt(" 0 .5 1* .5 .25 1* 1* .25\n 4 .5 1* .5 .25 1* 1* .25 /\n"); s += "/\n"; }
        dk::Deck d = dk::parse(s);
        GridManager g(*d);
        bool r = throws([&] { SaturationPropsFromDeck<SatFuncSimpleNonuniform> f; f.init(*d, *g.c_grid(), 0); });
        vh::tr();
        // the curves must come in equal numbers; the depth tables may be more than needed
        VH_CHECK(kind < 2 ? r == (given != 3 || given < need) : given < need ? r : !r, "tables", "%d given, %d needed: %s", given, need, r ? "refused" : "accepted");
    }
    static const char* kw[] = { "DENSITY\n 800 1000 1 /\n", "PVTW\n 100 1 0 1 0 /\n", "PVCDO\n 100 1 0 1 0 /\n", "PVDG\n 100 0.1 0.01\n 200 0.05 0.02 /\n", "SWOF\n 0 0 1 0\n 1 1 0 0 /\n", "SGOF\n 0 0 1 0\n 1 1 0 0 /\n", "PERMX\n 3*1 /\n", "PORO\n 3*0.1 /\n", "SATNUM\n 3*1 /\n", "WATER\n", "OIL\n", "GAS\n", "ROCK\n 100 1e-5 /\n" };
    for (int out = 0; out < 1 << 13; ++out) {
        if (__builtin_popcount(out) > 4) continue;
        if (!vh::begin(vh::fmt("without/%d", out))) continue;
        std::string s = "RUNSPEC\nMETRIC\nDIMENS\n 3 1 1 /\nDXV\n 3*1 /\nDYV\n 1 /\nDZV\n 1 /\n";
        for (int i = 9; i < 12; ++i) if (!(out >> i & 1)) s += kw[i];
        for (int i = 0; i < 9; ++i) if (!(out >> i & 1)) s += kw[i];
        if (!(out >> 12 & 1)) s += kw[12];
        dk::Deck d = dk::parse(s);
        GridManager g(*d);
        const bool w = !(out >> 9 & 1), o = !(out >> 10 & 1), v = !(out >> 11 & 1);
        // every phase needs its density, its fluid table and its curves; oil must be there with another phase
        bool must = !o || (!w && !v) || (out & 1) || (out >> 2 & 1) || (v && (out >> 3 & 1)) || (w && (out >> 4 & 1)) || (v && (out >> 5 & 1));
        bool r = throws([&] {
            BlackoilPropertiesFromDeck p(*d, *g.c_grid(), true);
            VH_CHECK(p.numPhases() == w + o + v && p.numCells() == 3, "phases", "%d", p.numPhases());
            if (w && (out >> 1 & 1)) { // the default of water
                const double pr = 2e7, z[3] = { 1, 1, 1 }; double mu[3];
                p.viscosity(1, &pr, z, 0, mu, 0);
                VH_CHECK(vh::close_to(mu[0], 5e-4, 1e-12), "water", "default viscosity %g", mu[0]);
            }
            for (int c = 0; c < 3; ++c) VH_CHECK(p.porosity()[c] == (out >> 7 & 1 ? 1.0 : 0.1), "porosity", "cell %d: %g", c, p.porosity()[c]);
        });
        VH_CHECK(r == must, "without", "%s %s", r ? "refused" : "accepted", what.c_str());
        vh::tr();
        vh::outcome(out * 2 + r);
    }
}

void explore()
{
    dk::quiet();
    grids();
    cells(vh::thorough());
    tables();
}
