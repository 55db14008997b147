// Unit conversion of every keyword in every unit system, against independent constants.
#include "deckrec.hpp"
#include <opm/core/utility/Units.hpp>
using namespace dr;

static const char* fams[] = { "", "METRIC", "FIELD" };

struct Cfg { int fam, place, conv; std::string id; };
static std::vector<Cfg> cfgs()
{
    std::vector<Cfg> c;
    for (int f = 0; f < 3; ++f) for (int p = 0; p < (f ? 3 : 1); ++p) for (int v = 0; v < 2; ++v) { Cfg q = { f, p, v, vh::fmt("%d.%d.%d", f, p, v) }; c.push_back(q); }
    return c;
}
static std::string deck(const Cfg& c, const std::string& body)
{
    std::string f = fams[c.fam];
    if (c.place == 0) return (f.empty() ? "" : f + "\n\n") + body;
    if (c.place == 1) return body + f + "\n";
    return "RUNSPEC\n" + f + "\nGRID\n" + body; 
}
static double fac(Unit u, const Cfg& c) { return c.conv ? factor(u, c.fam == 2) : 1; }

static void cmp(const char* what, double got, double raw, Unit u, const Cfg& c)
{
    double w = raw * fac(u, c);
    vh::tr();
    vh::outcome(vh::fmt("%s %.15g", what, got));
    if (!(std::fabs(got - w) <= 1e-12 * std::fabs(w))) vh::fail("unit", "%s: %.17g from %.17g, expected %.17g", what, got, raw, w);
}

// the deck's own unit record: factors of the deck's system, or one after conversion
static void unitrec(P p, const Cfg& c)
{
    const Opm::EclipseUnits& q = p.units();
    const Cfg d = { c.fam, 0, !c.conv, "" };
    const double un[13] = { q.length, q.time, q.density, q.polymer_density, q.pressure, q.compressibility, q.viscosity, q.permeability, q.transmissibility, q.liqvol_s / q.time, q.gasvol_s / q.time, q.liqvol_r / q.time, q.gasvol_r / q.gasvol_s };
    const Unit uu[13] = { LEN, TIME, DENS, PDENS, PRES, COMPR, VISC, PERM, TRANS, LRAT, GRAT, RRAT, GVOLF };
    for (int i = 0; i < 13; ++i) cmp("units()", un[i], 1, uu[i], d);
}

void explore()
{
    dk::quiet();
    std::vector<Cfg> C = cfgs();
    std::vector<Key> K = keys();
    // records; numbers are distinct, optional group of other keywords does not matter
    for (size_t k = 0; k < K.size(); ++k) for (size_t ci = 0; ci < C.size(); ++ci) for (int var = 0; var < 3; ++var) {
        const Key& key = K[k];
        const Cfg& c = C[ci];
        if (!vh::begin("rec/" + key.name + "/" + c.id + vh::fmt("/%d", var))) continue;
        static const char* inj[] = { "WATER", "GAS", "OIL" };
        static const char* targ[] = { "ORAT", "GRAT", "BHP", "WRAT", "LRAT", "RESV", "THP" };
        static const Unit targu[] = { LRAT, GRAT, PRES, LRAT, LRAT, RRAT, PRES };
        const bool isinj = key.name == "WCONINJE" || key.name == "GCONINJE";
        const int nr = key.name == "WELTARG" ? 7 : key.multi ? 2 + (var == 1) : 1;
        std::string t = key.name + "\n";
        for (int r = 0; r < nr; ++r) {
            for (size_t i = 0; i < key.items.size(); ++i) {
                const Item& it = key.items[i];
                std::string v = it.t == 's' ? vh::fmt("N%d", r) : it.t == 'i' ? vh::fmt("%d", (int)(2 + i + r)) : n(1.5 + i * 0.75 + 10 * r + 100 * var);
                if (isinj && i == 1) v = inj[(r + var) % 3];
                if (key.name == "WELTARG" && i == 1) v = targ[(r + var) % 7];
                if (key.name == "WGRUPCON" && i == 1) v = "YES";
                t += " " + v;
            }
            t += " /\n";
        }
        if (key.terminated) t += "/\n";
        dk::Deck p = dk::parse(deck(c, t), c.conv);
        std::vector<Row> got = key.read(*p);
        if ((int)got.size() != nr) { vh::fail("count", "%s", t.c_str()); continue; }
        unitrec(*p, c);
        for (int r = 0; r < nr; ++r) for (size_t i = 0; i < key.items.size(); ++i) {
            const Item& it = key.items[i];
            if (it.t == 's') continue;
            if (key.name == "WCONINJE" && i == 9) continue;
            double raw = it.t == 'i' ? 2 + i + r : 1.5 + i * 0.75 + 10 * r + 100 * var;
            Unit u = it.u;
            if (isinj && u == LRAT && (r + var) % 3 == 1) u = GRAT;
            if (key.name == "WELTARG") u = targu[(r + var) % 7];
            double w = raw * fac(u, c), g = atof(got[r][i].c_str());
            vh::tr();
            if (!vh::close_to(g, w, 1e-10)) { vh::fail("unit", "%s record %d item %d: %.12g, expected %.12g", key.name.c_str(), r, (int)i, g, w); break; }
            vh::outcome(vh::fmt("%s/%d/%.10g", key.name.c_str(), (int)i, g));
        }
    }
    std::vector<Tab> T = tabs();
    for (size_t k = 0; k < T.size(); ++k) for (size_t ci = 0; ci < C.size(); ++ci) for (int rows = 2; rows <= 3; ++rows) for (int regs = 1; regs <= 2; ++regs) {
        const Cfg& c = C[ci];
        if (!vh::begin("tab/" + T[k].name + "/" + c.id + vh::fmt("/%d.%d", rows, regs))) continue;
        std::string t = T[k].name + "\n";
        for (int r = 0; r < regs; ++r) { for (int i = 0; i < rows; ++i) { for (size_t j = 0; j < T[k].u.size(); ++j) t += " " + n(0.5 + i + 10 * j + 100 * r); t += "\n"; } t += "/\n"; }
        dk::Deck p = dk::parse(deck(c, t), c.conv);
        unitrec(*p, c);
        auto& g = T[k].get(*p);
        if ((int)g.size() != regs) { vh::fail("count", "%s", t.c_str()); continue; }
        for (int r = 0; r < regs; ++r) for (int i = 0; i < rows; ++i) for (size_t j = 0; j < T[k].u.size(); ++j) cmp(T[k].name.c_str(), g[r][j][i], 0.5 + i + 10 * j + 100 * r, T[k].u[j], c);
    }
    // live oil and wet gas
    for (int gas = 0; gas < 2; ++gas) for (size_t ci = 0; ci < C.size(); ++ci) for (int sh = 0; sh < 9; ++sh) {
        const Cfg& c = C[ci];
        if (!vh::begin(vh::fmt("live/%d/%d/", gas, sh) + c.id)) continue;
        std::string t = gas ? "PVTG\n" : "PVTO\n";
        for (int r = 0; r < 2; ++r) { for (int i = 0; i < 2; ++i) { t += n(100 * i + 5 + r); for (int q = 0; q <= (i ? sh / 3 : sh % 3); ++q) for (int j = 0; j < 3; ++j) t += " " + n(1 + j + 10 * q + 100 * i + r); t += " /\n"; } t += "/\n"; }
        dk::Deck p = dk::parse(deck(c, t), c.conv);
        auto& g = gas ? p->getPVTG().pvtg_ : p->getPVTO().pvto_;
        if (g.size() != 2 || g[0].size() != 2 || g[1].size() != 2) { vh::fail("count", "%s", t.c_str()); continue; }
        const Unit u0 = gas ? PRES : GOR, u[3] = { gas ? OGR : PRES, gas ? GVOLF : LVOLF, VISC };
        for (int r = 0; r < 2; ++r) for (int i = 0; i < 2; ++i) {
            cmp("live0", g[r][i][0], 100 * i + 5 + r, u0, c);
            for (int q = 0; q <= (i ? sh / 3 : sh % 3); ++q) for (int j = 0; j < 3; ++j) cmp(gas ? "PVTG" : "PVTO", g[r][i][1 + 3 * q + j], 1 + j + 10 * q + 100 * i + r, u[j], c);
        }
    }
    // long rows of undersaturated values; equal records in successive regions
    for (int gas = 0; gas < 2; ++gas) for (size_t ci = 0; ci < C.size(); ++ci) for (int len = 1; len <= 20; ++len) {
        const Cfg& c = C[ci];
        if (!vh::begin(vh::fmt("livelong/%d/%d/", gas, len) + c.id)) continue;
        std::string t = gas ? "PVTG\n" : "PVTO\n";
        for (int r = 0; r < 2; ++r) { for (int i = 0; i < 2; ++i) { t += n(7 + i); for (int q = 0; q < (i ? len : 21 - len); ++q) for (int j = 0; j < 3; ++j) t += " " + n(1 + j + q / 2); t += " /\n"; } t += "/\n"; }
        dk::Deck p = dk::parse(deck(c, t), c.conv);
        auto& g = gas ? p->getPVTG().pvtg_ : p->getPVTO().pvto_;
        if (g.size() != 2 || g[0].size() != 2 || g[1].size() != 2) { vh::fail("count", "%s", t.c_str()); continue; }
        const Unit u0 = gas ? PRES : GOR, u[3] = { gas ? OGR : PRES, gas ? GVOLF : LVOLF, VISC };
        for (int r = 0; r < 2; ++r) for (int i = 0; i < 2; ++i) {
            cmp("live0", g[r][i][0], 7 + i, u0, c);
            for (int q = 0; q < (i ? len : 21 - len); ++q) for (int j = 0; j < 3; ++j) cmp(gas ? "PVTG" : "PVTO", g[r][i][1 + 3 * q + j], 1 + j + q / 2, u[j], c);
        }
    }
    for (size_t k = 0; k < K.size(); ++k) for (size_t ci = 0; ci < C.size(); ++ci) for (int nr = 2; nr <= 6; nr += 2) {
        const Key& key = K[k];
        const Cfg& c = C[ci];
        if (!key.multi || key.name == "GRUPTREE" || key.name == "WELTARG" || !vh::begin(vh::fmt("same/%d/", nr) + key.name + "/" + c.id)) continue;
        std::string t = key.name + "\n";
        for (int r = 0; r < nr; ++r) {
            for (size_t i = 0; i < key.items.size(); ++i) t += (key.name == "WCONINJE" || key.name == "GCONINJE") && i == 1 ? " WATER" : key.name == "WGRUPCON" && i == 1 ? " YES" : key.items[i].t == 's' ? " N" : key.items[i].t == 'i' ? " 7" : " 7.5";
            t += " /\n";
        }
        if (key.terminated) t += "/\n";
        dk::Deck p = dk::parse(deck(c, t), c.conv);
        std::vector<Row> got = key.read(*p);
        if ((int)got.size() != nr) { vh::fail("count", "%s", t.c_str()); continue; }
        for (int r = 0; r < nr; ++r) for (size_t i = 0; i < key.items.size(); ++i) if (key.items[i].t == 'd' && !(key.name == "WCONINJE" && i == 9)) cmp(key.name.c_str(), atof(got[r][i].c_str()), atof(n(7.5 * fac(key.items[i].u, c)).c_str()) / fac(key.items[i].u, c), key.items[i].u, c);
    }
    // arrays
    static const struct { const char* k; Unit u; } A[] = { { "COORD", LEN }, { "ZCORN", LEN }, { "DXV", LEN }, { "DYV", LEN }, { "DZV", LEN }, { "DEPTHZ", LEN }, { "TOPS", LEN }, { "PERMX", PERM }, { "PERMY", PERM },
        { "PERMZ", PERM }, { "PERMXX", PERM }, { "PERMYY", PERM }, { "PERMZZ", PERM }, { "PERMXY", PERM }, { "PERMYZ", PERM }, { "PERMZX", PERM }, { "PORO", ONE }, { "MULTPV", ONE }, { "PRESSURE", PRES }, { "SGAS", ONE },
        { "SWAT", ONE }, { "SOIL", ONE }, { "RS", ONE }, { "SWCR", ONE }, { "SWL", ONE }, { "SWU", ONE }, { "SOWCR", ONE }, { "KRW", ONE }, { "KRWR", ONE }, { "KRO", ONE }, { "KRORW", ONE } };
    for (size_t k = 0; k < sizeof A / sizeof *A; ++k) for (size_t ci = 0; ci < C.size(); ++ci) for (int len = 1; len <= 3; ++len) {
        const Cfg& c = C[ci];
        if (strcmp(A[k].k, "RS") == 0 && c.fam == 2) continue;
        if (!vh::begin(vh::fmt("arr/%s/%d/", A[k].k, len) + c.id)) continue;
        std::string t = std::string(A[k].k) + "\n";
        for (int i = 0; i < len; ++i) t += " " + n(0.25 + 3 * i);
        dk::Deck p = dk::parse(deck(c, "SATNUM\n 2 3 /\n" + t + " /\n"), c.conv);
        const std::vector<double>& g = p->getFloatingPointValue(A[k].k);
        if ((int)g.size() != len) { vh::fail("count", "%s", t.c_str()); continue; }
        for (int i = 0; i < len; ++i) cmp(A[k].k, g[i], 0.25 + 3 * i, A[k].u, c);
        VH_CHECK(p->getIntegerValue("SATNUM") == (std::vector<int>{ 2, 3 }), "unit", "integers changed");
        unitrec(*p, c);
    }
    // time steps and keywords in several epochs; polymer and end-point tables
    for (size_t ci = 0; ci < C.size(); ++ci) for (int ne = 1; ne <= 14; ne += ne < 3 ? 1 : 11) {
        const Cfg& c = C[ci];
        if (!vh::begin(vh::fmt("epoch/%d/", ne) + c.id)) continue;
        std::string t = "DENSITY\n 1 2 3 /\nPLYVISC\n 1 2 3 4 /\nPLYADS\n 0.5 0.25 2 0.5 /\nENPTVD\n 1000 .1 .2 .9 1* 1* 1* .3 1* \n 2000 .1 .2 .9 1* 1* 1* .3 1* /\n/\nENKRVD\n 1000 .1 1* .2 .9 1* 1* .3 \n 2000 .1 1* .2 .9 1* 1* .3 /\n/\n";
        for (int e = 0; e < ne; ++e) t += vh::fmt("WCONPROD\n W%d OPEN ORAT %d 2* 7 /\n/\nTSTEP\n %d 0.5 /\n", e, 10 + e, 2 + e);
        dk::Deck p = dk::parse(deck(c, t), c.conv);
        VH_CHECK(p->numberOfEpochs() == ne, "epochs", "%d", p->numberOfEpochs());
        for (int e = 0; e < p->numberOfEpochs(); ++e) {
            p->setCurrentEpoch(e);
            for (int i = 0; i < 3; ++i) cmp("DENSITY", p->getDENSITY().densities_[0][i], i + 1, DENS, c);
            cmp("PLYVISC", p->getPLYVISC().concentration_[1], 3, PDENS, c); cmp("PLYVISC", p->getPLYVISC().factor_[1], 4, ONE, c);
            cmp("PLYADS", p->getPLYADS().local_concentration_[1], 2, PDENS, c); cmp("PLYADS", p->getPLYADS().adsorbed_concentration_[1], .5, ONE, c);
            cmp("ENPTVD", p->getENPTVD().table_[0][0][1], 2000, LEN, c); cmp("ENPTVD", p->getENPTVD().table_[3][0][1], .9, ONE, c);
            cmp("ENKRVD", p->getENKRVD().table_[0][0][1], 2000, LEN, c); cmp("ENKRVD", p->getENKRVD().table_[4][0][1], .3, ONE, c);
            const Opm::WCONPROD& w = p->getWCONPROD();
            VH_CHECK((int)w.wconprod.size() == e + 1, "epochs", "records in epoch %d: %d", e, (int)w.wconprod.size());
            for (int i = 0; i <= e && i < (int)w.wconprod.size(); ++i) { cmp("WCONPROD", w.wconprod[i].oil_max_rate_, 10 + i, LRAT, c); cmp("WCONPROD", w.wconprod[i].liquid_max_rate_, 7, LRAT, c); }
            const std::vector<double>& s = p->getTSTEP().tstep_;
            VH_CHECK((int)s.size() == 2 * e + 2, "epochs", "steps in epoch %d: %d", e, (int)s.size());
            for (size_t i = 0; i < s.size(); ++i) cmp("TSTEP", s[i], i % 2 ? 0.5 : 2 + int(i) / 2, TIME, c);
        }
    }
    // unsupported systems are refused
    if (vh::begin("lab")) { bool t = false; try { dk::parse("LAB\nPORO\n 1 /\n"); } catch (const std::exception&) { t = true; } VH_CHECK(t, "lab", "accepted"); }
    if (vh::begin("constants")) {
        using namespace Opm; using namespace Opm::unit; using namespace Opm::prefix;
        const double g[][2] = { { feet, .3048 }, { inch, .0254 }, { day, 86400 }, { year, 31536000 }, { hour, 3600 }, { minute, 60 }, { stb, .158987294928 }, { gallon, .003785411784 }, { liter, 1e-3 }, { pound, .45359237 }, { barsa, 1e5 },
            { atm, 101325 }, { psia, 6894.757293168361 }, { Poise, .1 }, { darcy, 9.869232667160130e-13 }, { gravity, 9.80665 }, { lbf, 4.4482216152605 }, { Newton, 1 }, { Pascal, 1 }, { Pas, 1 }, { micro, 1e-6 }, { milli, 1e-3 }, { centi, 1e-2 },
            { deci, .1 }, { kilo, 1e3 }, { mega, 1e6 }, { giga, 1e9 }, { square(3), 9 }, { cubic(3), 27 }, { convert::from(2, feet), .6096 }, { convert::to(.6096, feet), 2 } };
        for (size_t i = 0; i < sizeof g / sizeof *g; ++i) { vh::tr(); VH_CHECK(vh::close_to(g[i][0], g[i][1], 1e-13), "constant", "%d: %.17g expected %.17g", (int)i, g[i][0], g[i][1]); }
    }
}
