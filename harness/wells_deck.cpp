// Wells built from deck keywords: every completion, control and keyword-sequence combination in the bounds.
#include "deck.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/wells/WellsManager.hpp>
#include <opm/core/wells.h>

static const int NX = 3, NY = 2, NZ = 3;
static const double X[] = { 0, 10, 30, 60 }, Y[] = { 0, 7, 20 }, Z[] = { 100, 102, 107, 111 };
static const double DAY = 86400, BAR = 1e5, FT = 0.3048;

struct Grid {
    UnstructuredGrid* g;
    std::vector<double> perm;
    std::vector<int> active;     // cartesian -> compressed or -1
    Grid(int kind)               // 0: cartesian without cell map, 1: corner-point with map, 2: with inactive cells, 3: with faults between the columns
    {
        const int nc = NX * NY * NZ;
        active.assign(nc, -1);
        if (kind == 0) {
            g = create_grid_tensor3d(NX, NY, NZ, X, Y, Z, 0);
            for (int i = 0; i < nc; ++i) active[i] = i;
        } else {
            std::vector<double> coord, z(8 * nc);
            std::vector<int> act(nc, 1);
            if (kind == 2) { act[1] = 0; act[1 + NX + NX * NY] = 0; act[nc - 1] = 0; }
            for (int j = 0; j <= NY; ++j) for (int i = 0; i <= NX; ++i) { double a[6] = { X[i], Y[j], 0, X[i], Y[j], 200 }; coord.insert(coord.end(), a, a + 6); }
            for (int k = 0; k < NZ; ++k) for (int j = 0; j < NY; ++j) for (int i = 0; i < NX; ++i)
                for (int q = 0; q < 8; ++q) z[2 * i + (q & 1) + 2 * NX * (2 * j + (q >> 1 & 1) + 2 * NY * (2 * k + (q >> 2)))] = Z[k + (q >> 2)] + (kind == 3 ? 3 * (i == 1) - 2.5 * (i == 2 && j == 1) : 0);
            struct grdecl in = { { NX, NY, NZ }, &coord[0], &z[0], &act[0], 0 };
            g = create_grid_cornerpoint(&in, 0.0);
            for (int c = 0; c < g->number_of_cells; ++c) active[g->global_cell[c]] = c;
        }
        for (int c = 0; c < g->number_of_cells; ++c) {
            double t[9] = { 1e-13 * (1 + c), 1e-15, 0, 1e-15, 4e-13 / (1 + c), 0, 0, 0, 1e-14 };
            perm.insert(perm.end(), t, t + 9);
        }
    }
    ~Grid() { destroy_grid(g); }
};
static Grid& grid(int k) { static Grid* gs[4]; if (!gs[k]) gs[k] = new Grid(k); return *gs[k]; }

static const char* PH[] = { "WATER\nOIL\nGAS\n", "WATER\nOIL\n", "OIL\nGAS\n" };
static const int USED[3][3] = { { 1, 1, 1 }, { 1, 1, 0 }, { 0, 1, 1 } };
static int phasepos(int ph, int p) { int n = 0; for (int q = 0; q < p; ++q) n += USED[ph][q]; return n; }
static int nphases(int ph) { return phasepos(ph, 3); }

struct Perf { int cell; double wi; };
struct Ctl { int type; double target; double d[3]; };
struct Well { std::string name; int type; double depth; std::vector<Perf> perf; std::vector<Ctl> c; int cur; bool frac; double cf[3]; };

static double peaceman(const Grid& G, int i, int j, int k, double diam, double skin = 0)
{
    int c = G.active[i + NX * (j + NY * k)];
    double kx = G.perm[9 * c], ky = G.perm[9 * c + 4];
    double dx = X[i + 1] - X[i], dy = Y[j + 1] - Y[j], dz = Z[k + 1] - Z[k];
    double r = diam > 0 ? diam / 2 : FT / 2;
    double r0 = 0.28 * std::sqrt(dx * dx * std::sqrt(ky / kx) + dy * dy * std::sqrt(kx / ky)) / (std::pow(ky / kx, 0.25) + std::pow(kx / ky, 0.25));
    return 2 * 3.14159265358979323846 * std::sqrt(kx * ky) * dz / (std::log(r0 / r) + skin);
}

typedef std::unique_ptr<Opm::WellsManager> WM;
static WM make(const std::string& text, const Grid& G, std::string* err)
{
    WM w;
    dk::Deck d;
    try { d = dk::parse(text); } catch (...) { *err = "deck"; return w; }
    try { w.reset(new Opm::WellsManager(*d, *G.g, &G.perm[0])); } catch (const std::exception& e) { *err = "wells"; }
    return w;
}

static void compare(const Wells* W, const std::vector<Well>& r, int ph, const std::string& text)
{
    vh::tr();
    int np = nphases(ph);
    if (!W) { vh::fail("none", "no wells from\n%s", text.c_str()); return; }
    if (W->number_of_wells != (int)r.size() || W->number_of_phases != np) { vh::fail("count", "%d wells, %d phases from\n%s", W->number_of_wells, W->number_of_phases, text.c_str()); return; }
    int pos = 0;
    for (size_t w = 0; w < r.size(); ++w) {
        const Well& x = r[w];
        VH_CHECK(W->name[w] && x.name == W->name[w], "name", "well %d named %s, expected %s", (int)w, W->name[w], x.name.c_str());
        if (x.type >= 0) VH_CHECK((int)W->type[w] == x.type, "type", "well %s has type %d from\n%s", x.name.c_str(), (int)W->type[w], text.c_str());
        VH_CHECK(x.depth < -1e50 || vh::close_to(W->depth_ref[w], x.depth, 1e-12), "depth", "well %s reference depth %.10g, expected %.10g from\n%s", x.name.c_str(), W->depth_ref[w], x.depth, text.c_str());
        int n = W->well_connpos[w + 1] - W->well_connpos[w];
        if (n != (int)x.perf.size()) { vh::fail("perfs", "well %s has %d perforations, expected %d from\n%s", x.name.c_str(), n, (int)x.perf.size(), text.c_str()); return; }
        for (int k = 0; k < n; ++k, ++pos) {
            VH_CHECK(W->well_cells[pos] == x.perf[k].cell, "cell", "well %s perforation %d in cell %d, expected %d from\n%s", x.name.c_str(), k, W->well_cells[pos], x.perf[k].cell, text.c_str());
            VH_CHECK(vh::close_to(W->WI[pos], x.perf[k].wi, 1e-10), "wi", "well %s perforation %d well index %.12g, expected %.12g from\n%s", x.name.c_str(), k, W->WI[pos], x.perf[k].wi, text.c_str());
        }
        const WellControls* c = W->ctrls[w];
        if (c->num != (int)x.c.size()) { vh::fail("controls", "well %s has %d controls, expected %d from\n%s", x.name.c_str(), c->num, (int)x.c.size(), text.c_str()); continue; }
        for (int k = 0; k < c->num; ++k) {
            VH_CHECK((int)c->type[k] == x.c[k].type && vh::close_to(c->target[k], x.c[k].target, 1e-12), "control", "well %s control %d: type %d target %.10g, expected %d %.10g from\n%s", x.name.c_str(), k, (int)c->type[k], c->target[k], x.c[k].type, x.c[k].target, text.c_str());
            if (x.c[k].type != BHP) for (int p = 0; p < 3; ++p) if (USED[ph][p])
                VH_CHECK(c->distr[np * k + phasepos(ph, p)] == x.c[k].d[p], "distr", "well %s control %d phase %d: %g, expected %g from\n%s", x.name.c_str(), k, p, c->distr[np * k + phasepos(ph, p)], x.c[k].d[p], text.c_str());
        }
        VH_CHECK(c->current == x.cur, "current", "well %s current control %d, expected %d from\n%s", x.name.c_str(), c->current, x.cur, text.c_str());
        for (int p = 0; x.frac && p < 3; ++p) if (USED[ph][p])
            VH_CHECK(W->comp_frac[np * w + phasepos(ph, p)] == x.cf[p], "frac", "well %s phase %d fraction %g, expected %g from\n%s", x.name.c_str(), p, W->comp_frac[np * w + phasepos(ph, p)], x.cf[p], text.c_str());
    }
}

static std::string opt(double v, bool has) { return has ? dk::num(v) : std::string("1*"); }

// --- completions -------------------------------------------------------------------------------------
static Well base(const char* n, int type) { Well w; w.name = n; w.type = type; w.depth = 0; w.cur = 0; w.frac = false; w.cf[0] = w.cf[1] = w.cf[2] = 0; return w; }
static Ctl ctl(int t, double target, double a, double b, double c) { Ctl x; x.type = t; x.target = target; x.d[0] = a; x.d[1] = b; x.d[2] = c; return x; }

// append the perforations of one line; false if some cell does not exist
static bool complete(const Grid& G, Well& w, int I, int J, int wi, int wj, int k1, int k2, double cf, double diam, double skin = 0)
{
    int i = (I ? I : wi) - 1, j = (J ? J : wj) - 1;
    k1 = k1 ? k1 - 1 : 0; k2 = k2 ? k2 - 1 : NZ - 1;
    for (int k = k1; k <= k2; ++k) {
        if (i >= NX || j >= NY || k >= NZ) return false;
        int c = G.active[i + NX * (j + NY * k)];
        if (c < 0) return false;
        Perf p; p.cell = c; p.wi = cf > 0 ? cf * 1e-3 / (DAY * BAR) : peaceman(G, i, j, k, diam, skin);
        w.perf.push_back(p);
    }
    return true;
}
static void topdepth(const Grid& G, Well& w)
{
    w.depth = 1e100;
    for (size_t k = 0; k < w.perf.size(); ++k) w.depth = std::min(w.depth, G.g->cell_centroids[3 * w.perf[k].cell + 2]);
    if (w.perf.empty()) w.depth = -1e100;   // nothing said
}

static void verdict(const std::string& text, const Grid& G, bool good, const std::vector<Well>& r, int ph)
{
    std::string err;
    WM m = make(text, G, &err);
    if (!good) {
        VH_CHECK(!m, "accepted", "accepted although it must be refused:\n%s", text.c_str());
        vh::outcome("refused");
        return;
    }
    if (!m) { vh::fail("refused", "refused (%s) although valid:\n%s", err.c_str(), text.c_str()); return; }
    compare(m->c_wells(), r, ph, text);
    VH_CHECK(m->empty() == r.empty(), "empty", "empty() is %d", (int)m->empty());
    vh::outcome(vh::fmt("%d %d", (int)r.size(), r.empty() ? 0 : (int)r[0].perf.size()));
}

static void completions()
{
    const int I[] = { 0, 1, 3, 4 }, J[] = { 0, 1, 2, 3 }, K[] = { 0, 1, 2, 3, 4 };
    for (int kind = 0; kind < 4; ++kind) {
        const Grid& G = grid(kind);
        for (int ii = 0; ii < 4; ++ii) for (int jj = 0; jj < 4; ++jj) for (int k1 = 0; k1 < 5; ++k1) for (int k2 = 0; k2 < 5; ++k2)
        for (int cf = 0; cf < 2; ++cf) for (int dm = 0; dm < 2; ++dm) for (int dep = 0; dep < 2; ++dep) {
            if ((K[k1] ? K[k1] : 1) > (K[k2] ? K[k2] : NZ)) continue;      // no layer at all: not specified
            if (!vh::begin(vh::fmt("compl g=%d i=%d j=%d k=%d-%d cf=%d d=%d dep=%d", kind, I[ii], J[jj], K[k1], K[k2], cf, dm, dep))) continue;
            std::string t = std::string("METRIC\n") + PH[1] + "WELSPECS\n P G 2 1 " + opt(55, dep) + " OIL /\n Q G 1 2 1* OIL /\n/\nCOMPDAT\n";
            auto d = [](int v) { return v ? dk::num(v) : std::string("1*"); };
            t += " Q 1* 1* 1* 1* OPEN 1* 3.5 /\n";
            t += " P " + d(I[ii]) + " " + d(J[jj]) + " " + d(K[k1]) + " " + d(K[k2]) + " OPEN 1* " + opt(7.25, cf) + " " + opt(0.3, dm) + " /\n/\n";
            t += "WCONPROD\n P OPEN BHP 5* 90 /\n Q OPEN BHP 5* 80 /\n/\n";
            Well p = base("P", PRODUCER), q = base("Q", PRODUCER);
            p.c.push_back(ctl(BHP, 90 * BAR, 0, 0, 0)); q.c.push_back(ctl(BHP, 80 * BAR, 0, 0, 0));
            bool good = complete(G, q, 0, 0, 1, 2, 0, 0, 3.5, 0);
            good = complete(G, p, I[ii], J[jj], 2, 1, K[k1], K[k2], cf ? 7.25 : 0, dm ? 0.3 : 0) && good;
            topdepth(G, q);
            if (dep) p.depth = 55; else topdepth(G, p);
            std::vector<Well> r; r.push_back(p); r.push_back(q);
            verdict(t, G, good, r, 1);
            if (good) vh::sample(t);
        }
    }
    // diameters and transmissibility factors (the reader ignores the skin factor by design: not given)
    for (int kind = 0; kind < 4; ++kind) for (int sk = 0; sk < 1; ++sk) for (int dm = 0; dm < 4; ++dm) for (int cf = 0; cf < 3; ++cf) for (int i = 1; i <= NX; ++i) for (int k = 1; k <= NZ; ++k) {
        static const double SK[] = { 0, -0.75, 2.5, 100, -1e-3 }, DM[] = { 0, 0.2, 1.0, 0.01 }, CF[] = { 0, 7.25, 1e-4 };
        const Grid& G = grid(kind);
        if (G.active[i - 1 + NX * (1 + NY * (k - 1))] < 0) continue;
        if (!vh::begin(vh::fmt("skin g=%d s=%g d=%g cf=%g i=%d k=%d", kind, SK[sk], DM[dm], CF[cf], i, k))) continue;
        std::string t = std::string("METRIC\n") + PH[1] + "WELSPECS\n P G 2 1 55 OIL /\n/\nCOMPDAT\n" + vh::fmt(" P %d 2 %d %d OPEN 1* %s %s 1* %s /\n/\n", i, k, k, opt(CF[cf], cf).c_str(), opt(DM[dm], dm).c_str(), opt(SK[sk], sk).c_str()) + "WCONPROD\n P OPEN BHP 5* 90 /\n/\n";
        std::vector<Well> r(1, base("P", PRODUCER));
        r[0].depth = 55; r[0].c.push_back(ctl(BHP, 90 * BAR, 0, 0, 0));
        complete(G, r[0], i, 2, 2, 1, k, k, CF[cf], DM[dm], SK[sk]);
        verdict(t, G, true, r, 1);
    }
    // several lines per well, well name roots, unknown names, order of lines
    const char* names[] = { "PA", "PB", "Q", "P*", "*", "X" };
    for (int n1 = 0; n1 < 6; ++n1) for (int n2 = 0; n2 < 6; ++n2) for (int n3 = -1; n3 < 6; ++n3) {
        if (!vh::begin(vh::fmt("names %s %s %s", names[n1], names[n2], n3 < 0 ? "-" : names[n3]))) continue;
        const Grid& G = grid(1);
        std::string t = std::string("METRIC\n") + PH[0] + "WELSPECS\n PA G 1 1 1* OIL /\n Q G 2 2 40 OIL /\n PB H 3 1 1* OIL /\n/\nCOMPDAT\n";
        const char* wn[] = { "PA", "Q", "PB" };
        int wi[] = { 1, 2, 3 }, wj[] = { 1, 2, 1 };
        std::vector<Well> r;
        for (int w = 0; w < 3; ++w) { r.push_back(base(wn[w], PRODUCER)); r[w].c.push_back(ctl(BHP, (50 + w) * BAR, 0, 0, 0)); }
        bool good = true;
        int L[] = { n1, n2, n3 };
        for (int l = 0; l < 3; ++l) {
            if (L[l] < 0) continue;
            std::string nm = names[L[l]];
            t += " '" + nm + "' 2* " + dk::num(l + 1) + " " + dk::num(l + 1) + " OPEN 1* " + dk::num(l + 1) + " /\n";
            bool any = false;
            for (int w = 0; w < 3; ++w) {
                bool m = nm[nm.size() - 1] == '*' ? r[w].name.compare(0, nm.size() - 1, nm, 0, nm.size() - 1) == 0 : r[w].name == nm;
                if (m) { complete(G, r[w], 0, 0, wi[w], wj[w], l + 1, l + 1, l + 1, 0); any = true; }
            }
            good = good && any;
        }
        t += "/\nWCONPROD\n PA OPEN BHP 5* 50 /\n Q OPEN BHP 5* 51 /\n PB OPEN BHP 5* 52 /\n/\n";
        for (int w = 0; w < 3; ++w) if (w == 1) r[w].depth = 40; else topdepth(G, r[w]);
        verdict(t, G, good, r, 0);
    }
    // repeated WELSPECS lines
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int c = 0; c < 2; ++c) for (int d = 0; d < 8; ++d) {
        if (!vh::begin(vh::fmt("respec %d%d%d depth=%d", a, b, c, d))) continue;
        const Grid& G = grid(0);
        int seq[] = { 0, 1, a, b, c };
        const char* nm[] = { "A", "B" };
        int I[2], dep[2];
        std::string t = std::string("METRIC\n") + PH[1] + "WELSPECS\n";
        for (int l = 0; l < 5; ++l) {
            int dd = l < 2 ? 0 : (d >> (l - 2) & 1) ? 10 * l : 0;
            I[seq[l]] = l % 3 + 1; dep[seq[l]] = dd;
            t += vh::fmt(" %s G%d %d 2 %s OIL /\n", nm[seq[l]], l, l % 3 + 1, dd ? vh::fmt("%d", dd).c_str() : "1*");
        }
        t += "/\nCOMPDAT\n A 4* OPEN 1* 2 /\n B 2* 2 3 OPEN 1* 2 /\n/\nWCONPROD\n B OPEN BHP 5* 50 /\n A OPEN BHP 5* 60 /\n/\n";
        std::vector<Well> r;
        for (int w = 0; w < 2; ++w) {
            r.push_back(base(nm[w], PRODUCER));
            r[w].c.push_back(ctl(BHP, (w ? 50 : 60) * BAR, 0, 0, 0));
            complete(G, r[w], 0, 0, I[w], 2, w ? 2 : 1, 3, 2, 0);
            if (dep[w]) r[w].depth = dep[w]; else topdepth(G, r[w]);
        }
        verdict(t, G, true, r, 1);
        // one tree node per well, in the order of the wells, below the group named last
        std::string err;
        WM m = make(t, G, &err);
        if (!m) continue;
        const std::vector<Opm::WellNode*>& L = m->wellCollection().getLeafNodes();
        VH_CHECK(L.size() == 2, "tree", "%d well nodes for 2 wells from\n%s", (int)L.size(), t.c_str());
        for (size_t w = 0; w < L.size() && w < 2; ++w) {
            int last = 0;
            for (int l = 0; l < 5; ++l) if (seq[l] == (int)w) last = l;
            VH_CHECK(L[w]->name() == nm[w], "tree", "node %d is %s", (int)w, L[w]->name().c_str());
            VH_CHECK(L[w]->getParent() && const_cast<Opm::WellsGroupInterface*>(L[w]->getParent())->name() == vh::fmt("G%d", last), "tree", "well %s is not in group G%d from\n%s", nm[w], last, t.c_str());
        }
    }
}

// --- controls ------------------------------------------------------------------------------------------
static const char* PMODE[] = { "ORAT", "WRAT", "GRAT", "LRAT", "RESV", "BHP", "GRUP", "CRAT", "THP", "BOGUS" };
static const char* IMODE[] = { "RATE", "RESV", "BHP", "GRUP", "THP", "BOGUS" };

struct PLine { unsigned have; int mode; bool shut, thp; unsigned zero; };      // zero: which of the rates are zero
static std::string ptext(const char* n, const PLine& l)
{
    std::string s = std::string(" ") + n + (l.shut ? " SHUT " : " OPEN ") + PMODE[l.mode];
    for (int q = 0; q < 6; ++q) s += " " + opt(q == 5 ? 95 : l.zero >> q & 1 ? 0 : 11 + q, l.have >> q & 1);
    if (l.thp) s += " 40";
    return s + " /\n";
}
// reference: replaces the controls of the well; false when the line must be refused
static bool pline(Well& w, const PLine& l, int ph)
{
    w.c.clear();
    int pos[10]; for (int q = 0; q < 10; ++q) pos[q] = -1;
    for (int q = 0; q < 5; ++q) if (l.have >> q & 1) {
        bool uo = q == 0 || q == 3, uw = q == 1 || q == 3, ug = q == 2;
        if (q < 4 && ((uw && !USED[ph][0]) || (ug && !USED[ph][2]))) return false;
        pos[q] = w.c.size();
        const double v = l.zero >> q & 1 ? 0 : -(11. + q) / DAY;
        w.c.push_back(q == 4 ? ctl(RESERVOIR_RATE, v, 1, 1, 1) : ctl(SURFACE_RATE, v, uw, uo, ug));
    }
    // an omitted pressure limit defaults to one bar
    pos[5] = w.c.size();
    w.c.push_back(ctl(BHP, (l.have & 32 ? 95 : 1) * BAR, 0, 0, 0));
    if (l.thp) return false;
    if (l.mode > 6) return false;
    if (l.mode < 6 && pos[l.mode] < 0) return false;
    w.cur = l.mode == 6 ? -1 : pos[l.mode];
    if (l.shut && w.cur >= 0) w.cur = ~w.cur;
    w.frac = false;
    return true;
}
struct ILine { unsigned have; int mode, type; bool shut, thp; unsigned zero; };
static const char* ITYPE[] = { "WATER", "OIL", "GAS" };
static std::string itext(const char* n, const ILine& l)
{
    std::string s = std::string(" ") + n + " " + ITYPE[l.type] + (l.shut ? " SHUT " : " OPEN ") + IMODE[l.mode];
    for (int q = 0; q < 3; ++q) s += " " + opt(q == 2 ? 410 : l.zero >> q & 1 ? 0 : 21 + q, l.have >> q & 1);
    if (l.thp) s += " 40";
    return s + " /\n";
}
static bool iline(Well& w, const ILine& l, int ph)
{
    w.c.clear();
    int pos[3] = { -1, -1, -1 };
    for (int q = 0; q < 2; ++q) if (l.have >> q & 1) { pos[q] = w.c.size(); w.c.push_back(ctl(q ? RESERVOIR_RATE : SURFACE_RATE, l.zero >> q & 1 ? 0 : (21. + q) / DAY, 1, 1, 1)); }
    pos[2] = w.c.size();
    w.c.push_back(ctl(BHP, (l.have & 4 ? 410 : 6891) * BAR, 0, 0, 0));
    if (l.thp || l.mode > 3) return false;
    if (l.mode < 3 && pos[l.mode] < 0) return false;
    if (!USED[ph][l.type]) return false;
    w.cur = l.mode == 3 ? -1 : pos[l.mode];
    if (l.shut && w.cur >= 0) w.cur = ~w.cur;
    w.frac = true;
    for (int p = 0; p < 3; ++p) w.cf[p] = p == l.type;
    return true;
}
static const char* SPEC = "WELSPECS\n A G 1 1 40 OIL /\n B G 2 1 41 OIL /\n/\nCOMPDAT\n A 2* 1 1 OPEN 1* 2 /\n B 2* 1 1 OPEN 1* 2 /\n/\n";
static std::vector<Well> two(const Grid& G)
{
    std::vector<Well> r;
    r.push_back(base("A", PRODUCER)); r.push_back(base("B", PRODUCER));
    for (int w = 0; w < 2; ++w) { r[w].depth = 40 + w; complete(G, r[w], w + 1, 1, 1, 1, 1, 1, 2, 0); r[w].cur = -1; }
    return r;
}

static void many()
{
    // many wells, long names, and name roots which fit several of them
    for (int n = 3; n <= 40; ++n) for (int root = 0; root < 4; ++root) for (int kind = 0; kind < 4; kind += 3) {
        if (!vh::begin(vh::fmt("many n=%d root=%d g=%d", n, root, kind))) continue;
        const Grid& G = grid(kind);
        static const char* RT[] = { "*", "WELL1*", "WELL*", "WELL12" };
        std::string t = std::string("METRIC\n") + PH[0] + "WELSPECS\n", ct, pt, it;
        std::vector<Well> r; std::vector<int> I, J;
        for (int w = 0; w < n; ++w) {
            std::string nm = vh::fmt(w % 5 == 4 ? "LONGNAME%d" : "WELL%d", w);
            I.push_back(w * 2 % NX + 1); J.push_back(w / 2 % NY + 1);
            t += vh::fmt(" %s GRP%d %d %d %s OIL /\n", nm.c_str(), w % 7, I[w], J[w], w % 3 ? "1*" : vh::fmt("%d", 60 + w).c_str());
            r.push_back(base(nm.c_str(), w % 4 == 1 ? INJECTOR : PRODUCER));
        }
        for (int w = n - 1; w >= 0; --w) {
            int k1 = w % NZ + 1, k2 = w % 2 ? NZ : k1;
            ct += vh::fmt(" %s 2* %d %d OPEN 1* %d /\n", r[w].name.c_str(), k1, k2, w + 1);
            complete(G, r[w], 0, 0, I[w], J[w], k1, k2, w + 1, 0);
        }
        ct += vh::fmt(" '%s' 2* 1 2 OPEN 1* 5.5 /\n", RT[root]);
        bool any = false;
        for (int w = 0; w < n; ++w) {
            std::string q = RT[root]; bool wild = q[q.size() - 1] == '*'; if (wild) q.resize(q.size() - 1);
            if (wild ? r[w].name.compare(0, q.size(), q) == 0 : r[w].name == q) { complete(G, r[w], 0, 0, I[w], J[w], 1, 2, 5.5, 0); any = true; }
            if (w % 3) topdepth(G, r[w]); else r[w].depth = 60 + w;
            if (r[w].type == INJECTOR) {
                ILine l = { (unsigned)(w % 8) | 1, 0, w % 3, w % 6 == 5, false };
                it += itext(r[w].name.c_str(), l); iline(r[w], l, 0);
            } else {
                PLine l = { (unsigned)(w * 5 % 64) | 8, 3, w % 6 == 2, false };
                pt += ptext(r[w].name.c_str(), l); pline(r[w], l, 0);
            }
        }
        t += "/\nCOMPDAT\n" + ct + "/\n" + (it.size() ? "WCONINJE\n" + it + "/\n" : "") + "WCONPROD\n" + pt + "/\n";
        verdict(t, G, any, r, 0);
    }
}
static void controls()
{
    const Grid& G = grid(1);
    for (int ph = 0; ph < 3; ++ph) for (unsigned have = 0; have < 64; ++have) for (int mode = 0; mode < 10; ++mode) for (int shut = 0; shut < 2; ++shut) for (int thp = 0; thp < 2; ++thp) for (unsigned zero = 0; zero < 32; ++zero) {
        if (thp && (have % 5 || shut)) continue;
        if (zero && ((zero & have) != zero || thp || (zero & (zero - 1) && zero != 31u))) continue;
        if (!vh::begin(vh::fmt("prod ph=%d have=%02x mode=%s shut=%d thp=%d zero=%x", ph, have, PMODE[mode], shut, thp, zero))) continue;
        PLine l = { have, mode, shut != 0, thp != 0, zero };
        std::vector<Well> r = two(G);
        bool good = pline(r[0], l, ph);
        r[1].c.push_back(ctl(BHP, 70 * BAR, 0, 0, 0)); r[1].cur = 0;
        verdict(std::string("METRIC\n") + PH[ph] + SPEC + "WCONPROD\n" + ptext("A", l) + " B OPEN BHP 5* 70 /\n/\n", G, good, r, ph);
    }
    for (int ph = 0; ph < 3; ++ph) for (unsigned have = 0; have < 8; ++have) for (int mode = 0; mode < 6; ++mode) for (int type = 0; type < 3; ++type) for (int shut = 0; shut < 2; ++shut) for (int thp = 0; thp < 2; ++thp) for (unsigned zero = 0; zero < 4; ++zero) {
        if ((zero & have) != zero) continue;
        if (!vh::begin(vh::fmt("inj ph=%d have=%x mode=%s type=%s shut=%d thp=%d zero=%x", ph, have, IMODE[mode], ITYPE[type], shut, thp, zero))) continue;
        ILine l = { have, mode, type, shut != 0, thp != 0, zero };
        std::vector<Well> r = two(G);
        r[1].type = INJECTOR;
        bool good = iline(r[1], l, ph);
        r[0].c.push_back(ctl(BHP, 70 * BAR, 0, 0, 0)); r[0].cur = 0;
        verdict(std::string("METRIC\n") + PH[ph] + SPEC + "WCONINJE\n" + itext("B", l) + "/\nWCONPROD\n A OPEN BHP 5* 70 /\n/\n", G, good, r, ph);
    }
}

// --- keyword histories ---------------------------------------------------------------------------------
static void histories()
{
    const Grid& G = grid(0);
    // line alphabet: producer lines, injector lines and open/shut switches for two wells
    static const PLine PL[] = { { 0x01, 0, false, false }, { 0x32, 1, true, false }, { 0x10, 6, false, false } };
    static const ILine IL[] = { { 1, 0, 0, false, false }, { 6, 1, 1, true, false } };
    const int NA = 2 * 3 + 2 * 2 + 2 * 2;     // 14 symbols
    int D = vh::thorough() ? 4 : 3;
    for (int len = 1; len <= D; ++len) {
        std::vector<int> s(len, 0);
        do {
            std::string id = "hist ";
            for (int k = 0; k < len; ++k) id += (char)('a' + s[k]);
            if (!vh::begin(id)) continue;
            std::string pt, it, ot;
            std::vector<Well> r = two(G);
            bool isp[2] = { false, false }, isi[2] = { false, false }, good = true;
            for (int k = 0; k < len; ++k) {
                int w = s[k] & 1; const char* nm = w ? "B" : "A";
                if (s[k] < 6) { pt += ptext(nm, PL[s[k] / 2]); isp[w] = true; }
                else if (s[k] < 10) { it += itext(nm, IL[(s[k] - 6) / 2]); isi[w] = true; }
                else ot += std::string(" ") + nm + ((s[k] - 10) / 2 ? " SHUT /\n" : " OPEN /\n");
            }
            if (pt.empty() && it.empty()) good = false;          // no well has a control
            bool shut[2] = { false, false };
            for (int k = 0; k < len; ++k) { int w = s[k] & 1; if (s[k] < 6) { good = pline(r[w], PL[s[k] / 2], 0) && good; shut[w] = PL[s[k] / 2].shut; } }
            for (int k = 0; k < len; ++k) { int w = s[k] & 1; if (s[k] >= 6 && s[k] < 10) { const ILine& l = IL[(s[k] - 6) / 2]; if (isp[w]) good = false; good = iline(r[w], l, 0) && good; r[w].type = INJECTOR; shut[w] = l.shut; } }
            for (int w = 0; w < 2; ++w) if (!isp[w] && !isi[w]) r[w].type = -1;
            for (int k = 0; k < len; ++k) if (s[k] >= 10) shut[s[k] & 1] = (s[k] - 10) / 2;
            bool undefined = false;
            for (int k = 0; k < len; ++k) if (s[k] >= 10 && !isp[s[k] & 1] && !isi[s[k] & 1]) undefined = true;   // switching a well without controls
            if (good && undefined) { vh::outcome("skip"); continue; }
            for (int w = 0; w < 2; ++w) if (r[w].c.size()) { int c = r[w].cur; if (c < 0 && c != -1) c = ~c; if (c == -1 && r[w].cur == -1) { bool grup = true;
                    // -1 is either "no current control" (group control) or control 0 shut
                    for (int k = len - 1; k >= 0; --k) { if ((s[k] & 1) != w || s[k] >= 10) continue; if (isp[w] ? s[k] < 6 : true) { if (isp[w]) { grup = PL[s[k] / 2].mode == 6; } else grup = IL[(s[k] - 6) / 2].mode == 3; break; } }
                    if (!grup) c = 0; }
                r[w].cur = shut[w] && c >= 0 ? ~c : c; }
            std::string t = std::string("METRIC\n") + PH[0] + SPEC;
            if (!it.empty()) t += "WCONINJE\n" + it + "/\n";
            if (!pt.empty()) t += "WCONPROD\n" + pt + "/\n";
            if (!ot.empty()) t += "WELOPEN\n" + ot + "/\n";
            verdict(t, G, good, r, 0);
        } while (vh::next(s, NA));
    }
    struct Bad { const char* id; const char* text; bool good; } bad[] = {
        { "nocompdat", "WELSPECS\n A G 1 1 40 OIL /\n/\nWCONPROD\n A OPEN BHP 5* 70 /\n/\n", true },
        { "nothing", "", true },
        { "nocontrol", "WELSPECS\n A G 1 1 40 OIL /\n/\nCOMPDAT\n A 2* 1 1 OPEN 1* 2 /\n/\n", false },
        { "unknown prod", "WELSPECS\n A G 1 1 40 OIL /\n/\nCOMPDAT\n A 2* 1 1 OPEN 1* 2 /\n/\nWCONPROD\n Z OPEN BHP 5* 70 /\n/\n", false },
        { "unknown inj", "WELSPECS\n A G 1 1 40 OIL /\n/\nCOMPDAT\n A 2* 1 1 OPEN 1* 2 /\n/\nWCONINJE\n Z WATER OPEN BHP 2* 70 /\n/\n", false },
        { "unknown open", "WELSPECS\n A G 1 1 40 OIL /\n/\nCOMPDAT\n A 2* 1 1 OPEN 1* 2 /\n/\nWCONPROD\n A OPEN BHP 5* 70 /\n/\nWELOPEN\n Z SHUT /\n/\n", false },
        { "bad open", "WELSPECS\n A G 1 1 40 OIL /\n/\nCOMPDAT\n A 2* 1 1 OPEN 1* 2 /\n/\nWCONPROD\n A OPEN BHP 5* 70 /\n/\nWELOPEN\n A AJAR /\n/\n", false },
        { "weltarg", "WELSPECS\n A G 1 1 40 OIL /\n/\nCOMPDAT\n A 2* 1 1 OPEN 1* 2 /\n/\nWCONPROD\n A OPEN BHP 5* 70 /\n/\nWELTARG\n A BHP 10 /\n/\n", false },
    };
    for (auto& b : bad) {
        if (!vh::begin(std::string("case ") + b.id)) continue;
        std::string err, t = std::string("METRIC\n") + PH[0] + b.text;
        WM m = make(t, G, &err);
        VH_CHECK(!!m == b.good, b.good ? "refused" : "accepted", "%s:\n%s", b.id, t.c_str());
        if (m) VH_CHECK(m->empty() && m->c_wells() == 0, "empty", "wells without completions");
    }
    if (vh::begin("case 2d grid")) {
        UnstructuredGrid* g2 = create_grid_cart2d(2, 2, 1.0, 1.0);
        dk::Deck d = dk::parse(std::string("METRIC\n") + PH[0] + SPEC + "WCONPROD\n A OPEN BHP 5* 70 /\n B OPEN BHP 5* 70 /\n/\n");
        bool threw = false;
        double k[16] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 };
        try { Opm::WellsManager m(*d, *g2, k); } catch (...) { threw = true; }
        VH_CHECK(threw, "accepted", "two-dimensional grid accepted");
        destroy_grid(g2);
    }
}

void explore()
{
    dk::quiet();
    completions();
    many();
    controls();
    histories();
}
