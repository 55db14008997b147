// Group control: every small tree of groups and wells, target split, limit checking and reinjection.
#include "deck.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/wells/WellsManager.hpp>
#include <opm/core/wells/WellCollection.hpp>
#include <opm/core/wells/WellsGroup.hpp>
#include <opm/core/wells.h>
using namespace Opm;

static const double DAY = 86400, BAR = 1e5;
// phases of the deck: 0 all, 1 water and oil, 2 oil and gas; POS: position of a phase or -1
static int PH = 0, NP = 3, POS[3] = { 0, 1, 2 };
static void phaseset(int ph) { PH = ph; NP = ph ? 2 : 3; static const int P[3][3] = { { 0, 1, 2 }, { 0, 1, -1 }, { -1, 0, 1 } }; for (int p = 0; p < 3; ++p) POS[p] = P[ph][p]; }
static UnstructuredGrid* theGrid() { static UnstructuredGrid* g = create_grid_cart3d(5, 1, 1); return g; }

// kinds of wells
enum { PG, PO, IG, IO, PGS, NKIND };     // producer/injector under group or own control; PGS: shut, under group control
static bool isprod(int k) { return k == PG || k == PO || k == PGS; }
static bool isgrp(int k) { return k == PG || k == IG || k == PGS; }

struct Case {
    std::vector<int> parent;             // group tree: parent index of group g (g >= 1), group 0 is the top
    std::vector<int> wgroup, kind;       // per well
    std::vector<double> guide;           // <0: not given
    std::string gcp, gci;                // GCONPROD / GCONINJE records
    std::vector<std::string> wname, gname;
    std::string bhp;                     // own pressure limit of producers
    std::string resv, iresv;             // own reservoir rate limits of producers and injectors
    Case() : bhp("1*"), resv("1*"), iresv("1*") {}
};
static std::string deck(const Case& c)
{
    std::string t = std::string("METRIC\n") + (POS[0] >= 0 ? "WATER\n" : "") + "OIL\n" + (POS[2] >= 0 ? "GAS\n" : "");
    if (c.parent.size() > 1) {
        t += "GRUPTREE\n";
        for (size_t g = 1; g < c.parent.size(); ++g) t += " " + c.gname[g] + " " + c.gname[c.parent[g]] + " /\n";
        t += "/\n";
    }
    t += "WELSPECS\n";
    for (size_t w = 0; w < c.kind.size(); ++w) t += vh::fmt(" %s %s %d 1 10 OIL /\n", c.wname[w].c_str(), c.gname[c.wgroup[w]].c_str(), (int)w % 5 + 1);
    t += "/\nCOMPDAT\n";
    for (size_t w = 0; w < c.kind.size(); ++w) t += vh::fmt(" %s 4* OPEN 1* 2 /\n", c.wname[w].c_str());
    t += "/\n";
    std::string p, i, g;
    for (size_t w = 0; w < c.kind.size(); ++w) {
        const char* n = c.wname[w].c_str();
        if (isprod(c.kind[w])) p += vh::fmt(" %s %s %s 77 3* %s %s /\n", n, c.kind[w] == PGS ? "SHUT" : "OPEN", isgrp(c.kind[w]) ? "GRUP" : "ORAT", c.resv.c_str(), c.bhp.c_str());
        else i += vh::fmt(" %s %s OPEN %s 88 %s 400 /\n", n, PH == 2 ? "GAS" : "WATER", isgrp(c.kind[w]) ? "GRUP" : "RATE", c.iresv.c_str());
        if (c.guide[w] >= 0) g += vh::fmt(" %s YES %g %s /\n", n, c.guide[w], isprod(c.kind[w]) ? "OIL" : "RAT");
    }
    if (p.size()) t += "WCONPROD\n" + p + "/\n";
    if (i.size()) t += "WCONINJE\n" + i + "/\n";
    if (g.size()) t += "WGRUPCON\n" + g + "/\n";
    if (c.gcp.size()) t += "GCONPROD\n" + c.gcp + "/\n";
    if (c.gci.size()) t += "GCONINJE\n" + c.gci + "/\n";
    return t;
}
static double guide(const Case& c, int w) { return c.guide[w] >= 0 ? c.guide[w] : 1.0; }
static bool below(const Case& c, int g, int top) { while (true) { if (g == top) return true; if (g == 0) return false; g = c.parent[g]; } }

typedef std::unique_ptr<WellsManager> WM;
static WM make(const Case& c)
{
    static std::vector<double> perm(45, 0.0);
    for (int k = 0; k < 5; ++k) perm[9 * k] = perm[9 * k + 4] = perm[9 * k + 8] = 1e-13;
    WM m;
    dk::Deck d = dk::parse(deck(c));
    try { m.reset(new WellsManager(*d, *theGrid(), &perm[0])); } catch (const std::exception&) {}
    return m;
}

// observed controls of all wells
struct Snap { std::vector<int> cur; std::vector<std::vector<int> > type; std::vector<std::vector<double> > target; std::vector<std::vector<double> > distr; };
static Snap snap(const Wells* W)
{
    Snap s;
    for (int w = 0; w < W->number_of_wells; ++w) {
        const WellControls* c = W->ctrls[w];
        s.cur.push_back(c->current);
        s.type.push_back(std::vector<int>(c->type, c->type + c->num));
        s.target.push_back(std::vector<double>(c->target, c->target + c->num));
        s.distr.push_back(std::vector<double>(c->distr, c->distr + NP * c->num));
        for (int k = 0; k < c->num; ++k) if (c->type[k] == BHP) for (int p = 0; p < NP; ++p) s.distr.back()[NP * k + p] = 0;
    }
    return s;
}
static bool same(const Snap& a, const Snap& b, int w) { return a.cur[w] == b.cur[w] && a.type[w] == b.type[w] && a.target[w] == b.target[w] && a.distr[w] == b.distr[w]; }
static bool samelist(const Snap& a, const Snap& b, int w) { return a.type[w] == b.type[w] && a.target[w] == b.target[w] && a.distr[w] == b.distr[w]; }

// modes: production 0 oil 1 water 2 gas 3 liquid 4 reservoir; injection 5 surface 6 reservoir
static const char* MODE[] = { "ORAT", "WRAT", "GRAT", "LRAT", "RESV", "RATE", "RESV" };
static void phases(int m, double d[3]) { static const double D[7][3] = { { 0, 1, 0 }, { 1, 0, 0 }, { 0, 0, 1 }, { 1, 1, 0 }, { 1, 1, 1 }, { 1, 1, 1 }, { 1, 1, 1 } }; for (int p = 0; p < 3; ++p) if (POS[p] >= 0) d[POS[p]] = D[m][p]; }
static int wct(int m) { return m == 4 || m == 6 ? RESERVOIR_RATE : SURFACE_RATE; }

// the well's control k must be a group control in the mode with this target
static void groupctl(const Snap& s, int w, int k, int m, double target, const char* who, const std::string& text)
{
    double d[3]; phases(m, d);
    if (k < 0 || k >= (int)s.type[w].size()) { vh::fail("nogroup", "well %s has no group control from\n%s", who, text.c_str()); return; }
    VH_CHECK(s.type[w][k] == wct(m), "grouptype", "well %s group control has type %d for %s from\n%s", who, s.type[w][k], MODE[m], text.c_str());
    VH_CHECK(vh::close_to(s.target[w][k], target, 1e-12), "share", "well %s group target %.12g, expected %.12g from\n%s", who, s.target[w][k], target, text.c_str());
    for (int p = 0; p < NP; ++p) VH_CHECK(s.distr[w][NP * k + p] == d[p], "groupdistr", "well %s phase %d weight %g for %s from\n%s", who, p, s.distr[w][NP * k + p], MODE[m], text.c_str());
}
static std::string name(const char* pre, int k) { return vh::fmt("%s%d", pre, k); }

static void names(Case& c, int order)
{
    // order of the names decides the order in which the tree is put together
    c.gname.clear(); c.wname.clear();
    int n = c.parent.size();
    if (n > 5 || c.kind.size() > 6) {       // W1, W10, W11, ... or the last first
        for (int g = 0; g < n; ++g) c.gname.push_back(g == 0 ? (order == 2 ? "AFIELD" : "FIELD") : name("G", order ? n - g : g));
        for (size_t w = 0; w < c.kind.size(); ++w) c.wname.push_back(name("W", order ? c.kind.size() - w : w + 1));
        return;
    }
    for (int g = 0; g < n; ++g) c.gname.push_back(g == 0 ? (order == 2 ? "AFIELD" : "FIELD") : vh::fmt("G%c", order ? 'Z' - g : 'A' + g));
    for (size_t w = 0; w < c.kind.size(); ++w) c.wname.push_back(vh::fmt("W%c", order ? 'Z' - (int)w : 'A' + (int)w));
}

// group control set up at construction: pm, im production / injection modes at groups pg, ig (-1 none)
static void split(Case c, int pg, int pm, int ig, int im, const char* rest)
{
    const double PT = 900, IT = 1200;
    if (pg >= 0) c.gcp += " " + c.gname[pg] + " " + MODE[pm] + (pm == 0 ? " 900 3* RATE /\n" : pm == 1 ? " 1* 900 2* RATE /\n" : pm == 3 ? " 3* 900 RATE /\n" : " 4* NONE 6* 900 /\n");
    if (ig >= 0) c.gci += " " + c.gname[ig] + (PH == 2 ? " GAS " : " WATER ") + MODE[im] + (im == 5 ? " 1200 /\n" : " 1* 1200 /\n");
    // the last record of a group counts
    if (pg >= 0 && (pm + pg) % 2) c.gcp = " " + c.gname[pg] + (pm == 0 ? " LRAT 3* 55 RATE /\n" : " ORAT 44 3* RATE /\n") + c.gcp;
    if (ig >= 0 && (im + ig) % 2) c.gci = " " + c.gname[ig] + (im == 5 ? " OIL RESV 1* 5 /\n" : " GAS RATE 7 /\n") + c.gci;
    std::string text = deck(c);
    int nw = c.kind.size();
    double ps = 0, is = 0;
    for (int w = 0; w < nw; ++w) {
        if (pg >= 0 && isprod(c.kind[w]) && isgrp(c.kind[w]) && below(c, c.wgroup[w], pg)) ps += guide(c, w);
        if (ig >= 0 && !isprod(c.kind[w]) && isgrp(c.kind[w]) && below(c, c.wgroup[w], ig)) is += guide(c, w);
    }
    if (ig >= 0 && is == 0) { vh::outcome("skip"); return; }    // no injector to give the target to: not specified
    WM m = make(c);
    vh::tr();
    if (pg >= 0 && ps == 0) { VH_CHECK(!m, "accepted", "group target without any producer accepted from\n%s", text.c_str()); vh::outcome("refused"); return; }
    if (!m) { vh::fail("refused", "refused:\n%s", text.c_str()); return; }
    const Wells* W = m->c_wells();
    const WellCollection& wc = m->wellCollection();
    // the tree
    VH_CHECK((int)wc.getLeafNodes().size() == nw, "tree", "%d well nodes from\n%s", (int)wc.getLeafNodes().size(), text.c_str());
    for (int w = 0; w < nw && w < (int)wc.getLeafNodes().size(); ++w) {
        WellNode* n = wc.getLeafNodes()[w];
        VH_CHECK(n->name() == c.wname[w] && n->isLeafNode() && n->numberOfLeafNodes() == 1 && wc.findNode(c.wname[w]) == n, "tree", "node %d is %s", w, n->name().c_str());
        const WellsGroupInterface* q = n->getParent();
        int g = c.wgroup[w];
        while (q) {
            VH_CHECK(const_cast<WellsGroupInterface*>(q)->name() == c.gname[g] && q == wc.findNode(c.gname[g]) && !q->isLeafNode(), "tree", "ancestor of %s is %s, expected %s", c.wname[w].c_str(), const_cast<WellsGroupInterface*>(q)->name().c_str(), c.gname[g].c_str());
            if (g == 0) { VH_CHECK(!q->getParent(), "tree", "top group has a parent"); break; }
            g = c.parent[g]; q = q->getParent();
            VH_CHECK(q != 0, "tree", "group without a parent from\n%s", text.c_str());
        }
        VH_CHECK(n->type() == (isprod(c.kind[w]) ? PRODUCER : INJECTOR), "tree", "type of well %d", w);
    }
    for (size_t g = 0; g < c.parent.size(); ++g) {
        int cnt = 0;
        for (int w = 0; w < nw; ++w) cnt += below(c, c.wgroup[w], g);
        const WellsGroupInterface* q = wc.findNode(c.gname[g]);
        if (!q) { VH_CHECK(cnt == 0 && c.parent.size() == 1, "tree", "group %s not found", c.gname[g].c_str()); continue; }
        VH_CHECK(const_cast<WellsGroupInterface*>(q)->numberOfLeafNodes() == cnt, "tree", "group %s has %d wells, expected %d from\n%s", c.gname[g].c_str(), const_cast<WellsGroupInterface*>(q)->numberOfLeafNodes(), cnt, text.c_str());
    }
    // the wells
    Snap s = snap(W);
    double tot[2] = { 0, 0 };
    for (int w = 0; w < nw; ++w) {
        bool p = isprod(c.kind[w]), g = isgrp(c.kind[w]);
        bool under = g && (p ? pg >= 0 && below(c, c.wgroup[w], pg) : ig >= 0 && below(c, c.wgroup[w], ig));
        int own = 2;
        if (!under) {
            VH_CHECK((int)s.type[w].size() == own, "touched", "well %s has %d controls, expected its own %d only, from\n%s", c.wname[w].c_str(), (int)s.type[w].size(), own, text.c_str());
            VH_CHECK(s.cur[w] == (g ? -1 : 0), "touched", "well %s has current control %d from\n%s", c.wname[w].c_str(), s.cur[w], text.c_str());
        } else {
            double t = p ? -PT / DAY * guide(c, w) / ps : IT / DAY * guide(c, w) / is;
            VH_CHECK((int)s.type[w].size() == own + 1, "groupcount", "well %s has %d controls from\n%s", c.wname[w].c_str(), (int)s.type[w].size(), text.c_str());
            groupctl(s, w, own, p ? pm : im, t, c.wname[w].c_str(), text);
            int cur = c.kind[w] == PGS ? ~own : own;
            VH_CHECK(s.cur[w] == cur, "current", "well %s current control %d, expected %d from\n%s", c.wname[w].c_str(), s.cur[w], cur, text.c_str());
            if ((int)s.type[w].size() > own) tot[!p] += s.target[w][own];
        }
        if (s.type[w].size() >= 2) VH_CHECK(vh::close_to(s.target[w][0], (p ? -77 : 88) / DAY, 1e-12), "own", "own limit of well %s changed", c.wname[w].c_str());
    }
    if (pg >= 0) VH_CHECK(vh::close_to(tot[0], -PT / DAY, 1e-12), "sum", "producer targets sum to %.12g from\n%s", tot[0], text.c_str());
    if (ig >= 0) VH_CHECK(vh::close_to(tot[1], IT / DAY, 1e-12), "sum", "injector targets sum to %.12g from\n%s", tot[1], text.c_str());
    vh::outcome(vh::fmt("%g %g", tot[0], tot[1]));
    if (nw > 2 && ps > 2) vh::sample(text);
}

static const int TREES[][4] = { { 0, -1, -1, -1 }, { 0, 0, -1, -1 }, { 0, 0, 0, -1 }, { 0, 0, 1, -1 }, { 0, 0, 1, 1 }, { 0, 0, 1, 2 }, { 0, 0, 0, 2 } };
static Case tree(int t) { Case c; for (int k = 0; k < 4 && TREES[t][k] >= 0; ++k) c.parent.push_back(TREES[t][k]); return c; }

static void splits()
{
    int NT = vh::thorough() ? 7 : 6, maxw = vh::thorough() ? 4 : 3;
    for (int t = 0; t < NT; ++t) for (int nw = 1; nw <= maxw; ++nw) {
        Case c0 = tree(t);
        int ng = c0.parent.size();
        if (nw == 4 && ng == 4) continue;
        if (nw == 3 && !vh::thorough() && (t == 1 || t == 5)) continue;
        std::vector<int> place(nw, 0);
        do {
            std::vector<int> kind(nw, 0);
            do {
                // wells in the same group are interchangeable up to order: keep all orders for two wells only
                for (int gd = nw > 2 && !vh::thorough(); gd < (nw > 2 ? 2 : 3); ++gd) for (int ord = 0; ord < 3; ++ord) {
                    if (nw >= 3 && ord != (place[0] + kind[1] + gd) % 3) continue;
                    std::string id = vh::fmt("split t=%d w=", t);
                    for (int w = 0; w < nw; ++w) id += vh::fmt("%d%c", place[w], "pPiIs"[kind[w]]);
                    id += vh::fmt(" g=%d o=%d", gd, ord);
                    Case c = c0;
                    c.wgroup = place; c.kind = kind;
                    for (int w = 0; w < nw; ++w) c.guide.push_back(gd == 0 ? -1 : gd == 1 ? 1.5 * (w + 1) : (w ? -1 : 0.25));
                    names(c, ord);
                    // groups which exist in the tree
                    for (int pg = -1; pg < ng; ++pg) for (int ig = -1; ig < ng; ++ig) {
                        int h = (pg + 2) * 7 + ig + 3 * place[0] + kind[0] + nw;
                        static const int PM[] = { 0, 1, 3, 4 };
                        phaseset(nw < 3 || vh::thorough() ? 0 : (place[1] + kind[2] + ord) % 3);
                        if (PH == 2 && pg >= 0 && (PM[h % 4] == 1 || PM[h % 4] == 3)) phaseset(0);
                        if (nw >= 3 && pg >= 0 && ig >= 0 && pg != ig && !vh::thorough()) continue;
                        if (!vh::begin(id + vh::fmt(" pg=%d ig=%d", pg, ig))) continue;
                        split(c, pg, PM[h % 4], ig, 5 + h % 2, "");
                    }
                }
            } while (vh::next(kind, nw == 3 && !vh::thorough() ? 4 : NKIND));
        } while (vh::next(place, ng));
    }
    // all modes on fixed trees
    for (int ph = 0; ph < 3; ++ph) for (int tr = 3; tr < 7; ++tr) for (int pm = 0; pm < 5; ++pm) for (int im = 5; im < 7; ++im) {
        if (pm == 2 || (ph == 2 && (pm == 1 || pm == 3)) || !vh::begin(vh::fmt("modes %s %s%d tree %d phases %d", MODE[pm], MODE[im], im, tr, ph))) continue;
        phaseset(ph);
        Case c = tree(tr);
        c.wgroup = { 2, 1, 0, 2, 2 }; c.kind = { PG, PG, PG, IG, IG }; c.guide = { 3, -1, 2, 1, 7 };
        names(c, 0);
        split(c, 0, pm, 2, im, "");
    }
    phaseset(0);
}

// --- limit checking: all histories of well rates ---------------------------------------------------------
struct Sys {
    Case c;
    struct Lim { int g, mode; double v; int proc; };   // proc 0 none 1 rate 2 well (production)
    std::vector<Lim> lim;
};
struct Active { std::vector<int> pm, im; };        // per group: the limit it is held at by itself, -1 none
struct Rates { std::vector<double> bhp, res, surf; };

static double rate(const Rates& r, int w, int m) { double d[3], s = 0; phases(m, d); const std::vector<double>& v = wct(m) == RESERVOIR_RATE ? r.res : r.surf; for (int p = 0; p < NP; ++p) s += d[p] * v[NP * w + p]; return s; }

static int specmode(const WellsGroupInterface* n, int m)
{
    static const int P[] = { ProductionSpecification::ORAT, ProductionSpecification::WRAT, ProductionSpecification::GRAT, ProductionSpecification::LRAT, ProductionSpecification::RESV };
    if (m < 5) return (int)n->prodSpec().control_mode_ == P[m];
    return (int)n->injSpec().control_mode_ == (m == 5 ? InjectionSpecification::RATE : InjectionSpecification::RESV);
}

// one call, judged against the limits; grp[w]: index of the well's group control or -1
static bool step(const Sys& S, WellsManager& m, std::vector<int>& grp, Active& act, const Rates& r, const std::string& what)
{
    const Case& c = S.c;
    const int nw = c.kind.size();
    Snap a = snap(m.c_wells());
    struct V { int kind, w, k, l; };     // 0 well limit, 1 group limit
    std::vector<V> viol;
    for (int w = 0; w < nw; ++w) {
        if (a.cur[w] < 0) continue;
        for (size_t k = 0; k < a.type[w].size(); ++k) {
            if ((int)k == a.cur[w] || (int)k == grp[w]) continue;
            bool bad;
            if (a.type[w][k] == BHP) bad = isprod(c.kind[w]) ? r.bhp[w] < a.target[w][k] : r.bhp[w] > a.target[w][k];
            else {
                double x = 0;
                for (int p = 0; p < NP; ++p) x += a.distr[w][NP * k + p] * (a.type[w][k] == RESERVOIR_RATE ? r.res : r.surf)[NP * w + p];
                bad = std::fabs(x) > std::fabs(a.target[w][k]) * (1 + 1e-6);
            }
            if (bad) { V v = { 0, w, (int)k, -1 }; viol.push_back(v); }
        }
    }
    for (size_t l = 0; l < S.lim.size(); ++l) {
        const Sys::Lim& L = S.lim[l];
        if (L.mode < 5 && L.proc == 0) continue;
        if ((L.mode < 5 ? act.pm : act.im)[L.g] == L.mode) continue;
        double x = 0;
        for (int w = 0; w < nw; ++w) if (below(c, c.wgroup[w], L.g) && isprod(c.kind[w]) == (L.mode < 5)) x += rate(r, w, L.mode);
        if (std::fabs(x) > L.v) { V v = { 1, -1, -1, (int)l }; viol.push_back(v); }
    }
    bool met = m.conditionsMet(r.bhp, r.res, r.surf);
    vh::tr();
    Snap b = snap(m.c_wells());
    int changed = 0, cw = -1;
    for (int w = 0; w < nw; ++w) if (!same(a, b, w)) { ++changed; cw = w; }
    if (met != viol.empty()) { vh::fail("verdict", "%s: reported %s with %d violated limits", what.c_str(), met ? "met" : "not met", (int)viol.size()); return met; }
    if (met) { VH_CHECK(changed == 0, "changed", "%s: controls of well %d changed although all limits are met", what.c_str(), cw); return met; }
    // exactly one of the violated limits must have been dealt with
    for (size_t q = 0; q < viol.size(); ++q) {
        const V& v = viol[q];
        if (v.kind == 0) {
            if (changed == 1 && cw == v.w && samelist(a, b, v.w) && b.cur[v.w] == v.k) return met;
            continue;
        }
        const Sys::Lim& L = S.lim[v.l];
        bool inner = false;      // limits of wells below the group come first
        for (size_t o = 0; o < viol.size(); ++o) {
            if (viol[o].kind == 0 && below(c, c.wgroup[viol[o].w], L.g)) inner = true;
            if (viol[o].kind == 1 && S.lim[viol[o].l].g != L.g && below(c, S.lim[viol[o].l].g, L.g)) inner = true;
        }
        if (inner) continue;
        if (L.mode < 5 && L.proc == 2) {
            double worst = 0;
            for (int w = 0; w < nw; ++w) if (below(c, c.wgroup[w], L.g) && isprod(c.kind[w])) worst = std::max(worst, std::fabs(rate(r, w, L.mode)));
            if (changed == 1 && below(c, c.wgroup[cw], L.g) && isprod(c.kind[cw]) && std::fabs(rate(r, cw, L.mode)) == worst
                && a.cur[cw] >= 0 && b.cur[cw] == ~a.cur[cw] && samelist(a, b, cw)) return met;
            continue;
        }
        // all wells of the group share the limit by their guide rates
        double gs = 0;
        bool ok = true, reopened = false;
        for (int w = 0; w < nw; ++w) if (below(c, c.wgroup[w], L.g) && isprod(c.kind[w]) == (L.mode < 5)) gs += guide(c, w);
        std::vector<int> ng = grp;
        for (int w = 0; w < nw && ok; ++w) {
            bool in = below(c, c.wgroup[w], L.g) && isprod(c.kind[w]) == (L.mode < 5);
            if (!in) { ok = same(a, b, w); continue; }
            int k = grp[w] >= 0 ? grp[w] : a.type[w].size();
            ng[w] = k;
            double t = (L.mode < 5 ? -1 : 1) * L.v * guide(c, w) / gs;
            if (k >= (int)b.type[w].size()) { ok = false; break; }
            double d[3]; phases(L.mode, d);
            ok = b.type[w][k] == wct(L.mode) && vh::close_to(b.target[w][k], t, 1e-12) && (int)b.type[w].size() == k + 1
                 ;
            for (int f = 0; f < NP && ok; ++f) ok = b.distr[w][NP * k + f] == d[f];
            for (int q = 0; q < k && ok; ++q) ok = b.type[w][q] == a.type[w][q] && b.target[w][q] == a.target[w][q];
            if (a.cur[w] < 0) { if (b.cur[w] >= 0) reopened = true; else ok = ok && b.cur[w] == ~k; }
            else ok = ok && b.cur[w] == k;
        }
        if (ok) {
            grp = ng;
            // the group is now held at this limit, and no longer those below it at theirs
            for (size_t g = 0; g < c.parent.size(); ++g) if (below(c, g, L.g)) (L.mode < 5 ? act.pm : act.im)[g] = (int)g == L.g ? L.mode : -1;
            VH_CHECK(specmode(m.wellCollection().findNode(c.gname[L.g]), L.mode), "mode", "%s: group %s is not in mode %s after its limit was applied", what.c_str(), c.gname[L.g].c_str(), MODE[L.mode]);
            if (reopened) vh::fail("reopen", "%s: applying the limit of group %s opened a shut well", what.c_str(), c.gname[L.g].c_str());
            return met;
        }
    }
    std::string s;
    for (int w = 0; w < nw; ++w) { s += vh::fmt(" %s: %d->%d [", c.wname[w].c_str(), a.cur[w], b.cur[w]); for (size_t k = 0; k < b.target[w].size(); ++k) s += vh::fmt("%g ", b.target[w][k] * DAY); s += "]"; }
    vh::fail("action", "%s: none of the %d violated limits was dealt with as specified;%s\n%s", what.c_str(), (int)viol.size(), s.c_str(), deck(c).c_str());
    return met;
}

static void limits()
{
    struct Cfg { int tree; std::vector<int> wg, kind; std::vector<Sys::Lim> lim; };
    std::vector<Cfg> cfgs;
    for (int proc = 0; proc < 3; ++proc) for (int mode = 0; mode < 5; ++mode) {
        if (mode == 4 && proc == 2) {}
        cfgs.push_back({ 1, { 1, 1 }, { PO, PO }, { { 1, mode, 100 / DAY, proc } } });
        cfgs.push_back({ 2, { 1, 2, 1 }, { PO, PO, IO }, { { 0, mode, 100 / DAY, proc } } });
    }
    for (int im = 5; im < 7; ++im) {
        cfgs.push_back({ 1, { 1, 1 }, { IO, IO }, { { 1, im, 100 / DAY, 0 } } });
        cfgs.push_back({ 3, { 2, 1, 1 }, { IO, IO, PO }, { { 1, im, 100 / DAY, 0 }, { 0, 0, 60 / DAY, 1 } } });
    }
    cfgs.push_back({ 3, { 2, 2, 1 }, { PO, PO, PO }, { { 2, 0, 90 / DAY, 1 }, { 0, 0, 120 / DAY, 1 } } });
    cfgs.push_back({ 3, { 2, 2, 1 }, { PO, PO, PO }, { { 2, 0, 90 / DAY, 2 }, { 1, 3, 120 / DAY, 1 } } });
    cfgs.push_back({ 2, { 1, 1, 2 }, { PO, PO, PO }, { { 1, 1, 70 / DAY, 2 }, { 0, 0, 120 / DAY, 2 } } });
    const size_t shallow = cfgs.size();
    // three steps with fewer rates: nested groups, limits of zero, several limits of one group
    for (int proc = 1; proc < 3; ++proc) {
        cfgs.push_back({ 3, { 2, 1 }, { PO, PO }, { { 2, 0, 60 / DAY, proc }, { 0, 0, 100 / DAY, 1 } } });
        cfgs.push_back({ 3, { 2, 2 }, { PO, PO }, { { 2, 3, 90 / DAY, 1 }, { 1, 0, 50 / DAY, proc }, { 2, 0, 70 / DAY, 1 } } });
        cfgs.push_back({ 2, { 1, 2 }, { PO, PO }, { { 1, 4, 70 / DAY, proc }, { 0, 0, 60 / DAY, 1 } } });
        for (int mode = 0; mode < 5; ++mode) for (int zero = 0; zero < 2; ++zero) cfgs.push_back({ 1, { 1, 1 }, { PO, PO }, { { 1, mode, zero ? 0 : 80 / DAY, proc } } });
    }
    for (int im = 5; im < 7; ++im) {
        cfgs.push_back({ 3, { 2, 1 }, { IO, IO }, { { 2, im, 60 / DAY, 0 }, { 0, 11 - im, 100 / DAY, 0 } } });
        cfgs.push_back({ 1, { 1, 1 }, { IO, PO }, { { 1, im, 0, 0 } } });
        cfgs.push_back({ 3, { 2, 1 }, { IO, PO }, { { 1, im, 60 / DAY, 0 }, { 0, 4, 70 / DAY, 2 } } });
    }
    for (size_t q = 0; q < cfgs.size(); ++q) for (int guides = 0; guides < 2; ++guides) {
        const bool deep = q >= shallow;
        int D = vh::thorough() || deep ? 3 : 2;
        bool gas = false, water = false;
        for (size_t l = 0; l < cfgs[q].lim.size(); ++l) { gas = gas || cfgs[q].lim[l].mode == 2; water = water || cfgs[q].lim[l].mode == 1 || cfgs[q].lim[l].mode == 3; }
        phaseset(q % 3 == 1 && !gas ? 1 : q % 3 == 2 && !water ? 2 : 0);
        Sys S;
        S.c = tree(cfgs[q].tree);
        S.c.wgroup = cfgs[q].wg; S.c.kind = cfgs[q].kind; S.lim = cfgs[q].lim;
        S.c.bhp = "50";
        if (guides) { S.c.resv = vh::fmt("%.10g", 165 / (1 + 1e-4)); S.c.iresv = vh::fmt("%.10g", 88 / (1 + 1e-4)); }
        int nw = S.c.kind.size();
        for (int w = 0; w < nw; ++w) S.c.guide.push_back(guides ? 1.0 + 2 * w : -1);
        names(S.c, guides);
        for (size_t l = 0; l < S.lim.size(); ++l) {
            const Sys::Lim& L = S.lim[l];
            const char* pr[] = { "NONE", "RATE", "WELL" };
            bool first = true;
            for (size_t o = 0; o < l; ++o) if (S.lim[o].g == L.g && (S.lim[o].mode < 5) == (L.mode < 5)) first = false;
            if (!first) continue;                           // one record with all limits of the group
            double v[7] = { -1, -1, -1, -1, -1, -1, -1 };
            for (size_t o = l; o < S.lim.size(); ++o) if (S.lim[o].g == L.g) v[S.lim[o].mode] = S.lim[o].v * DAY;
            auto o = [](double x) { return x < 0 ? std::string(" 1*") : vh::fmt(" %.17g", x); };
            if (L.mode < 5) S.c.gcp += " " + S.c.gname[L.g] + " NONE" + o(v[0]) + o(v[1]) + o(v[2]) + o(v[3]) + " " + pr[L.proc] + (v[4] < 0 ? std::string() : " 6*" + o(v[4])) + " /\n";
            else S.c.gci += " " + S.c.gname[L.g] + (PH == 2 ? " GAS" : " WATER") + " NONE" + o(v[5]) + o(v[6]) + " /\n";
        }
        // rate alphabet per well: what it does in a step
        // 0 nothing flows, 1 small, 2 large, 3 over its own limit, 4 at its current target, 5 small with violated pressure
        const int full[] = { 0, 1, 2, 3, 4, 5 }, few[] = { 2, 3, 4, 5 };
        const int NR = deep ? 4 : 6;
        const int* const ALPHA = deep ? few : full;
        int total = 1;
        for (int k = 0; k < D * nw; ++k) total *= NR;
        for (int h = 0; h < total; ++h) {
            if (nw == 3 && !vh::thorough() && !deep) {      // second step restricted
                int z = h, last[3], first[3];
                for (int w = 0; w < 3; ++w) { first[w] = z % NR; z /= NR; }
                for (int w = 0; w < 3; ++w) { last[w] = z % NR; z /= NR; }
                bool keep = true;
                for (int w = 0; w < 3; ++w) if (last[w] == 5 || last[w] <= 1 || first[w] == 1) keep = false;
                if (!keep) continue;
            }
            if (nw == 3 && vh::thorough() && !deep) { int z = h; bool keep = true; for (int k = 0; k < D * nw; ++k, z /= NR) if (k >= nw && (z % NR == 0 || z % NR == 1 || z % NR == 5)) keep = false; if (!keep) continue; }
            if (!vh::begin(vh::fmt("limits c=%d g=%d h=%d", (int)q, guides, h))) continue;
            WM m = make(S.c);
            if (!m) { vh::fail("refused", "refused:\n%s", deck(S.c).c_str()); continue; }
            for (size_t l = 0; l < S.lim.size(); ++l) {
                const WellsGroupInterface* n = m->wellCollection().findNode(S.c.gname[S.lim[l].g]);
                if (S.lim[l].mode == 2) VH_CHECK(vh::close_to(n->prodSpec().gas_max_rate_, S.lim[l].v, 1e-12), "spec", "gas limit of the group");
                if (S.lim[l].mode == 3) VH_CHECK(vh::close_to(n->prodSpec().liquid_max_rate_, S.lim[l].v, 1e-12), "spec", "liquid limit of the group");
            }
            std::vector<int> grp(nw, -1);
            Active act; act.pm.assign(S.c.parent.size(), -1); act.im = act.pm;
            int z = h;
            std::string log;
            for (int k = 0; k < D; ++k) {
                Rates r;
                r.bhp.assign(nw, 0); r.res.assign(NP * nw, 0); r.surf.assign(NP * nw, 0);
                const Wells* W = m->c_wells();
                for (int w = 0; w < nw; ++w, z /= NR) {
                    int a = ALPHA[z % NR];
                    bool p = isprod(S.c.kind[w]);
                    double s = p ? -1 : 1;
                    r.bhp[w] = (p ? 70 : 300) * BAR;
                    static const double FR[3][3] = { { 0.25, 0.5, 0.25 }, { 0.5, 0.5, 0 }, { 0.5, 0.5, 0 } };
                    const double* frac = FR[PH];
                    double tot = 0;
                    const WellControls* ct = W->ctrls[w];
                    if (a == 1 || a == 5) tot = (10 + 2 * w) / DAY;
                    if (a == 2) tot = (75 - 3 * w) / DAY;
                    if (a == 3) tot = (deep ? (p ? (guides ? 150 : 2 * 77 * (1 + 1e-4)) : guides ? 80 : 88 * (1 + 1e-4)) : 190 + w) / DAY;     // well over, or just over, a limit of its own
                    if (a == 4 && ct->current >= 0 && ct->type[ct->current] != BHP) {
                        double wt = 0;
                        for (int f = 0; f < NP; ++f) wt += frac[f] * ct->distr[NP * ct->current + f];
                        tot = std::fabs(ct->target[ct->current]) / wt * (1 + 1e-13);
                    }
                    if (ct->current < 0) tot = 0;
                    if (a == 5) r.bhp[w] = (p ? 40 : 450) * BAR;
                    for (int f = 0; f < NP; ++f) { r.surf[NP * w + f] = s * tot * frac[f]; r.res[NP * w + f] = s * tot * frac[f] * 1.1; }
                    log += vh::fmt("%d", a);
                }
                step(S, *m, grp, act, r, "step " + log);
                log += "/";
            }
            vh::outcome(vh::fmt("%d %d %d", (int)q, m->c_wells()->ctrls[0]->current, m->c_wells()->ctrls[nw - 1]->current));
        }
    }
}

// --- larger collections ------------------------------------------------------------------------------------
// tree 0: a chain of groups, 1: all below the top, 2: three below each
static Case bigtree(int kind, int n)
{
    Case c;
    for (int g = 0; g < n; ++g) c.parent.push_back(g == 0 ? 0 : kind == 0 ? g - 1 : kind == 1 ? 0 : (g - 1) / 3);
    return c;
}
static void many()
{
    for (int t = 0; t < 3; ++t) for (int ng = 6; ng <= 18; ng += 6) for (int nw = 7; nw <= 37; nw += 10) for (int ord = 0; ord < 3; ++ord) for (int top = 0; top < 4; ++top) {
        const int pg = top == 0 ? 0 : top == 1 ? 1 : top == 2 ? -1 : ng / 2, ig = top == 0 ? -1 : top == 1 ? 0 : top == 2 ? 1 : ng / 2;
        if (!vh::begin(vh::fmt("many %d groups %d wells %d order %d top %d", t, ng, nw, ord, top))) continue;
        phaseset((t + ord) % 2);
        Case c = bigtree(t, ng);
        for (int w = 0; w < nw; ++w) { c.wgroup.push_back((w * 5 + t) % ng); c.kind.push_back((w * (ord + 1) + top) % NKIND); c.guide.push_back(w % 4 == 3 ? -1 : 0.25 * (1 + w % 7)); }
        names(c, ord);
        static const int PM[] = { 0, 1, 3, 4 };
        split(c, pg, PM[(nw / 10 + t) % 4], ig, 5 + ord % 2, "");
    }
    for (int t = 0; t < 3; ++t) for (int proc = 1; proc < 3; ++proc) for (int nw = 8; nw <= 20; nw += 6) for (int mode = 0; mode < 5; ++mode) for (int ord = 0; ord < 2; ++ord) for (int pat = 0; pat < 36; ++pat) {
        if (!vh::begin(vh::fmt("manylimits %d proc %d wells %d mode %d order %d rates %d", t, proc, nw, mode, ord, pat))) continue;
        phaseset(0);
        Sys S; S.c = bigtree(t, 7); S.c.bhp = "50";
        for (int w = 0; w < nw; ++w) { S.c.wgroup.push_back((w * 3 + t) % 7); S.c.kind.push_back(w % 5 == 4 ? IO : PO); S.c.guide.push_back(ord ? 1.0 + w % 3 : -1); }
        names(S.c, ord);
        const Sys::Lim L = { pat % 2 ? 1 : 0, mode, (6 * nw) / DAY, proc };
        S.lim.push_back(L);
        auto o = [](double x) { return x < 0 ? std::string(" 1*") : vh::fmt(" %.17g", x); };
        double v[5] = { -1, -1, -1, -1, -1 }; v[mode] = L.v * DAY;
        S.c.gcp += " " + S.c.gname[L.g] + " NONE" + o(v[0]) + o(v[1]) + o(v[2]) + o(v[3]) + (proc == 1 ? " RATE" : " WELL") + (v[4] < 0 ? std::string() : " 6*" + o(v[4])) + " /\n";
        WM m = make(S.c);
        if (!m) { vh::fail("refused", "refused:\n%s", deck(S.c).c_str()); continue; }
        std::vector<int> grp(nw, -1);
        Active act; act.pm.assign(S.c.parent.size(), -1); act.im = act.pm;
        int z = pat / 2;
        std::string log;
        for (int k = 0; k < 4; ++k) {
            const int a = k == 0 ? z % 3 : k == 1 ? z / 3 % 6 : (z + k) % 6;
            Rates r; r.bhp.assign(nw, 0); r.res.assign(NP * nw, 0); r.surf.assign(NP * nw, 0);
            for (int w = 0; w < nw; ++w) {
                const bool p = isprod(S.c.kind[w]);
                r.bhp[w] = (p ? 70 : 300) * BAR;
                double tot = (a == 0 ? 2 + 0.125 * ((w * 7) % nw) : a == 1 ? 40 + ((w * 7 + 3) % nw) : a == 2 ? (w == nw - 2 ? 150 : 5 + 0.25 * w) : a == 3 ? 30 + (w * 5 + 1) % nw : a == 4 ? (w == 0 ? 145 : 20 + 0.5 * w) : 60 - w) / DAY;
                if (a == 5 && w == nw / 2 && p) r.bhp[w] = 40 * BAR;
                if (m->c_wells()->ctrls[w]->current < 0) tot = 0;
                static const double frac[3] = { 0.25, 0.5, 0.25 };
                for (int f = 0; f < NP; ++f) { r.surf[NP * w + f] = (p ? -1 : 1) * tot * frac[f]; r.res[NP * w + f] = (p ? -1 : 1) * tot * frac[f] * 1.1; }
            }
            log += vh::fmt("%d", a);
            step(S, *m, grp, act, r, "step " + log);
        }
        vh::outcome(vh::fmt("many %d %d", m->c_wells()->ctrls[0]->current, m->c_wells()->ctrls[nw - 1]->current));
    }
    phaseset(0);
}

// --- reinjection: one or two groups replace what they produce; groups above say they are controlled from above ---
static void reinjection()
{
    const double vals[] = { 0, 40, 130 };
    static const double FR[] = { 1.0, 0.75, 1.5, 0 };
    for (int ph = 0; ph < 3; ++ph) for (int t = 1; t < 7; ++t) for (int g = 0; g < (int)tree(t).parent.size(); ++g) for (int g2 = -1; g2 < (int)tree(t).parent.size(); ++g2)
    for (int mode = 0; mode < 2; ++mode) for (int type = 0; type < 3; ++type) for (int fr = 0; fr < 4; ++fr) for (int fld = 0; fld < 2; ++fld) {
        phaseset(ph);
        Case c0 = tree(t);
        int ng = c0.parent.size();
        if (POS[type] < 0 || (mode == 1 && type != 1) || (g2 >= 0 && (below(c0, g, g2) || below(c0, g2, g)))) continue;
        if (!vh::thorough() && ((t > 4 && (g2 < 0 || fr != 2)) || (ph && (fr + t + fld) % 2) || (fld && (fr == 3 || g == 0)) || (fr == 3 && t > 2))) continue;
        std::vector<int> place(4, 0);
        do {
            Case c = c0;
            c.wgroup = place;
            c.kind = { PO, IG, PO, t % 2 ? IG : IO };
            if (g2 >= 0) c.kind[3] = IG;
            c.guide = { -1, 2, -1, 5 };
            names(c, (t + g) % 3);
            static const char* T[] = { "WATER", "OIL", "GAS" };
            const int G[2] = { g, g2 }, md[2] = { mode, 1 - mode };
            const double f[2] = { FR[fr], fr == 1 ? 1.5 : 0.75 };
            double is[2] = { 0, 0 };
            for (int q = 0; q < 2; ++q) if (G[q] >= 0) {
                c.gci += " " + c.gname[G[q]] + " " + T[type] + (md[q] ? " VREP 3*" : " REIN 2*") + vh::fmt(" %g /\n", f[q]);
                for (int w = 0; w < 4; ++w) if (c.kind[w] == IG && below(c, c.wgroup[w], G[q])) is[q] += guide(c, w);
            }
            if (fld) for (int a = 0; a < ng; ++a) if (a != g && a != g2 && (below(c, g, a) || (g2 >= 0 && below(c, g2, a)))) c.gci += " " + c.gname[a] + " " + T[type] + " FLD /\n";
            if (is[0] == 0 || (g2 >= 0 && is[1] == 0)) continue;
            if (!vh::begin(vh::fmt("reinj ph=%d t=%d g=%d,%d m=%d type=%d f=%d fld=%d w=%d%d%d%d", ph, t, g, g2, mode, type, fr, fld, place[0], place[1], place[2], place[3]))) continue;
            WM m = make(c);
            std::string text = deck(c);
            if (!m) { vh::fail("refused", "refused:\n%s", text.c_str()); continue; }
            for (int call = 0; call < 2; ++call) {
                std::vector<double> res(4 * NP), surf(4 * NP);
                double prod[2] = { 0, 0 };
                for (int w = 0; w < 4; ++w) for (int p = 0; p < 3; ++p) if (POS[p] >= 0) {
                    double s = isprod(c.kind[w]) ? -1 : 1;
                    const int k = NP * w + POS[p];
                    surf[k] = s * vals[(w + p + call) % 3] / DAY; res[k] = 1.2 * surf[k] + s * p / DAY;
                    for (int q = 0; q < 2; ++q) if (G[q] >= 0 && isprod(c.kind[w]) && below(c, c.wgroup[w], G[q])) { if (md[q]) prod[q] -= res[k]; else if (p == type) prod[q] -= surf[k]; }
                }
                Snap a = snap(m->c_wells());
                m->applyExplicitReinjectionControls(res, surf);
                vh::tr();
                Snap b = snap(m->c_wells());
                for (int w = 0; w < 4; ++w) {
                    const int q = c.kind[w] != IG ? -1 : below(c, c.wgroup[w], g) ? 0 : g2 >= 0 && below(c, c.wgroup[w], g2) ? 1 : -1;
                    if (q >= 0) {
                        groupctl(b, w, 2, md[q] ? 6 : 5, f[q] * prod[q] * guide(c, w) / is[q], c.wname[w].c_str(), text);
                        VH_CHECK((int)b.type[w].size() == 3 && b.cur[w] == 2, "current", "well %s: %d controls, current %d after call %d from\n%s", c.wname[w].c_str(), (int)b.type[w].size(), b.cur[w], call, text.c_str());
                    } else VH_CHECK(same(a, b, w), "touched", "well %s changed by reinjection from\n%s", c.wname[w].c_str(), text.c_str());
                }
                vh::outcome(vh::fmt("%g %g", prod[0], prod[1]));
            }
        } while (vh::next(place, ng));
    }
    phaseset(0);
}

// --- collections put together by hand, node by node -------------------------------------------------------
typedef std::tr1::shared_ptr<WellsGroupInterface> Node;
static void assembled()
{
    static const ProductionSpecification::ControlMode PMODE[5] = { ProductionSpecification::ORAT, ProductionSpecification::WRAT, ProductionSpecification::GRAT, ProductionSpecification::LRAT, ProductionSpecification::RESV };
    const int maxw = vh::thorough() ? 4 : 3;
    for (int t = 0; t < 7; ++t) for (int nw = 1; nw <= maxw; ++nw) {
        Case c = tree(t);
        const int ng = c.parent.size();
        std::vector<int> place(nw, 0);
        do for (int kinds = 0; kinds < (1 << nw); ++kinds) for (int gd = 0; gd < 3; ++gd) {
            if (nw > 2 && gd != (place[0] + kinds) % 3) continue;
            if (!vh::begin(vh::fmt("assembled t=%d w=%s k=%d g=%d", t, vh::str(place).c_str(), kinds, gd))) continue;
            c.wgroup = place; c.kind.clear(); c.guide.clear();
            for (int w = 0; w < nw; ++w) { c.kind.push_back(kinds >> w & 1 ? IG : PG); c.guide.push_back(gd == 0 ? -1 : gd == 1 ? 1.5 * (w + 1) : w ? 4 : 0.25); }
            names(c, gd);
            for (int pg = 0; pg < ng; ++pg) for (int ph = 0; ph < 3; ++ph) {
                phaseset(ph);
                const int pm = ph == 2 ? 0 : (pg + t + nw) % 5 == 2 ? 4 : (pg + t + nw) % 5, im = 5 + (pg + nw) % 2;
                PhaseUsage pu; pu.num_phases = NP;
                for (int p = 0; p < 3; ++p) { pu.phase_used[p] = POS[p] >= 0; pu.phase_pos[p] = POS[p] < 0 ? 0 : POS[p]; }
                bool prod = false, inj = false;
                for (int w = 0; w < nw; ++w) if (below(c, place[w], pg)) { prod = prod || isprod(c.kind[w]); inj = inj || !isprod(c.kind[w]); }
                WellCollection wc;
                std::vector<Node> groups, wells;
                for (int g = 0; g < ng; ++g) {
                    ProductionSpecification ps; InjectionSpecification is;
                    if (g == pg && prod) { ps.control_mode_ = PMODE[pm]; (pm == 0 ? ps.oil_max_rate_ : pm == 1 ? ps.water_max_rate_ : pm == 3 ? ps.liquid_max_rate_ : ps.reservoir_flow_max_rate_) = 900; }
                    if (g == pg && inj) { is.control_mode_ = im == 5 ? InjectionSpecification::RATE : InjectionSpecification::RESV; (im == 5 ? is.surface_flow_max_rate_ : is.reservoir_flow_max_rate_) = 1200; is.injector_type_ = ph == 2 ? InjectionSpecification::GAS : InjectionSpecification::WATER; }
                    groups.push_back(Node(new WellsGroup(c.gname[g], ps, is, pu)));
                    if (g == 0) wc.addChild(groups[0]); else wc.addChild(groups[g], c.gname[c.parent[g]]);
                }
                Wells* W = create_wells(NP, nw, nw);
                for (int w = 0; w < nw; ++w) {
                    ProductionSpecification ps; InjectionSpecification is;
                    if (isprod(c.kind[w])) { ps.control_mode_ = ProductionSpecification::GRUP; if (gd) ps.guide_rate_ = c.guide[w]; }
                    else { is.control_mode_ = InjectionSpecification::GRUP; is.injector_type_ = ph == 2 ? InjectionSpecification::GAS : InjectionSpecification::WATER; if (gd) is.guide_rate_ = c.guide[w]; }
                    wells.push_back(Node(new WellNode(c.wname[w], ps, is, pu)));
                    wc.addChild(wells[w], c.gname[place[w]]);
                    const int cell = w; const double wi = 1, frac[3] = { 0.25, 0.25, 0.5 };
                    if (!add_well(isprod(c.kind[w]) ? PRODUCER : INJECTOR, 0, 1, frac, &cell, &wi, c.wname[w].c_str(), W)) vh::fail("harness", "add_well");
                }
                bool threw = false;
                Node stray(new WellNode("STRAY", ProductionSpecification(), InjectionSpecification(), pu));
                try { wc.addChild(stray, "NOSUCH"); } catch (const std::exception&) { threw = true; }
                VH_CHECK(threw && !wc.findNode("STRAY"), "tree", "well of an unknown group accepted");
                // the tree
                VH_CHECK((int)wc.getLeafNodes().size() == nw, "tree", "%d wells", (int)wc.getLeafNodes().size());
                for (int w = 0; w < nw && w < (int)wc.getLeafNodes().size(); ++w) {
                    VH_CHECK(wc.getLeafNodes()[w] == wells[w].get() && wc.findNode(c.wname[w]) == wells[w].get(), "tree", "well %d", w);
                    VH_CHECK(wells[w]->getParent() == groups[place[w]].get(), "parent", "well %s does not know its group %s", c.wname[w].c_str(), c.gname[place[w]].c_str());
                }
                for (int g = 0; g < ng; ++g) {
                    int cnt = 0; for (int w = 0; w < nw; ++w) cnt += below(c, place[w], g);
                    VH_CHECK(wc.findNode(c.gname[g]) == groups[g].get() && groups[g]->numberOfLeafNodes() == cnt && !groups[g]->isLeafNode(), "tree", "group %s: %d wells, expected %d", c.gname[g].c_str(), groups[g]->numberOfLeafNodes(), cnt);
                    VH_CHECK(groups[g]->getParent() == (g ? groups[c.parent[g]].get() : 0), "parent", "group %s does not know its parent", c.gname[g].c_str());
                }
                // controls
                wc.setWellsPointer(W);
                for (int w = 0; w < nw; ++w) VH_CHECK(wc.getLeafNodes()[w]->type() == (isprod(c.kind[w]) ? PRODUCER : INJECTOR), "tree", "type of well %d", w);
                wc.applyGroupControls();
                vh::tr();
                double gs[2] = { 0, 0 };
                for (int w = 0; w < nw; ++w) if (below(c, place[w], pg)) gs[!isprod(c.kind[w])] += guide(c, w);
                Snap s = snap(W);
                for (int w = 0; w < nw; ++w) {
                    const bool p = isprod(c.kind[w]);
                    if (!below(c, place[w], pg)) { VH_CHECK(s.type[w].empty(), "touched", "well %s outside the group has %d controls", c.wname[w].c_str(), (int)s.type[w].size()); continue; }
                    VH_CHECK(s.type[w].size() == 1 && s.cur[w] == 0, "groupcount", "well %s has %d controls, current %d", c.wname[w].c_str(), (int)s.type[w].size(), s.cur[w]);
                    groupctl(s, w, 0, p ? pm : im, p ? -900 * guide(c, w) / gs[0] : 1200 * guide(c, w) / gs[1], c.wname[w].c_str(), "a collection put together by hand");
                }
                vh::outcome(vh::fmt("hand %g %g", gs[0], gs[1]));
                destroy_wells(W);
            }
        } while (vh::next(place, ng));
    }
    phaseset(0);
}

void explore()
{
    dk::quiet();
    assembled();
    splits();
    limits();
    many();
    reinjection();
}
