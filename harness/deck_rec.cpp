// Record keywords of decks: every default pattern, record count, layout, comment position and following keyword.
#include "deckrec.hpp"
using namespace dr;

struct Cell { std::string text, want; bool neg, dflt; };

static std::string value(const Key& k, int rec, int pos)
{
    const Item& it = k.items[pos];
    if (it.t == 's') {
        if (pos == 0) return vh::fmt("NAME%d", rec);
        if (k.name == "WGRUPCON" && pos == 1) return rec % 2 ? "NO" : "YES";
        if (k.name == "FAULTS") return "X-";
        return vh::fmt("S%dR%d", pos, rec);
    }
    if (it.t == 'i') return vh::fmt("%d", 3 + pos + 10 * rec);
    return vh::fmt("%g", 1.25 + pos + 100 * rec);
}

// one record: mask of defaulted positions, number of items given, layout
static std::string record(const Key& k, int rec, unsigned mask, int len, int lay, std::vector<Cell>& want)
{
    std::string s;
    const std::string sep = lay == 1 ? "\n  " : " ";
    int run = 0;
    want.clear();
    for (int i = 0; i < (int)k.items.size(); ++i) {
        const Item& it = k.items[i];
        Cell c;
        c.dflt = i >= len || (mask >> i & 1);
        c.neg = c.dflt && it.d == NEG;
        std::string v = value(k, rec, i);
        c.want = c.dflt ? (it.d == PREV ? want[i - 1].want : n(it.v)) : v;
        if (i < len) {
            if (c.dflt) ++run;
            bool flush = run && (!c.dflt || i + 1 >= len || k.items[i + 1].t == 's' || !(mask >> (i + 1) & 1) || lay == 2);
            // in a deck, consecutive defaults are written n*, except in layout 2 (1* 1* ...)
            if (c.dflt && flush) { s += sep + vh::fmt("%d*", run); run = 0; }
            if (!c.dflt) s += (i ? sep : std::string(" ")) + (it.t == 's' && lay != 1 && k.name != "FAULTS" && k.name != "MULTFLT" ? "'" + v + "'" : v);
        }
        want.push_back(c);
    }
    if (len == (int)k.items.size()) s += k.extra;
    return s + (lay == 2 ? "\n /\n" : " /\n");
}

static void compare(const Key& k, const std::vector<std::vector<Cell> >& want, P p, const std::string& text)
{
    std::vector<Row> got = k.read(p);
    vh::tr();
    if (got.size() != want.size()) { vh::fail("count", "%d records instead of %d from:\n%s", (int)got.size(), (int)want.size(), text.c_str()); return; }
    for (size_t r = 0; r < got.size(); ++r) for (size_t i = 0; i < want[r].size(); ++i) {
        const Cell& c = want[r][i];
        const std::string& g = i < got[r].size() ? got[r][i] : std::string("(none)");
        bool ok = c.neg ? g[0] == '-' : g == c.want;
        if (!ok) { vh::fail("item", "%s record %d item %d: %s, expected %s from:\n%s", k.name.c_str(), (int)r, (int)i, g.c_str(), c.neg ? "<0" : c.want.c_str(), text.c_str()); return; }
    }
}

static void follow(P p, const std::string& text)
{
    if (!p.hasField("PORO") || p.getFloatingPointValue("PORO") != std::vector<double>(2, 0.25)) vh::fail("next", "the keyword after the records was lost:\n%s", text.c_str());
}

static void rewritten(const std::string& t, P p);
static void keyword(const Key& k)
{
    const int m = k.items.size();
    std::vector<unsigned> masks;
    for (unsigned q = 0; q < 1u << m; ++q) {
        bool ok = true;
        for (int i = 0; i < m; ++i) if ((q >> i & 1) && k.items[i].d == REQ) ok = false;
        if (ok) masks.push_back(q);
    }
    const int maxrec = k.multi ? 3 : 1;
    for (int lay = 0; lay < 3; ++lay) for (int com = 0; com < (k.terminated ? 4 : 1); ++com) for (int nr = 1; nr <= maxrec; ++nr) for (size_t q = 0; q < masks.size(); ++q) {
        if (nr == 3 && (q * 7 + lay) % 5 && masks.size() > 40) continue;
        for (int len = k.minlen; len <= m; ++len) {
            if (len < m && (masks[q] >> len)) continue; // defaulted items after the end are the same record
            if (!vh::begin(vh::fmt("%s/l%d/c%d/n%d/m%u/%d", k.name.c_str(), lay, com, nr, masks[q], len))) continue;
            std::string t = k.name + "\n";
            std::vector<std::vector<Cell> > want;
            if (com == 1) t += "-- first comment\n";
            for (int r = 0; r < nr; ++r) {
                std::vector<Cell> c;
                // records differ in shape: the first one is varied, the others are full / alternately defaulted
                unsigned mk = r == 0 ? masks[q] : masks[(q + r * 5) % masks.size()];
                int ln = r == 0 ? len : m;
                t += record(k, r, mk, ln, lay, c);
                want.push_back(c);
                if (com == 2 && r + 1 < nr) t += "-- a comment / between\n--another\n";
            }
            if (com == 3) t += "-- last comment\n";
            if (k.terminated) t += "/\n";
            t += "\nPORO\n 2*0.25 /\n";
            dk::Deck p;
            try { p = dk::parse(t, false); } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); continue; }
            if (!p->hasField(k.name)) { vh::fail("missing", "%s", t.c_str()); continue; }
            compare(k, want, *p, t);
            follow(*p, t);
            if (lay == 0 && com == 0 && (nr < 3 || q < 5)) rewritten(t, *p);
            vh::outcome(t);
            if (nr == 2 && com == 2 && q) vh::sample(t);
            // the same records split over two occurrences of the keyword
            if (nr == 2 && k.terminated) {
                std::string t2 = k.name + "\n";
                std::vector<Cell> c;
                t2 += record(k, 0, masks[q], len, lay, c) + "/\n\nSWAT\n 1 /\n" + k.name + "\n" + record(k, 1, masks[(q + 5) % masks.size()], m, lay, c) + "/\nPORO\n2*0.25 /\n";
                try { p = dk::parse(t2, false); } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t2.c_str()); continue; }
                compare(k, want, *p, t2);
                follow(*p, t2);
            }
        }
    }
}

// Repeat counts: equal values written n*v, defaults written n*, also where the count goes on into items which are not kept or
// beyond the record.
static void counts(const Key& k)
{
    const int m = k.items.size();
    static const std::map<std::string, int> more = { { "COMPDAT", 5 }, { "WCONPROD", 8 }, { "WCONINJE", 4 }, { "GCONINJE", 3 }, { "EQUIL", 2 } };   // further items of the record
    const int room = m + (more.count(k.name) ? more.find(k.name)->second : 0);
    if (k.name == "WELTARG" || k.name == "WPOLYMER") return;     // plain items only
    const int nr = k.multi ? 2 : 1;
    for (int a = 0; a < m; ++a) for (int b = a + 1; b <= room + 3; ++b) for (int dflt = 0; dflt < 2; ++dflt) {
        bool ok = k.items[a].t != 's';
        for (int i = a; i < std::min(b, m); ++i) if (k.items[i].t == 's' || (!dflt && k.items[i].t != k.items[a].t) || (dflt && k.items[i].d == REQ)) ok = false;
        if (dflt && b > room) ok = false;
        if (!ok || (k.name == "GCONPROD" && b > m)) continue;
        const bool over = !dflt && b > m;       // more values than there are items: refused, or the items have the value
        for (int where = 0; where < nr; ++where) {
            if (!vh::begin(vh::fmt("%s/count/%d/%d/%d/%d", k.name.c_str(), a, b, dflt, where))) continue;
            std::string t = k.name + "\n";
            std::vector<std::vector<Cell> > want;
            for (int r = 0; r < nr; ++r) {
                std::vector<Cell> c;
                std::string full = record(k, r, 0, m, 0, c);
                if (r == where) {
                    std::string q;
                    for (int i = 0; i < m; ++i) {
                        if (i < a || i >= b) { q += " " + value(k, r, i); continue; }
                        if (i == a) q += vh::fmt(" %d*", b - a) + (dflt ? std::string() : value(k, r, a));
                        c[i].dflt = dflt; c[i].neg = dflt && k.items[i].d == NEG;
                        c[i].want = dflt ? (k.items[i].d == PREV ? c[i - 1].want : n(k.items[i].v)) : value(k, r, a);
                    }
                    full = q + " /\n";
                }
                t += full; want.push_back(c);
            }
            if (k.terminated) t += "/\n";
            t += "\nPORO\n 2*0.25 /\n";
            vh::state();
            dk::Deck p;
            try { p = dk::parse(t, false); } catch (const std::exception& e) { if (!over) vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); vh::outcome("refused"); continue; }
            if (!p->hasField(k.name)) { vh::fail("missing", "%s", t.c_str()); continue; }
            compare(k, want, *p, t);
            follow(*p, t);
            vh::outcome(t);
        }
    }
}
// Group production: every run of defaults written as one count, over mode, rates, procedure, items not kept and voidage target.
static void groupCounts()
{
    static const char* full[] = { "ORAT", "10", "20", "30", "40", "RATE", "YES", "2", "FORM", "CON", "RATE", "WELL", "77" };
    for (int a = 0; a < 13; ++a) for (int b = a; b <= 15; ++b) for (int len = std::max(b, 1); len <= std::max(b, 13); ++len) for (int split = 0; split < (b - a > 1 ? 3 : 1); ++split) for (int where = 0; where < 2; ++where) {
        if (!vh::begin(vh::fmt("gconprod/count/%d/%d/%d/%d/%d", a, b, len, split, where))) continue;
        std::string t = "GCONPROD\n";
        for (int r = 0; r < 2; ++r) {
            t += vh::fmt(" G%d", r);
            for (int i = 0; i < (r == where ? len : 13); ++i) {
                if (r != where || i < a || i >= b) t += std::string(" ") + full[i];
                else if (i == a) t += split == 0 ? vh::fmt(" %d*", b - a) : vh::fmt(" %d* %d*", split == 1 ? 1 : b - a - 1, split == 1 ? b - a - 1 : 1);
            }
            t += " /\n";
        }
        t += "/\nPORO\n2*0.25 /\n";
        vh::state();
        dk::Deck p;
        try { p = dk::parse(t, false); } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); continue; }
        follow(*p, t);
        const auto& g = p->getGCONPROD().gconprod;
        if (g.size() != 2) { vh::fail("count", "%d records:\n%s", (int)g.size(), t.c_str()); continue; }
        for (int r = 0; r < 2; ++r) {
            std::vector<bool> has(13); for (int i = 0; i < 13; ++i) has[i] = r != where || (i < len && (i < a || i >= b));
            VH_CHECK(g[r].group_ == vh::fmt("G%d", r), "name", "%s:\n%s", g[r].group_.c_str(), t.c_str());
            VH_CHECK(g[r].control_mode_ == (has[0] ? "ORAT" : "NONE"), "mode", "record %d: %s:\n%s", r, g[r].control_mode_.c_str(), t.c_str());
            const double v[5] = { g[r].oil_max_rate_, g[r].water_max_rate_, g[r].gas_max_rate_, g[r].liquid_max_rate_, g[r].resv_max_rate_ };
            for (int i = 0; i < 5; ++i) { const int at = i < 4 ? 1 + i : 12; VH_CHECK(has[at] ? v[i] == atof(full[at]) : v[i] < 0, "rate", "record %d, rate %d: %g:\n%s", r, i, v[i], t.c_str()); }
            VH_CHECK(g[r].procedure_ == (has[5] ? "RATE" : "NONE"), "procedure", "record %d: %s:\n%s", r, g[r].procedure_.c_str(), t.c_str());
        }
        vh::tr(); vh::outcome(t);
    }
    // guide rates: availability, rate, phase, scaling factor
    static const char* gr[] = { "NO", "0.5", "OIL", "1.25" };
    for (int a = 0; a < 4; ++a) for (int b = a; b <= 6; ++b) for (int len = std::max(b, 1); len <= std::max(b, 4); ++len) for (int where = 0; where < 2; ++where) {
        if (!vh::begin(vh::fmt("wgrupcon/count/%d/%d/%d/%d", a, b, len, where))) continue;
        std::string t = "WGRUPCON\n";
        for (int r = 0; r < 2; ++r) {
            t += vh::fmt(" W%d", r);
            for (int i = 0; i < (r == where ? len : 4); ++i) {
                if (r != where || i < a || i >= b) t += std::string(" ") + gr[i];
                else if (i == a) t += vh::fmt(" %d*", b - a);
            }
            t += " /\n";
        }
        t += "/\nPORO\n2*0.25 /\n";
        vh::state();
        dk::Deck p;
        try { p = dk::parse(t, false); } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); continue; }
        follow(*p, t);
        const auto& g = p->getWGRUPCON().wgrupcon;
        if (g.size() != 2) { vh::fail("count", "%d records:\n%s", (int)g.size(), t.c_str()); continue; }
        for (int r = 0; r < 2; ++r) {
            std::vector<bool> has(4); for (int i = 0; i < 4; ++i) has[i] = r != where || (i < len && (i < a || i >= b));
            VH_CHECK(g[r].well_ == vh::fmt("W%d", r) && g[r].available_for_group_control_ == !has[0], "wgrupcon", "record %d:\n%s", r, t.c_str());
            VH_CHECK(has[1] ? g[r].guide_rate_ == 0.5 : g[r].guide_rate_ < 0 || g[r].guide_rate_ >= 1e20, "wgrupcon", "record %d: guide rate %g:\n%s", r, g[r].guide_rate_, t.c_str());
            VH_CHECK(has[2] ? g[r].phase_ == "OIL" : g[r].phase_ == "", "wgrupcon", "record %d: phase %s:\n%s", r, g[r].phase_.c_str(), t.c_str());
        }
        vh::tr(); vh::outcome(t);
    }
}

// interpolation of defaulted entries, end value outside
static double fill(const std::vector<double>& x, const std::vector<double>& y, const std::vector<int>& def, size_t i)
{
    std::vector<double> xv, yv;
    for (size_t k = 0; k < x.size(); ++k) if (!def[k]) { xv.push_back(x[k]); yv.push_back(y[k]); }
    if (xv.empty()) return 0;
    if (xv.size() == 1) return yv[0];
    size_t k = 0;
    while (k + 2 < xv.size() && x[i] >= xv[k + 1]) ++k;
    return yv[k] + (yv[k + 1] - yv[k]) * (x[i] - xv[k]) / (xv[k + 1] - xv[k]);
}

// Other comments, blank lines and line ends: the whole deck must read the same. Compared through the text the parser writes
// for every keyword and array.
static std::string contents(P p)
{
    std::ostringstream os;
    os.precision(17);
    std::vector<std::string> f = p.fieldNames();
    std::sort(f.begin(), f.end());
    for (size_t i = 0; i < f.size(); ++i) os << f[i] << ' ';
    os << '\n';
    static std::vector<Key> K = keys();
    for (size_t i = 0; i < K.size(); ++i) if (p.hasField(K[i].name)) { std::vector<Row> r = K[i].read(p); for (size_t j = 0; j < r.size(); ++j) { for (size_t k = 0; k < r[j].size(); ++k) os << r[j][k] << '|'; os << '\n'; } }
    static std::vector<Tab> T = tabs();
    for (size_t i = 0; i < T.size(); ++i) if (p.hasField(T[i].name)) { const std::vector<std::vector<std::vector<double> > >& g = T[i].get(p); for (size_t j = 0; j < g.size(); ++j) for (size_t k = 0; k < g[j].size(); ++k) os << vh::str(g[j][k]) << '\n'; }
    if (p.hasField("PVTO")) for (size_t j = 0; j < p.getPVTO().pvto_.size(); ++j) for (size_t k = 0; k < p.getPVTO().pvto_[j].size(); ++k) os << vh::str(p.getPVTO().pvto_[j][k]) << '\n';
    if (p.hasField("PVTG")) for (size_t j = 0; j < p.getPVTG().pvtg_.size(); ++j) for (size_t k = 0; k < p.getPVTG().pvtg_[j].size(); ++k) os << vh::str(p.getPVTG().pvtg_[j][k]) << '\n';
    for (int kr = 0; kr < 2; ++kr) if (p.hasField(kr ? "ENKRVD" : "ENPTVD")) {
        const std::vector<std::vector<std::vector<double> > >& g = kr ? p.getENKRVD().table_ : p.getENPTVD().table_;
        for (size_t j = 0; j < g.size(); ++j) for (size_t k = 0; k < g[j].size(); ++k) os << vh::str(g[j][k]) << '\n';
    }
    if (p.hasField("START")) os << p.getSTART().date << '\n';
    if (p.hasField("WPOLYMER")) for (size_t j = 0; j < p.getWPOLYMER().wpolymer_.size(); ++j) os << p.getWPOLYMER().wpolymer_[j].polymer_group_ << '|' << p.getWPOLYMER().wpolymer_[j].salt_group_ << '\n';
    if (p.hasField("GCONPROD")) for (size_t j = 0; j < p.getGCONPROD().gconprod.size(); ++j) os << p.getGCONPROD().gconprod[j].procedure_ << '|' << p.getGCONPROD().gconprod[j].resv_max_rate_ << '\n';
    if (p.hasField("PLYADS")) os << vh::str(p.getPLYADS().local_concentration_) << vh::str(p.getPLYADS().adsorbed_concentration_);
    if (p.hasField("PLYVISC")) os << vh::str(p.getPLYVISC().concentration_) << vh::str(p.getPLYVISC().factor_);
    if (p.hasField("ENDSCALE")) os << p.getENDSCALE().dir_switch_ << p.getENDSCALE().revers_switch_ << p.getENDSCALE().n_tab_ << ' ' << p.getENDSCALE().n_node_;
    if (p.hasField("SCALECRS")) os << p.getSCALECRS().scalecrs_;
    if (p.hasField("SPECGRID")) os << p.getSPECGRID().qrdial;
    return os.str();
}
static void rewritten(const std::string& t, P p)
{
    std::string w = contents(p);
    for (int m = 1; m <= 6; ++m) {
        std::string q = dk::rewrite(t, m);
        vh::tr();
        try {
            dk::Deck d = dk::parse(q, false);
            if (contents(*d) != w) { vh::fail("rewritten", "mode %d, read as\n%s\ninstead of\n%s\nfrom:\n%s", m, contents(*d).c_str(), w.c_str(), t.c_str()); return; }
            follow(*d, t);
        } catch (const std::exception& e) { vh::fail("rewritten", "mode %d rejected (%s):\n%s", m, e.what(), t.c_str()); return; }
    }
}

static void tables()
{
    std::vector<Tab> T = tabs();
    for (size_t a = 0; a < T.size(); ++a) {
        const int nc = T[a].u.size();
        const bool dft = nc == 4;
        for (int regs = 1; regs <= 2; ++regs) for (int rows = 2; rows <= 4; ++rows) for (int com = 0; com < 3; ++com) for (int col = 0; col < (dft ? 3 : 1); ++col) for (unsigned mask = 0; mask < (dft ? 1u << rows : 1u); ++mask) {
          for (int sgn = 0; sgn < (dft ? 2 : 1); ++sgn) {
            // interior defaults only: the first and last entry of a column are given, or the whole column defaulted, or all but one entry
            if (mask && mask != (1u << rows) - 1 && __builtin_popcount(mask) != rows - 1 && ((mask & 1) || (mask >> (rows - 1) & 1))) continue;
            if (!mask && col) continue;
            if (!vh::begin(vh::fmt("tab/%s/r%d/n%d/c%d/k%d/m%u/%d", T[a].name.c_str(), regs, rows, com, col, mask, sgn))) continue;
            std::string t = T[a].name + "\n";
            std::vector<std::vector<std::vector<double> > > want;
            for (int r = 0; r < regs; ++r) {
                std::vector<std::vector<double> > w(nc, std::vector<double>(rows));
                std::vector<int> def(rows);
                for (int i = 0; i < rows; ++i) {
                    for (int c = 0; c < nc; ++c) w[c][i] = c == 0 ? 0.125 * (i * i + i) + 0.0625 * r : 1 + c + 0.5 * i * i + 10 * r;
                    if (sgn) w[3][i] = i == 1 ? -1 : 0.75 - (i + r) * (i + 1); // mixed-wet capillary pressures
                    def[i] = mask >> i & 1;
                    for (int c = 0; c < nc; ++c) t += def[i] && c == col + 1 ? " 1*" : " " + n(w[c][i]);
                    t += com == 1 ? "\n-- row / comment\n" : "\n";
                }
                std::vector<double> y = w[nc > 3 ? col + 1 : 1];
                for (int i = 0; i < rows; ++i) if (def[i]) w[col + 1][i] = fill(w[0], y, def, i);
                t += com == 2 ? "/ end\n-- next region\n" : "/\n";
                want.push_back(w);
            }
            t += "PORO\n 2*0.25 /\n";
            dk::Deck p;
            try { p = dk::parse(t, false); } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); continue; }
            follow(*p, t);
            const std::vector<std::vector<std::vector<double> > >& g = T[a].get(*p);
            vh::tr();
            if (g.size() != want.size()) { vh::fail("count", "%d tables:\n%s", (int)g.size(), t.c_str()); continue; }
            for (int r = 0; r < regs; ++r) for (int c = 0; c < nc; ++c) for (int i = 0; i < rows; ++i)
                if ((int)g[r].size() != nc || (int)g[r][c].size() != rows || !vh::close_to(g[r][c][i], want[r][c][i], 1e-12, 1e-13)) { vh::fail("table", "region %d column %d row %d: %g expected %g:\n%s", r, c, i, g[r][c].size() > (size_t)i ? g[r][c][i] : -1, want[r][c][i], t.c_str()); break; }
            if (com == 0) rewritten(t, *p);
          }
        }
    }
    // PVTO / PVTG: nested tables with 1..3 undersaturated points per row
    for (int gas = 0; gas < 2; ++gas) for (int regs = 1; regs <= 2; ++regs) for (int rows = 1; rows <= 3; ++rows) for (unsigned sh = 0; sh < 27; ++sh) for (int com = 0; com < 3; ++com) {
        if (!vh::begin(vh::fmt("live/%d/%d/%d/%u/%d", gas, regs, rows, sh, com))) continue;
        std::string t = gas ? "PVTG\n" : "PVTO\n";
        std::vector<std::vector<std::vector<double> > > want;
        for (int r = 0; r < regs; ++r) {
            std::vector<std::vector<double> > reg;
            unsigned s = sh;
            for (int i = 0; i < rows; ++i, s /= 3) {
                std::vector<double> row(1, 0.125 * i + 0.25 * i * i + 0.0625 * (r + 1));
                t += " " + n(row[0]);
                for (unsigned k = 0; k <= s % 3; ++k) { for (int c = 0; c < 3; ++c) { row.push_back(1 + c + 10 * k + 100 * i + 1000 * r); t += " " + n(row.back()); } t += com ? "\n-- c\n    " : "\n    "; }
                t += "/\n";
                reg.push_back(row);
            }
            t += com == 2 ? "-- end of region\n/\n-- next\n" : "/\n";
            want.push_back(reg);
        }
        t += "PORO\n 2*0.25 /\n";
        dk::Deck p;
        try { p = dk::parse(t, false); } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); continue; }
        follow(*p, t);
        vh::tr();
        VH_CHECK((gas ? p->getPVTG().pvtg_ : p->getPVTO().pvto_) == want, "table", "%s", t.c_str());
        if (com == 0) rewritten(t, *p);
    }
    // ENPTVD / ENKRVD
    for (int kr = 0; kr < 2; ++kr) for (int regs = 1; regs <= 2; ++regs) for (int rows = 2; rows <= 3; ++rows) for (unsigned mask = 0; mask < 1u << (4 * (rows == 2 ? 2 : 3)); ++mask) {
        if (rows == 3 && (mask & 0x0f0) != 0x0a0 && (mask & 0x0f0) != 0x050 && (mask & 0x0f0)) continue;
        // columns either wholly defaulted or with first and last given
        bool ok = true;
        for (int c = 0; c < 4; ++c) {
            int cnt = 0;
            for (int i = 0; i < rows; ++i) cnt += mask >> (4 * i + c) & 1;
            if (cnt && cnt != rows && ((mask >> c & 1) || (mask >> (4 * (rows - 1) + c) & 1))) ok = false;
        }
        if (!ok || !vh::begin(vh::fmt("vd/%d/%d/%d/%u", kr, regs, rows, mask))) continue;
        static const int pos[2][4] = { { 1, 2, 3, 7 }, { 1, 3, 4, 7 } };
        const int w = kr ? 8 : 9;
        std::string t = kr ? "ENKRVD\n" : "ENPTVD\n";
        std::vector<std::vector<std::vector<double> > > want(5, std::vector<std::vector<double> >(regs, std::vector<double>(rows)));
        std::vector<bool> wm(4, false);
        for (int r = 0; r < regs; ++r) {
            for (int i = 0; i < rows; ++i) {
                want[0][r][i] = 1000 + 100 * (i + i * i) + r;
                t += n(want[0][r][i]);
                for (int q = 1; q < w; ++q) {
                    int c = std::find(pos[kr], pos[kr] + 4, q) - pos[kr];
                    if (c < 4) want[c + 1][r][i] = 0.125 * (c + 1) + 0.03125 * i + 0.5 * r;
                    if (c == 4 || (mask >> (4 * i + c) & 1)) t += " 1*"; else t += " " + n(want[c + 1][r][i]);
                }
                t += "\n";
            }
            t += "/\n";
            for (int c = 0; c < 4; ++c) {
                std::vector<int> def(rows);
                int cnt = 0;
                for (int i = 0; i < rows; ++i) cnt += def[i] = mask >> (4 * i + c) & 1;
                std::vector<double> y = want[c + 1][r];
                for (int i = 0; i < rows; ++i) if (def[i]) want[c + 1][r][i] = cnt == rows ? -1 : fill(want[0][r], y, def, i);
                if (cnt < rows) wm[c] = true;
            }
        }
        t += "/\nPORO\n 2*0.25 /\n";
        dk::Deck p;
        try { p = dk::parse(t, false); } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); continue; }
        follow(*p, t);
        const std::vector<std::vector<std::vector<double> > >& g = kr ? p->getENKRVD().table_ : p->getENPTVD().table_;
        vh::tr();
        VH_CHECK((kr ? p->getENKRVD().mask_ : p->getENPTVD().mask_) == wm, "mask", "%s", t.c_str());
        for (int c = 0; c < 5; ++c) for (int r = 0; r < regs; ++r) for (int i = 0; i < rows; ++i)
            if (g.size() != 5 || (int)g[c].size() != regs || (int)g[c][r].size() != rows || !vh::close_to(g[c][r][i], want[c][r][i], 1e-12)) { vh::fail("table", "column %d region %d row %d:\n%s", c, r, i, t.c_str()); goto next; }
        rewritten(t, *p);
    next:;
    }
}

static void others()
{
    static const char* mon[] = { "JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JLY", "AUG", "SEP", "OCT", "NOV", "DEC", "JUL" };
    for (int m = 0; m < 13; ++m) for (int d = 1; d <= 31; ++d) for (int q = 0; q < 2; ++q) {
        if (!vh::begin(vh::fmt("start/%d/%d/%d", m, d, q))) continue;
        int mm = m == 12 ? 7 : m + 1;
        bool valid = d <= boost::gregorian::gregorian_calendar::end_of_month_day(2012, mm);
        std::string t = std::string("START\n") + (q ? "-- when\n" : "") + vh::fmt(q ? " %d '%s' 2012 /\n" : "%d %s 2012 /\n", d, mon[m]) + "PORO\n 2*0.25 /\n";
        bool threw = false;
        dk::Deck p;
        try { p = dk::parse(t, false); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw != valid, "date", "%s", t.c_str());
        if (!threw) { follow(*p, t); rewritten(t, *p); VH_CHECK(p->getSTART().date == boost::gregorian::date(2012, mm, d), "date", "%s", t.c_str()); }
        vh::tr();
    }
    static const char* titles[] = { "A title", "  indented title 12 / with slash", "TITLE" };
    for (int i = 0; i < 3; ++i) for (int blank = 0; blank < 2; ++blank) if (vh::begin(vh::fmt("title/%d/%d", i, blank))) {
        std::string t = std::string("TITLE\n") + (blank ? "\n" : "") + titles[i] + "\nPORO\n2*0.25 /\n";
        dk::Deck p = dk::parse(t, false);
        follow(*p, t);
        std::string g = p->getTITLE().title, w = titles[i];
        while (!g.empty() && g[0] == ' ') g.erase(0, 1);
        while (!w.empty() && w[0] == ' ') w.erase(0, 1);
        VH_CHECK(g == w, "title", "'%s' from:\n%s", g.c_str(), t.c_str());
    }
    // pair lists
    for (int len = 1; len <= 4; ++len) for (int ads = 0; ads < 2; ++ads) if (vh::begin(vh::fmt("pairs/%d/%d", len, ads))) {
        std::string t = ads ? "PLYADS\n" : "PLYVISC\n";
        std::vector<double> a, b;
        for (int i = 0; i < len; ++i) { a.push_back(0.5 + i); b.push_back(7 + 2 * i); t += n(a[i]) + " " + n(b[i]) + "\n"; }
        t += "/\nPORO\n2*0.25 /\n";
        dk::Deck p = dk::parse(t, false);
        { follow(*p, t); rewritten(t, *p); }
        VH_CHECK((ads ? p->getPLYADS().local_concentration_ : p->getPLYVISC().concentration_) == a, "pairs", "%s", t.c_str());
        VH_CHECK((ads ? p->getPLYADS().adsorbed_concentration_ : p->getPLYVISC().factor_) == b, "pairs", "%s", t.c_str());
    }
    // group tree: up to three records, comments
    for (int nr = 1; nr <= 3; ++nr) for (int q = 0; q < 2; ++q) if (vh::begin(vh::fmt("gruptree/%d/%d", nr, q))) {
        std::string t = "GRUPTREE\n";
        std::map<std::string, std::string> w;
        for (int i = 0; i < nr; ++i) { std::string c = vh::fmt("G%d", i), f = vh::fmt("F%d", i / 2); w[c] = f; t += q ? c + "  " + f + " /\n" : "'" + c + "' '" + f + "' /\n"; }
        t += "/\nPORO\n2*0.25 /\n";
        dk::Deck p = dk::parse(t, false);
        { follow(*p, t); rewritten(t, *p); }
        VH_CHECK(p->getGRUPTREE().tree == w, "tree", "%s", t.c_str());
    }
    // end-point scaling switches
    static const char* es[][5] = { { "/", "NODIR", "REVERS", "1", "20" }, { "DIRECT /", "DIRECT", "REVERS", "1", "20" }, { "'NODIR' 'IRREVERS' /", "NODIR", "IRREVERS", "1", "20" },
                                   { "NODIR REVERS 3 /", "NODIR", "REVERS", "3", "20" }, { "NODIR REVERS 4 35 /", "NODIR", "REVERS", "4", "35" }, { "-- c\n NODIR REVERS 4 35 /", "NODIR", "REVERS", "4", "35" } };
    for (int i = 0; i < 6; ++i) if (vh::begin(vh::fmt("endscale/%d", i))) {
        std::string t = std::string("ENDSCALE\n") + es[i][0] + "\nPORO\n2*0.25 /\n";
        dk::Deck p = dk::parse(t, false);
        { follow(*p, t); rewritten(t, *p); }
        auto& e = p->getENDSCALE();
        VH_CHECK(e.dir_switch_ == es[i][1] && e.revers_switch_ == es[i][2] && n(e.n_tab_) == es[i][3] && n(e.n_node_) == es[i][4], "endscale", "%s", t.c_str());
    }
    static const char* sc[][2] = { { "/", "NO" }, { "NO /", "NO" }, { "YES /", "YES" }, { "'YES' /", "YES" }, { "-- c\nYES /", "YES" } };
    for (int i = 0; i < 5; ++i) if (vh::begin(vh::fmt("scalecrs/%d", i))) {
        std::string t = std::string("SCALECRS\n") + sc[i][0] + "\nPORO\n2*0.25 /\n";
        dk::Deck p = dk::parse(t, false);
        { follow(*p, t); rewritten(t, *p); }
        VH_CHECK(p->getSCALECRS().scalecrs_ == sc[i][1], "scalecrs", "%s", t.c_str());
    }
    // keywords which are skipped with their data
    static const char* sk[] = { "SWFN\n 0 0 0\n 1 1 0 /\n 0.1 0 0 /\n", "SOF2\n 0.2 0\n 0.8 1 /\n", "TUNING\n 1 2 3 /\n 2* 4 /\n /\n", "NTG\n 10*0.5 /\n", "RPTRST\n BASIC=2 /\n" };
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) if (vh::begin(vh::fmt("skip/%d/%d", i, j))) {
        std::string t = std::string(sk[i]) + "\nSWAT\n 1 /\n" + sk[j] + "PORO\n2*0.25 /\n";
        dk::Deck p = dk::parse(t, false);
        { follow(*p, t); rewritten(t, *p); }
        VH_CHECK(p->hasField("SWAT"), "next", "%s", t.c_str());
    }
    // any layout of the data of keywords skipped record by record
    static const char* ml[] = { " 1 2 3 /\n", ".5 2*\n 7 / done\n", " 'A' 1 /\n", "-- WORDS / AND MORE\n", "/\n", " / no data\n", "\n", " -1 2 /\n", " A1 2 /\n", " 0.1 0\n-- NOTE\n 0.2 1 /\n" };
    for (int len = 1; len <= (vh::thorough() ? 4 : 3); ++len) {
        std::vector<int> d(len, 0);
        do {
            if (d[0] == 3 || d[0] == 6 || !vh::begin("layout/" + vh::str(d))) continue;
            std::string t = (d[0] + len) % 3 == 0 ? "SWFN\n" : (d[0] + len) % 3 == 1 ? "SOF2\n" : "TUNING\n";
            for (int i = 0; i < len; ++i) t += ml[d[i]];
            t += "PORO\n2*0.25 /\n";
            dk::Deck p;
            try { p = dk::parse(t, false); } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); continue; }
            follow(*p, t);
            vh::tr();
        } while (vh::next(d, 10));
    }
    // trailing group production items: procedure, ignored items, reservoir volume target
    static const char* gp[][3] = { { "/", "NONE", "-1e+20" }, { "RATE /", "RATE", "-1e+20" }, { "RATE 6* 77 /", "RATE", "77" }, { "NONE 1* 1* 1* 1* 1* 1* 78 /", "NONE", "78" },
                                   { "RATE YES 1* FORM 3* 79.5 /", "RATE", "79.5" }, { "RATE 3* /", "RATE", "-1e+20" }, { "CON 7* /", "CON", "-1e+20" } };
    for (int i = 0; i < 7; ++i) for (int j = 0; j < 7; ++j) for (int d = 0; d < 2; ++d) if (vh::begin(vh::fmt("gconprod/%d/%d/%d", i, j, d))) {
        std::string h = d ? " ORAT 10 20 30 40 " : " ORAT 100 3* ";
        std::string t = "GCONPROD\n G1" + h + gp[i][0] + "\n G2" + h + gp[j][0] + "\n/\nPORO\n2*0.25 /\n";
        dk::Deck p;
        try { p = dk::parse(t, false); } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); continue; }
        { follow(*p, t); rewritten(t, *p); }
        auto& g = p->getGCONPROD().gconprod;
        if (g.size() != 2) { vh::fail("count", "%d records:\n%s", (int)g.size(), t.c_str()); continue; }
        for (int k = 0; k < 2; ++k) {
            const char** w = gp[k ? j : i];
            VH_CHECK(g[k].procedure_ == w[1], "procedure", "%s:\n%s", g[k].procedure_.c_str(), t.c_str());
            VH_CHECK(n(g[k].resv_max_rate_) == w[2], "resv", "%g:\n%s", g[k].resv_max_rate_, t.c_str());
            VH_CHECK(g[k].group_ == (k ? "G2" : "G1"), "name", "%s", t.c_str());
        }
        vh::tr();
    }
    // records of WGRUPCON ended early
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (vh::begin(vh::fmt("wgrupcon/%d/%d", i, j))) {
        static const char* r[] = { " YES /", " NO 0.5 /", " YES 0.75 OIL /" };
        std::string t = std::string("WGRUPCON\n W1") + r[i] + "\n W2" + r[j] + "\n/\nPORO\n2*0.25 /\n";
        dk::Deck p;
        try { p = dk::parse(t, false); } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); continue; }
        { follow(*p, t); rewritten(t, *p); }
        auto& g = p->getWGRUPCON().wgrupcon;
        if (g.size() != 2) { vh::fail("count", "%d records:\n%s", (int)g.size(), t.c_str()); continue; }
        for (int k = 0; k < 2; ++k) {
            int s = k ? j : i;
            VH_CHECK(g[k].well_ == (k ? "W2" : "W1") && g[k].available_for_group_control_ == (s != 1) && (s == 0 || g[k].guide_rate_ == (s == 1 ? 0.5 : 0.75)) && g[k].phase_ == (s == 2 ? "OIL" : ""), "wgrupcon", "%s", t.c_str());
        }
    }
    // polymer injection with optional groups
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (vh::begin(vh::fmt("wpolymer/%d/%d", i, j))) {
        static const char* r[] = { " 1.5 0.5 /", " 1.5 0.5 GA /", " 1.5 0.5 GA 'GB' /" };
        std::string t = std::string("WPOLYMER\n W1") + r[i] + "\n W2" + r[j] + "\n/\nPORO\n2*0.25 /\n";
        dk::Deck p = dk::parse(t, false);
        { follow(*p, t); rewritten(t, *p); }
        auto& g = p->getWPOLYMER().wpolymer_;
        if (g.size() != 2) { vh::fail("count", "%s", t.c_str()); continue; }
        for (int k = 0; k < 2; ++k) VH_CHECK(g[k].polymer_group_ == ((k ? j : i) > 0 ? "GA" : "") && g[k].salt_group_ == ((k ? j : i) > 1 ? "GB" : ""), "wpolymer", "%s", t.c_str());
    }
    // grid size records: reservoirs and coordinate type given or not
    static const char* sg[][2] = { { "3 4 5 /", "1F" }, { "3 4 5 2 /", "2F" }, { "3 4 5 1 F /", "1F" }, { "3 4 5 1 T /", "1T" }, { "3 4 5 1* T /", "1T" }, { "3 4 5 2 'F' /", "2q" }, { "-- size\n3 4 5 1 T /", "1T" } };
    for (int i = 0; i < 7; ++i) if (sg[i][1][1] != 'q' && vh::begin(vh::fmt("specgrid/%d", i))) {
        std::string t = std::string("SPECGRID\n") + sg[i][0] + "\nPORO\n2*0.25 /\n";
        dk::Deck p = dk::parse(t, false);
        { follow(*p, t); rewritten(t, *p); }
        auto& s = p->getSPECGRID();
        VH_CHECK(s.dimensions.size() == 3 && s.dimensions[0] == 3 && s.dimensions[1] == 4 && s.dimensions[2] == 5 && s.numres == sg[i][1][0] - '0' && s.qrdial == sg[i][1][1], "specgrid", "%d %c: %s", s.numres, s.qrdial, t.c_str());
    }
    // PVTW/PVCDO with four items: fifth is zero
    for (int o = 0; o < 2; ++o) if (vh::begin(vh::fmt("pvt4/%d", o))) {
        dk::Deck p = dk::parse(std::string(o ? "PVCDO" : "PVTW") + "\n 200 1.1 1e-5 0.5 /\n 210 1.2 2e-5 0.6 /\nPORO\n2*0.25 /\n", false);
        follow(*p, "");
        auto& v = o ? p->getPVCDO().pvcdo_ : p->getPVTW().pvtw_;
        VH_CHECK(v.size() == 2 && v[0].size() == 5 && v[0][4] == 0 && v[1][4] == 0 && v[1][3] == 0.6, "pvt4", "x");
    }
}

void explore()
{
    dk::quiet();
    std::vector<Key> K = keys();
    for (size_t i = 0; i < K.size(); ++i) { keyword(K[i]); counts(K[i]); }
    groupCounts();
    tables();
    others();
}
