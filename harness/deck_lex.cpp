// Array keywords of Eclipse decks: every short token sequence, every keyword, every include split, every cut point.
#include "deck.hpp"
#include <fstream>

enum { OKV, SLASH, BAD, CMT };
struct T { const char* s; int kind; int n; double v; };
static const T itoks[] = { { "1", OKV, 1, 1 }, { "-2", OKV, 1, -2 }, { "2*3", OKV, 2, 3 }, { "1*-4", OKV, 1, -4 }, { "0*5", OKV, 0, 5 }, { "--8 / 9 x\n", CMT, 0, 0 },
                           { "/", SLASH, 0, 0 }, { "x", BAD, 0, 0 }, { "2*x", BAD, 0, 0 } };
static const T ftoks[] = { { "1.5", OKV, 1, 1.5 }, { "-2e-3", OKV, 1, -2e-3 }, { "3*.25", OKV, 3, .25 }, { "2*-1E2", OKV, 2, -100 }, { "12*0", OKV, 12, 0 }, { "-- 8 / 9\n", CMT, 0, 0 },
                           { "/", SLASH, 0, 0 }, { "'a'", BAD, 0, 0 }, { "2*/", BAD, 0, 0 } };
static const char* seps[] = { " ", "\n", "\t\n  " };

static void tokens(bool isint, int len, int nsep)
{
    const T* tk = isint ? itoks : ftoks;
    std::vector<int> d(len, 0);
    do {
        for (int s = 0; s < nsep; ++s) {
            if (!vh::begin(vh::fmt("tok/%c/%s/%d", isint ? 'i' : 'f', vh::str(d).c_str(), s))) continue;
            std::string text = isint ? "SATNUM  trailing text\n" : "PORO\n";
            std::vector<double> want;
            int res = -1; // 0 ok 1 error, -1 undecided
            for (int i = 0; i < len; ++i) {
                const T& t = tk[d[i]];
                text += t.s;
                if (s == 2 && i + 1 < len && tk[d[i + 1]].kind == SLASH) {} else text += seps[s];
                if (res >= 0) continue;
                if (t.kind == OKV) want.insert(want.end(), t.n, t.v);
                else if (t.kind == SLASH) res = 0;
                else if (t.kind == BAD) res = 1;
            }
            if (res == -1) { // not terminated inside the sequence: the next keyword's first letter is met
                res = 1;
            }
            text += "\nSWAT\n 0.25 /\n";
            bool threw = false;
            dk::Deck p;
            try { p = dk::parse(text); } catch (const std::exception&) { threw = true; }
            vh::tr();
            vh::outcome(vh::fmt("%d", threw) + vh::str(want));
            if (res == 1) { VH_CHECK(threw, "accepted", "malformed data accepted: %s", text.c_str()); continue; }
            if (threw) { vh::fail("rejected", "well-formed data rejected: %s", text.c_str()); continue; }
            std::vector<double> got;
            if (isint) got.assign(p->getIntegerValue("SATNUM").begin(), p->getIntegerValue("SATNUM").end());
            else got = p->getFloatingPointValue("PORO");
            VH_CHECK(got == want, "values", "%s gave %s", text.c_str(), vh::str(got).c_str());
            if (!p->hasField("SWAT") || p->getFloatingPointValue("SWAT") != std::vector<double>(1, 0.25)) vh::fail("next", "keyword after %s lost", text.c_str());
            if (got.size() > 4) vh::sample(text);
        }
    } while (vh::next(d, 9));
}

static const char* ints[] = { "ACTNUM", "SATNUM", "EQLNUM", "REGNUM", "ROCKTYPE", "DIMENS", "REGDIMS", "WELLDIMS", "TABDIMS", "FIPNUM", "GRIDFILE" };
static const char* floats[] = { "COORD", "ZCORN", "PERMX", "PERMY", "PERMZ", "PERMXX", "PERMYY", "PERMZZ", "PERMXY", "PERMYZ", "PERMZX", "PORO", "BULKMOD", "YOUNGMOD", "LAMEMOD",
                                "SHEARMOD", "PWAVEMOD", "MULTPV", "PRESSURE", "SGAS", "SWAT", "SOIL", "RS", "DXV", "DYV", "DZV", "DEPTHZ", "TOPS", "MAPAXES", "SWCR", "SWL", "SWU", "SOWCR",
                                "KRW", "KRWR", "KRO", "KRORW" };
static const char* skips[] = { "RUNSPEC", "WATER", "OIL", "GRID", "PROPS", "SCHEDULE", "ECHO", "NOECHO", "UNKNOWN", "END", "NTG", "BOX", "SUMMARY" };
static const int NI = 11, NF = 37, NS = 13;

static bool has(const std::vector<std::string>& v, const std::string& s) { return std::count(v.begin(), v.end(), s) == 1; }

// Decks made of up to 3 keyword sections in every order; sections may repeat (the last one counts).
struct Sec { std::string key, text; int kind; std::vector<double> val; }; // kind 0 int 1 float 2 ignored
static std::vector<Sec> sections()
{
    std::vector<Sec> r;
    Sec s;
    s.kind = 0; s.key = "ACTNUM"; s.text = "ACTNUM\n2*1 0 /\n"; s.val = { 1, 1, 0 }; r.push_back(s);
    s.text = "ACTNUM\n0 /\n"; s.val = { 0 }; r.push_back(s);
    s.key = "DIMENS"; s.text = "DIMENS\n1 2\n 3/\n"; s.val = { 1, 2, 3 }; r.push_back(s);
    s.kind = 1; s.key = "PORO"; s.text = "PORO     -- porosity\n3*0.25\n-- comment\n 0.5 / done\n"; s.val = { .25, .25, .25, .5 }; r.push_back(s);
    s.text = "PORO\n/\n"; s.val.clear(); r.push_back(s);
    s.key = "SWAT"; s.text = "\n\n  \nSWAT\n\n0.125\n/\n"; s.val = { .125 }; r.push_back(s);
    s.kind = 2; s.val.clear();
    s.key = "RUNSPEC"; s.text = "RUNSPEC\n"; r.push_back(s);
    s.key = "FOOBAR"; s.text = "FOOBAR\n 1 2 3 /\n"; r.push_back(s);
    s.key = ""; s.text = "-- PORO\n  -- x\n/\n 1 2 3\n"; r.push_back(s);
    return r;
}
static void verify(const Opm::EclipseGridParser& p, const std::vector<Sec>& S, const std::vector<int>& d)
{
    std::map<std::string, const Sec*> last;
    for (size_t i = 0; i < d.size(); ++i) if (!S[d[i]].key.empty()) last[S[d[i]].key] = &S[d[i]];
    std::vector<std::string> names = p.fieldNames();
    VH_CHECK(names.size() == last.size(), "names", "%d fields, expected %d", (int)names.size(), (int)last.size());
    for (size_t i = 0; i < S.size(); ++i) if (!S[i].key.empty()) {
        bool want = last.count(S[i].key) > 0;
        VH_CHECK(p.hasField(S[i].key) == want, "has", "hasField(%s)", S[i].key.c_str());
        std::string low = S[i].key;
        for (size_t k = 0; k < low.size(); ++k) low[k] = tolower(low[k]);
        VH_CHECK(p.hasField(low) == want, "has", "hasField(%s)", low.c_str());
        VH_CHECK(has(names, S[i].key) == want, "names", "fieldNames %s", S[i].key.c_str());
    }
    for (std::map<std::string, const Sec*>::iterator it = last.begin(); it != last.end(); ++it) {
        const Sec& s = *it->second;
        if (s.kind == 0) { const std::vector<int>& v = p.getIntegerValue(s.key); VH_CHECK(std::vector<double>(v.begin(), v.end()) == s.val, "values", "%s", s.key.c_str()); }
        if (s.kind == 1) VH_CHECK(p.getFloatingPointValue(s.key) == s.val, "values", "%s", s.key.c_str());
        bool t = false;
        try { if (s.kind == 0) p.getFloatingPointValue(s.key); else p.getIntegerValue(s.key); } catch (const std::exception&) { t = true; }
        VH_CHECK(t, "type", "%s returned under the wrong type", s.key.c_str());
    }
    vh::tr();
}

void explore()
{
    dk::quiet();
    const int L = vh::thorough() ? 6 : 4;
    for (int isint = 0; isint < 2; ++isint) for (int len = 1; len <= L; ++len) tokens(isint, len, len < 4 ? 3 : len < 6 ? 2 : 1);
    // every keyword is stored, alone and next to every other
    for (int a = 0; a < NI + NF; ++a) for (int b = 0; b < NI + NF; ++b) {
        std::string ka = a < NI ? ints[a] : floats[a - NI], kb = b < NI ? ints[b] : floats[b - NI];
        if (!vh::begin("kw/" + ka + "/" + kb)) continue;
        std::string mid = skips[(a + b) % NS];
        dk::Deck p = dk::parse(mid + "\n\n" + ka + "\n 2*3 5 /\n-- x\n" + mid + "\n" + kb + "\n 7 2 /", false);
        VH_CHECK(p->hasField(ka) && p->hasField(kb) && p->hasField(mid), "has", "%s %s %s", ka.c_str(), kb.c_str(), mid.c_str());
        std::vector<std::string> both; both.push_back(ka); both.push_back(kb);
        VH_CHECK(p->hasFields(both), "has", "hasFields");
        both.push_back("EQUIL");
        VH_CHECK(!p->hasFields(both), "has", "hasFields with a missing one");
        for (int w = 0; w < 2; ++w) {
            const std::string& k = w ? kb : ka;
            std::vector<double> want = (k == kb) ? std::vector<double>{ 7, 2 } : std::vector<double>{ 3, 3, 5 }, got;
            if ((w ? b : a) < NI) got.assign(p->getIntegerValue(k).begin(), p->getIntegerValue(k).end());
            else got = p->getFloatingPointValue(k);
            VH_CHECK(got == want, "values", "%s: %s", k.c_str(), vh::str(got).c_str());
        }
        vh::tr(2);
    }
    // sequences of sections; split over include files at every boundary
    const std::vector<Sec> S = sections();
    const int M = vh::thorough() ? 4 : 3;
    for (int len = 1; len <= M; ++len) {
        std::vector<int> d(len, 0);
        do {
            if (vh::begin("seq/" + vh::str(d))) {
                std::string t;
                for (int i = 0; i < len; ++i) t += S[d[i]].text;
                verify(*dk::parse(t), S, d);
                for (int m = 1; m <= 6; ++m) if (m < 3 || len < 3) verify(*dk::parse(dk::rewrite(t, m)), S, d);
                // reading again with the same object replaces the old contents
                Opm::EclipseGridParser q;
                std::istringstream a(t), b(S[(d[len - 1] + 1 + len) % S.size()].text + (len & 1 ? "TSTEP\n 1 2 /\n" : ""));
                q.read(b); q.read(a);
                verify(q, S, d);
            }
            if (len > 1) for (int lo = 0; lo < len; ++lo) for (int hi = lo + 1; hi <= len; ++hi) for (int nest = 0; nest < (hi - lo > 1 ? 2 : 1); ++nest) {
                if (!vh::begin(vh::fmt("inc/%s/%d-%d/%d", vh::str(d).c_str(), lo, hi, nest))) continue;
                std::string dir = vh::scratch() + "/d";
                mkdir(dir.c_str(), 0700);
                mkdir((dir + "/sub").c_str(), 0700);
                std::string m, inc, inc2;
                for (int i = 0; i < lo; ++i) m += S[d[i]].text;
                for (int i = lo; i < hi; ++i) (nest && i > lo ? inc2 : inc) += S[d[i]].text;
                if (nest) inc += "INCLUDE\n'b.inc' /\n";
                m += nest ? "INCLUDE\n sub/a.inc /\n" : "INCLUDE\n'sub/a.inc' /\n";
                for (int i = hi; i < len; ++i) m += S[d[i]].text;
                std::ofstream(dir + "/m.data") << m;
                std::ofstream(dir + "/sub/a.inc") << inc;
                std::ofstream(dir + "/b.inc") << inc2;
                Opm::EclipseGridParser p(dir + "/m.data");
                std::vector<std::string> names = p.fieldNames();
                verify(p, S, d);
            }
        } while (vh::next(d, S.size()));
    }
    // cut the deck at every byte
    std::string full = "RUNSPEC\nDIMENS\n 3 2*1 /\nPORO\n-- c 1 /\n2*0.25 0.5 /\nACTNUM\n1 0 1/\n";
    std::vector<std::pair<std::string, std::pair<size_t, size_t> > > need; // keyword complete at .first, data complete (slash seen) at .second
    const char* ks[] = { "DIMENS", "PORO", "ACTNUM" };
    for (int i = 0; i < 3; ++i) {
        size_t a = full.find(ks[i]) + strlen(ks[i]);
        size_t b = i == 1 ? full.find(" /", full.find("0.5")) + 2 : full.find("/", a) + 1;
        need.push_back(std::make_pair(ks[i], std::make_pair(a, b)));
    }
    for (size_t n = 0; n <= full.size(); ++n) {
        if (!vh::begin(vh::fmt("cut/%d", (int)n))) continue;
        bool threw = false;
        dk::Deck p;
        try { p = dk::parse(full.substr(0, n)); } catch (const std::exception&) { threw = true; }
        bool want = false;
        for (int i = 0; i < 3; ++i) if (n >= need[i].second.first && n < need[i].second.second) want = true;
        VH_CHECK(threw == want, "cut", "deck cut after %d bytes: %s", (int)n, threw ? "rejected" : "accepted");
        if (!threw) for (int i = 0; i < 3; ++i) VH_CHECK(p->hasField(ks[i]) == (n >= need[i].second.second), "cut", "%s after %d bytes", ks[i], (int)n);
        vh::tr();
    }
    if (vh::begin("noinc")) {
        bool t = false;
        try { dk::parse("INCLUDE\n '/nonexistent/x' /\n"); } catch (const std::exception&) { t = true; }
        VH_CHECK(t, "include", "missing include file accepted");
        t = false;
        try { Opm::EclipseGridParser p("/nonexistent/deck"); } catch (const std::exception&) { t = true; }
        VH_CHECK(t, "open", "missing deck file accepted");
    }
    // long data: repeat counts and value counts around powers of two and beyond 16 and 24 bits
    static const long cnt[] = { 127, 128, 255, 256, 999, 1000, 4096, 32767, 32768, 65535, 65536, 70000, 131073, 16777217 };
    for (size_t q = 0; q < sizeof cnt / sizeof *cnt; ++q) for (int form = 0; form < 3; ++form) for (int isint = 0; isint < 2; ++isint) {
        if (cnt[q] > 200000 && (form || !isint)) continue;
        if (!vh::begin(vh::fmt("count/%ld/%d/%d", cnt[q], form, isint))) continue;
        // repeated; written out on one line; written out with a line each
        std::string t = isint ? "SATNUM\n" : "PORO\n";
        if (form == 0) t += vh::fmt("%ld*3 ", cnt[q]);
        else for (long i = 0; i < cnt[q]; ++i) t += vh::fmt("%ld%s", i % 7, form == 1 ? " " : "\n");
        t += "9 /\nSWAT\n 0.5 /\n";
        dk::Deck p = dk::parse(t, false);
        std::vector<double> g;
        if (isint) g.assign(p->getIntegerValue("SATNUM").begin(), p->getIntegerValue("SATNUM").end()); else g = p->getFloatingPointValue("PORO");
        bool ok = (long)g.size() == cnt[q] + 1 && g.back() == 9;
        for (long i = 0; ok && i < cnt[q]; ++i) ok = g[i] == (form ? i % 7 : 3);
        vh::tr();
        VH_CHECK(ok, "values", "%ld values in form %d, got %d", cnt[q], form, (int)g.size());
        VH_CHECK(p->hasField("SWAT") && p->getFloatingPointValue("SWAT")[0] == 0.5, "next", "%ld", cnt[q]);
    }
    // long and numerous comment lines and trailing texts in every position
    static const int ll[] = { 1, 79, 128, 254, 255, 256, 257, 999, 1000, 1001, 5000, 70000 };
    for (int a = 0; a < 12; ++a) for (int pos = 0; pos < 6; ++pos) for (int rep = 1; rep <= 2; ++rep) for (int isint = 0; isint < 2; ++isint) if (vh::begin(vh::fmt("longline/%d/%d/%d/%d", ll[a], pos, rep, isint))) {
        std::string x(ll[a], '5'), t, c;
        for (size_t i = 3; i < x.size(); i += 11) x[i] = " /x\t-'*"[i % 7];
        for (int r = 0; r < rep; ++r) c += "--" + x + "\n";
        if (pos == 0) t += c;
        t += isint ? "SATNUM" : "PORO";
        if (pos == 1) t += " " + x;
        t += "\n";
        if (pos == 2) t += c;
        t += " 1 2";
        if (pos == 3) t += " " + c;
        t += " 2*3\n";
        if (pos == 4) t += c;
        t += pos == 5 ? " / " + x + "\n" : std::string("/\n");
        t += "SWAT\n 0.5 /\n";
        dk::Deck p;
        try { p = dk::parse(t, false); } catch (const std::exception& e) { vh::fail("rejected", "line of %d at %d: %s", ll[a], pos, e.what()); continue; }
        std::vector<double> g;
        if (isint) { if (p->hasField("SATNUM")) g.assign(p->getIntegerValue("SATNUM").begin(), p->getIntegerValue("SATNUM").end()); } else if (p->hasField("PORO")) g = p->getFloatingPointValue("PORO");
        vh::tr();
        VH_CHECK(g == (std::vector<double>{ 1, 2, 3, 3 }), "values", "line of %d at %d: %s", ll[a], pos, vh::str(g).c_str());
        VH_CHECK(p->hasField("SWAT") && p->getFloatingPointValue("SWAT")[0] == 0.5 && p->fieldNames().size() == 2, "next", "line of %d at %d", ll[a], pos);
    }
    // lower-case names in queries, for arrays, records and ignored keywords alike
    if (vh::begin("case")) {
        dk::Deck p = dk::parse("RUNSPEC\nDENSITY\n 1 2 3 /\nWELOPEN\n W OPEN /\n/\nPORO\n 1 /\nSATNUM\n 1 /\n", false);
        static const char* k[] = { "density", "Density", "DENSITY", "welopen", "WELOPEN", "poro", "Poro", "satnum", "runspec", "RUNSPEC" };
        for (int i = 0; i < 10; ++i) { vh::tr(); VH_CHECK(p->hasField(k[i]), "has", "%s", k[i]); VH_CHECK(p->hasFields(std::vector<std::string>(2, k[i])), "has", "%s", k[i]); }
        static const char* no[] = { "dens", "DENSITYX", "rock", "", "PERMX" };
        for (int i = 0; i < 5; ++i) { vh::tr(); VH_CHECK(!p->hasField(no[i]), "has", "%s", no[i]); }
    }
}
