// Schedules: every short sequence of well events, time steps, dates and arrays -> epochs, steps and their contents.
#include "deckrec.hpp"
#include <opm/core/simulator/SimulatorTimer.hpp>

struct Epoch { std::vector<double> prod; std::vector<std::string> open; std::vector<double> steps; bool hp, ho, ht; };

// file: 0 stream, 1 file, 100 + 8 * lo + hi: operations lo..hi-1 in an include file; 200 + m: rewritten text
static void run(const std::vector<int>& ops, int start, int file)
{
    // start: 0 none, 1 START first, 2 START after the first keyword
    std::string t = "";
    if (start == 1) t += "START\n 15 'FEB' 2012 /\n";
    std::vector<Epoch> E(1);
    E[0].hp = E[0].ho = E[0].ht = false;
    double now = 0, poro = 0;
    bool stepping = false;
    namespace bg = boost::gregorian;
    bg::date d0 = start ? bg::date(2012, 2, 15) : bg::date(1983, 1, 1);
    int serial = 0;
    bool first = true;
    std::vector<size_t> cut;
    for (size_t i = 0; i < ops.size(); ++i) {
        int o = ops[i];
        cut.push_back(t.size());
        ++serial;
        if (o <= 1 && stepping) { E.push_back(E.back()); stepping = false; }
        Epoch& e = E.back();
        switch (o) {
        case 0: t += vh::fmt("WCONPROD\n W%d OPEN ORAT %d /\n/\n", serial, serial); e.prod.push_back(serial); e.hp = true; break;
        case 1: t += vh::fmt("WELOPEN\n W%d SHUT /\n V%d OPEN /\n/\n", serial, serial); e.open.push_back(vh::fmt("W%d", serial)); e.open.push_back(vh::fmt("V%d", serial)); e.ho = true; break;
        case 2: t += vh::fmt("TSTEP\n %d /\n", serial); e.steps.push_back(serial); now += serial; break;
        case 3: t += "TSTEP\n 2*1.5 10.25 /\n"; e.steps.push_back(1.5); e.steps.push_back(1.5); e.steps.push_back(10.25); now += 13.25; break;
        case 4: case 5: {
            t += "DATES\n";
            for (int q = 0; q < (o == 5 ? 2 : 1); ++q) {
                // first day of the next-but-one month after the current time
                bg::date d = d0 + bg::date_duration((long)(now + 40));
                d = bg::date(d.year(), d.month(), q ? 28 : 1);
                static const char* mon[] = { "JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JLY", "AUG", "SEP", "OCT", "NOV", "DEC" };
                t += vh::fmt(" %d '%s' %d /\n", (int)d.day(), mon[d.month() - 1], (int)d.year());
                double day = (d - d0).days();
                e.steps.push_back(day - now);
                now = day;
            }
            t += "/\n";
            break;
        }
        case 6: t += vh::fmt("-- comment\nPORO\n %d /\nSCHEDULE\n", serial); poro = serial; break;
        }
        if (o >= 2 && o <= 5) { stepping = true; e.ht = true; }
        if (first && start == 2) { t += "START\n 15 'FEB' 2012 /\n"; }
        first = false;
    }
    dk::Deck p;
    try {
        cut.push_back(t.size());
        if (file >= 200) p = dk::parse(dk::rewrite(t, file - 200), false);
        else if (file) {
            std::string dir = vh::scratch() + "/s";
            mkdir(dir.c_str(), 0700);
            if (file >= 100) {
                size_t lo = cut[(file - 100) / 8], hi = cut[(file - 100) % 8];
                FILE* f = fopen((dir + "/inc").c_str(), "w");
                fputs(t.substr(lo, hi - lo).c_str(), f);
                fclose(f);
                t = t.substr(0, lo) + "INCLUDE\n 'inc' /\n" + t.substr(hi);
            }
            FILE* f = fopen((dir + "/deck").c_str(), "w");
            fputs(t.c_str(), f);
            fclose(f);
            p.reset(new Opm::EclipseGridParser(dir + "/deck", false));
        } else p = dk::parse(t, false);
    } catch (const std::exception& e) { vh::fail("rejected", "%s for:\n%s", e.what(), t.c_str()); return; }
    vh::tr();
    if (p->numberOfEpochs() != (int)E.size()) { vh::fail("epochs", "%d epochs, expected %d for:\n%s", p->numberOfEpochs(), (int)E.size(), t.c_str()); return; }
    bool timed = false;
    for (size_t k = 0; k < E.size(); ++k) timed |= E[k].ht;
    if (timed) VH_CHECK(p->getStartDate() == d0, "start", "%s", t.c_str());
    if (poro) VH_CHECK(p->getFloatingPointValue("PORO") == std::vector<double>(1, poro), "array", "%s", t.c_str());
    for (int rev = 0; rev < 2; ++rev) for (size_t q = 0; q < E.size(); ++q) {
        size_t k = rev ? E.size() - 1 - q : q;
        if (k || rev) p->setCurrentEpoch(k);
        const Epoch& e = E[k];
        vh::state();
        if (p->hasField("WCONPROD") != e.hp || p->hasField("WELOPEN") != e.ho || p->hasField("TSTEP") != e.ht) { vh::fail("fields", "epoch %d of:\n%s", (int)k, t.c_str()); return; }
        if (e.hp) {
            std::vector<double> g;
            for (size_t i = 0; i < p->getWCONPROD().wconprod.size(); ++i) g.push_back(p->getWCONPROD().wconprod[i].oil_max_rate_);
            if (g != e.prod) { vh::fail("contents", "WCONPROD epoch %d %s of:\n%s", (int)k, vh::str(g).c_str(), t.c_str()); return; }
        }
        if (e.ho) {
            std::vector<std::string> g;
            for (size_t i = 0; i < p->getWELOPEN().welopen.size(); ++i) g.push_back(p->getWELOPEN().welopen[i].well_);
            if (g != e.open) { vh::fail("contents", "WELOPEN epoch %d of:\n%s", (int)k, t.c_str()); return; }
        }
        if (e.ht && p->getTSTEP().tstep_ != e.steps) { vh::fail("steps", "epoch %d %s expected %s of:\n%s", (int)k, vh::str(p->getTSTEP().tstep_).c_str(), vh::str(e.steps).c_str(), t.c_str()); return; }
    }
    if (E.size() > 2 && start) vh::sample(t);
    std::string s;
    for (size_t k = 0; k < E.size(); ++k) s += vh::str(E[k].steps) + "|" + vh::str(E[k].prod) + ";";
    vh::outcome(s);
}

void explore()
{
    dk::quiet();
    const int L = vh::thorough() ? 7 : 5;
    for (int len = 1; len <= L; ++len) {
        std::vector<int> d(len, 0);
        do {
            for (int s = 0; s < 3; ++s) {
                if (s == 2 && d[0] >= 2 && d[0] <= 5) continue;
                if (len == L && s == 0 && len > 5) continue;
                if (!vh::begin(vh::fmt("%d/", s) + vh::str(d))) continue;
                run(d, s, len <= 2);
            }
            // part of the schedule in an include file; the same schedule with other comments and line ends
            if (len <= (vh::thorough() ? 5 : 4)) for (int lo = 0; lo < len; ++lo) for (int hi = lo + 1; hi <= len; ++hi) if (hi - lo < len && vh::begin(vh::fmt("inc%d-%d/", lo, hi) + vh::str(d))) run(d, 1, 100 + 8 * lo + hi);
            if (len <= (vh::thorough() ? 5 : 3)) for (int m = 1; m <= 6; ++m) for (int s = 0; s < (len < 3 ? 2 : 1); ++s) if ((len < 3 || m < 3) && vh::begin(vh::fmt("re%d.%d/", m, s) + vh::str(d))) run(d, s, 200 + m);
        } while (vh::next(d, 7));
    }
    // one parser object reading two schedules
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) if (vh::begin(vh::fmt("reread/%d%d", a, b))) {
        static const char* D[] = { "START\n 1 JAN 2000 /\nWELOPEN\n W OPEN /\n/\nTSTEP\n 5 /\n", "DATES\n 11 JAN 1983 /\n/\nWELOPEN\n W OPEN /\n/\n", "WELOPEN\n W OPEN /\n/\nTSTEP\n 1 /\nWELOPEN\n V OPEN /\n/\nDATES\n 11 JAN 1983 /\n/\n",
                                   "START\n 1 JUL 1990 /\nWELOPEN\n A OPEN /\n/\nDATES\n 1 AUG 1990 /\n/\n" };
        static const int ne[] = { 1, 2, 2, 1 };
        static const double last[] = { 5, 10, 9, 31 };
        Opm::EclipseGridParser p;
        std::istringstream x(D[a]), y(D[b]);
        p.read(x, false); p.read(y, false);
        VH_CHECK(p.numberOfEpochs() == ne[b], "epochs", "%d", p.numberOfEpochs());
        p.setCurrentEpoch(p.numberOfEpochs() - 1);
        if (p.hasField("TSTEP")) VH_CHECK(p.getTSTEP().tstep_.back() == last[b], "steps", "%g", p.getTSTEP().tstep_.back());
        VH_CHECK(p.getWELOPEN().welopen.size() == (b == 2 ? 2u : 1u), "contents", "records");
        vh::tr();
    }
    // many periods, looked at in every order of two and three; dates far from the start
    for (int ne = 2; ne <= 40; ne += ne < 12 ? 1 : 14) for (int mode = 0; mode < 2; ++mode) if (vh::begin(vh::fmt("many/%d/%d", ne, mode))) {
        namespace bg = boost::gregorian;
        std::string t = "START\n 1 JAN 1900 /\n";
        const bg::date d0(1900, 1, 1);
        std::vector<double> steps;
        std::vector<size_t> ns;
        double now = 0;
        for (int e = 0; e < ne; ++e) {
            t += vh::fmt("WELOPEN\n W%d OPEN /\n/\n", e);
            if (mode && e % 2) { t += vh::fmt("TSTEP\n 3*0.125 %d /\n", 40 + e); for (int k = 0; k < 3; ++k) steps.push_back(.125); steps.push_back(40 + e); now += 40.375 + e; }
            else { int y = 1900 + 61 * (e + 1) + e; t += vh::fmt("DATES\n 28 FEB %d /\n 1 'MAR' %d /\n/\n", y, y); double a = (bg::date(y, 2, 28) - d0).days(), b = (bg::date(y, 3, 1) - d0).days(); steps.push_back(a - now); steps.push_back(b - a); now = b; }
            ns.push_back(steps.size());
        }
        dk::Deck p = dk::parse(t, false);
        if (p->numberOfEpochs() != ne) { vh::fail("epochs", "%d of %d", p->numberOfEpochs(), ne); continue; }
        for (int a = 0; a < ne; ++a) for (int b = 0; b < ne; ++b) for (int c = 0; c < (ne <= 6 ? ne : 1); ++c) {
            int seq[3] = { a, b, c };
            for (int k = 0; k < 3; ++k) {
                int e = seq[k];
                p->setCurrentEpoch(e);
                vh::tr();
                if (p->getTSTEP().tstep_ != std::vector<double>(steps.begin(), steps.begin() + ns[e])) { vh::fail("steps", "period %d of %d: %s expected %s", e, ne, vh::str(p->getTSTEP().tstep_).c_str(), vh::str(steps).c_str()); return; }
                if ((int)p->getWELOPEN().welopen.size() != e + 1 || p->getWELOPEN().welopen.back().well_ != vh::fmt("W%d", e)) { vh::fail("contents", "period %d of %d", e, ne); return; }
            }
        }
    }
    // long lists of dates and steps, written in every way
    for (int nd = 1; nd <= 50; nd += nd < 9 ? 1 : 8) for (int m = 0; m <= 6; ++m) if (vh::begin(vh::fmt("list/%d/%d", nd, m))) {
        std::string t = "TSTEP\n";
        std::vector<double> w;
        for (int i = 0; i < nd; ++i) { t += vh::fmt(" %d%s", i + 1, i % 2 ? "\n" : ""); w.push_back(i + 1); }
        t += "/\nDATES\n";
        boost::gregorian::date d0(1983, 1, 1);
        double now = nd * (nd + 1) / 2;
        for (int i = 0; i < nd; ++i) { t += vh::fmt(" 17 %s %d /\n", i % 2 ? "OCT" : "'JUN'", 1984 + i); double x = (boost::gregorian::date(1984 + i, i % 2 ? 10 : 6, 17) - d0).days(); w.push_back(x - now); now = x; }
        t += "/\nWELOPEN\n W OPEN /\n/\n";
        try {
            dk::Deck p = dk::parse(m ? dk::rewrite(t, m) : t, false);
            VH_CHECK(p->numberOfEpochs() == 2 && p->getTSTEP().tstep_ == w, "steps", "%d dates, form %d: %s", nd, m, vh::str(p->getTSTEP().tstep_).c_str());
        } catch (const std::exception& e) { vh::fail("rejected", "%d dates, form %d: %s", nd, m, e.what()); }
        vh::tr();
    }
}
