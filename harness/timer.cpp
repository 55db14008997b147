// The simulation clock: every operation sequence on timers set up from parameters and decks, and whole epoch loops.
#include "deck.hpp"
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <new>
typedef std::vector<double> V;
namespace bg = boost::gregorian;
static const double DAY = 86400;
struct Setup { std::string name; bool param; int n; double days; std::string deck; V steps; bg::date start; };
static std::vector<Setup> setups()
{
    std::vector<Setup> s;
    const bg::date dflt(2012, 1, 1);
    static const int pn[] = { -1, 0, 1, 3, 4 };
    static const double pd[] = { 0, 2, 30, 0.5, 36525 };
    for (int i = 0; i < 5; ++i) { Setup x; x.name = vh::fmt("p%d", pn[i]); x.param = true; x.n = pn[i]; x.days = pd[i]; x.steps.assign(i ? pn[i] : 1, (i ? pd[i] : 1.0) * DAY); x.start = dflt; s.push_back(x); }
    struct D { const char* n; const char* t; int k; double d[5]; int y, m, dd; };
    static const D D_[] = {
        { "steps", "START\n 15 FEB 2011 /\nTSTEP\n 1 2*1.5 10 /\n", 4, { 1, 1.5, 1.5, 10 }, 2011, 2, 15 },
        { "dates", "START\n 1 JAN 2000 /\nDATES\n 1 MAR 2000 /\n 1 JAN 2001 /\n/\nTSTEP\n 0.25 /\n", 3, { 60, 306, 0.25 }, 2000, 1, 1 },
        { "nostart", "TSTEP\n 5 /\n", 1, { 5 }, 1983, 1, 1 },
        { "long", "START\n 1 JLY 1950 /\nTSTEP\n 3*24855 0.5 /\n", 4, { 24855, 24855, 24855, 0.5 }, 1950, 7, 1 },
    };
    for (int i = 0; i < 4; ++i) { Setup x; x.name = D_[i].n; x.param = false; x.deck = D_[i].t; for (int k = 0; k < D_[i].k; ++k) x.steps.push_back(D_[i].d[k] * DAY); x.start = bg::date(D_[i].y, D_[i].m, D_[i].dd); s.push_back(x); }
    return s;
}
struct Model { V steps; int cur; double total; bg::date start; };
static double upto(const V& s, int n) { double t = 0; for (int i = 0; i < n; ++i) t += s[i]; return t; }
static bool check(const Opm::SimulatorTimer& t, const Model& m, const std::string& what, bool clock = true)
{
    size_t before = vh::ctx().viol.size();
    const int n = m.steps.size();
    const double now = upto(m.steps, m.cur);
    VH_CHECK(t.numSteps() == n, "count", "%s: %d steps, expected %d", what.c_str(), t.numSteps(), n);
    VH_CHECK(vh::close_to(t.totalTime(), m.total, 1e-13), "total", "%s: total %.17g, expected %.17g", what.c_str(), t.totalTime(), m.total);
    VH_CHECK(t.currentStepNum() == m.cur, "step", "%s: at step %d, expected %d", what.c_str(), t.currentStepNum(), m.cur);
    VH_CHECK(t.done() == (m.cur == n), "done", "%s: done() is %d at step %d of %d", what.c_str(), t.done(), m.cur, n);
    VH_CHECK(vh::close_to(t.currentTime(), now, 1e-13), "time", "%s: time %.17g, expected %.17g", what.c_str(), t.currentTime(), now);
    if (m.cur < n) {
        VH_CHECK(t.currentStepLength() == m.steps[m.cur], "length", "%s: step length %.17g, expected %.17g", what.c_str(), t.currentStepLength(), m.steps[m.cur]);
        std::ostringstream o; t.report(o);
        std::vector<double> num; std::string s = o.str();
        for (size_t i = 0; i < s.size();) { if (isdigit((unsigned char)s[i])) { char* e; num.push_back(strtod(s.c_str() + i, &e)); i = e - s.c_str(); } else ++i; }
        double want[4] = { double(m.cur), now / DAY, m.steps[m.cur] / DAY, m.total / DAY };
        bool ok = num.size() == 4;
        for (int i = 0; ok && i < 4; ++i) ok = vh::close_to(num[i], want[i], 1e-5);
        VH_CHECK(ok, "report", "%s: report reads %s", what.c_str(), s.c_str());
    }
    // the date: start plus whole days and seconds, counted without seconds-long intermediate integers
    boost::posix_time::ptime p = t.currentDateTime(), p0(m.start);
    const double d = double((p.date() - m.start).days()) * DAY + double(p.time_of_day().total_seconds());
    VH_CHECK(!p.is_special() && std::fabs(d - now) <= 1.0, "date", "%s: date is %.0f s after the start, expected %.6f", what.c_str(), d, now);
    (void)p0; (void)clock;
    return vh::ctx().viol.size() == before;
}
static void init(Opm::SimulatorTimer& t, const Setup& s, const Opm::EclipseGridParser* deck)
{
    if (s.param) {
        Opm::parameter::ParameterGroup p;
        if (s.n >= 0) { p.insertParameter("num_psteps", vh::fmt("%d", s.n)); p.insertParameter("stepsize_days", dk::num(s.days)); }
        t.init(p);
    } else t.init(*deck);
}
// Storage filled with a pattern, so that members that are never set show up
struct Slot {
    char* mem; Opm::SimulatorTimer* t;
    Slot() : mem(static_cast<char*>(::operator new(sizeof(Opm::SimulatorTimer)))) { memset(mem, 0x41, sizeof(Opm::SimulatorTimer)); t = new (mem) Opm::SimulatorTimer; }
    ~Slot() { t->~SimulatorTimer(); ::operator delete(mem); }
};
static void history(const Setup& s, const Opm::EclipseGridParser* deck, const std::vector<int>& ops)
{
    Slot slot; Opm::SimulatorTimer& t = *slot.t;
    Model m; m.cur = 0; m.total = 0; m.start = bg::date(2012, 1, 1);
    if (!check(t, m, "new timer")) return;
    init(t, s, deck);
    m.steps = s.steps; m.total = upto(s.steps, s.steps.size()); m.start = s.start;
    std::string what = "start";
    if (!check(t, m, what)) return;
    int n = m.steps.size();
    for (size_t i = 0; i < ops.size(); ++i) {
        int target = 0; bool set = true;
        switch (ops[i]) {
        case 0: {
            set = false; what += " ++";
            if (m.cur < n) { ++t; ++m.cur; break; }
            bool refused = false;
            { std::streambuf* e = std::cerr.rdbuf(0); try { ++t; } catch (const std::exception&) { refused = true; } std::cerr.rdbuf(e); std::cerr.clear(); }
            if (!refused) { vh::fail("done", "%s: went on after the last step", what.c_str()); return; }
            break;
        }
        case 1: target = -1; break;
        case 2: target = 0; break;
        case 3: target = 1; break;
        case 4: target = n; break;
        case 5: target = n + 1; break;
        case 6: set = false; m.total = 12345.5 * (i + 1); t.setTotalTime(m.total); what += " total"; break;
        case 7: set = false; init(t, s, deck); m.steps = s.steps; n = m.steps.size(); m.total = upto(s.steps, n); m.cur = std::min(m.cur, n); t.setCurrentStepNum(m.cur); what += " init+set"; break;
        case 8: target = 1000000; break;
        case 9: { // the timer of a new run, with other steps
            set = false; what += " other";
            Setup o; o.param = true; o.n = 1 + i; o.days = 7 + i; init(t, o, 0);
            n = o.n; m.steps.assign(n, o.days * DAY); m.total = upto(m.steps, n); m.cur = std::min(m.cur, n); t.setCurrentStepNum(m.cur);
            break;
        }
        }
        if (set) {
            what += vh::fmt(" set(%d)", target);
            bool threw = false;
            try { t.setCurrentStepNum(target); } catch (const std::exception&) { threw = true; }
            if (threw != (target < 0 || target > n)) { vh::fail("set", "%s: step %d of %d was %s", what.c_str(), target, n, threw ? "refused" : "accepted"); return; }
            if (!threw) m.cur = target;
        }
        vh::tr();
        if (!check(t, m, what)) return;
    }
    // run to the end
    int left = n - m.cur;
    for (int i = 0; i < left; ++i) { if (t.done()) { vh::fail("done", "%s: done early", what.c_str()); return; } ++t; ++m.cur; }
    check(t, m, what + " end");
    vh::outcome(what);
}
// The loop of the simulators over the epochs of a schedule: every time step is taken once, in order.
static void epochs(const std::vector<int>& ops)
{
    std::string text = "START\n 1 JAN 2000 /\n"; V steps; int serial = 0; std::vector<int> upto_;
    bool stepping = false;
    for (size_t i = 0; i < ops.size(); ++i) {
        ++serial;
        if (ops[i] == 0) { if (stepping) upto_.push_back(steps.size()); stepping = false; text += vh::fmt("WELOPEN\n W%d OPEN /\n/\n", serial); }
        else if (ops[i] == 1) { text += vh::fmt("TSTEP\n %d 2*%d.5 /\n", serial, serial); steps.push_back(serial * DAY); steps.push_back((serial + 0.5) * DAY); steps.push_back((serial + 0.5) * DAY); stepping = true; }
        else { text += vh::fmt("TSTEP\n 0.%d /\n", serial); steps.push_back(strtod(vh::fmt("0.%d", serial).c_str(), 0) * DAY); stepping = true; }
    }
    upto_.push_back(steps.size());
    if (upto_[0] == 0) return;                    // no time step at all
    dk::Deck deck = dk::parse(text);
    Slot slot; Opm::SimulatorTimer& t = *slot.t;
    deck->setCurrentEpoch(deck->numberOfEpochs() - 1);
    t.init(*deck);
    const double total = t.totalTime();
    Model m; m.steps = steps; m.cur = steps.size(); m.total = upto(steps, steps.size()); m.start = bg::date(2000, 1, 1);
    VH_CHECK(vh::close_to(total, m.total, 1e-13), "total", "%s: total %.17g", text.c_str(), total);
    int step = 0; double now = 0;
    for (int e = 0; e < deck->numberOfEpochs(); ++e) {
        deck->setCurrentEpoch(e);
        t.init(*deck); t.setCurrentStepNum(step); t.setTotalTime(total);
        for (; !t.done(); ++t) {
            if (step >= (int)steps.size() || t.currentStepNum() != step || t.currentStepLength() != steps[step] || !vh::close_to(t.currentTime(), now, 1e-13) || !vh::close_to(t.totalTime(), m.total, 1e-13)) {
                vh::fail("epochs", "epoch %d step %d of\n%s", e, step, text.c_str()); return;
            }
            now += steps[step]; ++step; vh::tr();
        }
        if (t.currentStepNum() != step) { vh::fail("epochs", "epoch %d ends at step %d of\n%s", e, t.currentStepNum(), text.c_str()); return; }
        if (e < (int)upto_.size() && step != upto_[e]) { vh::fail("epochs", "epoch %d ends after %d steps, expected %d, of\n%s", e, step, upto_[e], text.c_str()); return; }
    }
    VH_CHECK(step == (int)steps.size(), "epochs", "%d of %d steps taken of\n%s", step, (int)steps.size(), text.c_str());
    vh::outcome(text);
}
void explore()
{
    dk::quiet();
    std::vector<Setup> S = setups();
    const int L = vh::thorough() ? 6 : 4;
    for (size_t k = 0; k < S.size(); ++k) {
        dk::Deck deck;
        if (!S[k].param) deck = dk::parse(S[k].deck);
        std::vector<int> d(L, 0);
        do { if (vh::begin(S[k].name + "/" + vh::str(d))) { history(S[k], deck.get(), d); if (d[0] == 3 && d[1] == 0) vh::sample(vh::ctx().cur); } } while (vh::next(d, 10));
    }
    for (int len = 1; len <= (vh::thorough() ? 9 : 6); ++len) {
        std::vector<int> d(len, 0);
        do { if (vh::begin("epochs/" + vh::str(d))) epochs(d); } while (vh::next(d, 3));
    }
    // many periods
    for (int n = 12; n <= 60; n += 12) for (int pat = 0; pat < 12; ++pat) if (vh::begin(vh::fmt("epochs/%d/%d", n, pat))) {
        std::vector<int> d(n);
        for (int i = 0; i < n; ++i) d[i] = pat == 0 ? i % 2 : pat == 1 ? 2 : pat == 2 ? i == n / 2 ? 0 : 1 : (i * (pat + 1) + i / 4) % 3;
        epochs(d);
    }
}
