// Exploration support shared by all harnesses: sharding, case identification, crash and
// hang attribution, violation recording.  Each harness defines  void explore();
#ifndef VH_HPP
#define VH_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
#include <sstream>
#include <limits>
#include <unistd.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>

namespace vh {
    struct Ctx {
        std::string out, only, known_file, scratch;
        bool thorough;
        int shard, nshards;
        long index;            // cases met so far (all shards)
        long states, transitions, cases;
        std::string cur;
        char* shm;
        std::vector<std::string> known;
        std::vector<std::pair<std::string, std::string> > viol; // id, text
        std::map<std::string, long> knownhit;
        std::map<std::string, std::string> knowntext;
        std::set<uint64_t> outcomes;
        std::vector<std::string> samples;
        int maxviol;
        bool infork;
        int forkfd;
        Ctx() : thorough(false), shard(0), nshards(1), index(0), states(0), transitions(0), cases(0),
                shm(0), maxviol(8), infork(false), forkfd(-1) {}
    };
    inline Ctx& ctx() { static Ctx* c = new Ctx; return *c; }
    inline bool thorough() { return ctx().thorough; }
    inline std::string scratch() { return ctx().scratch; }

    inline std::string vfmt(const char* f, va_list ap) {
        char buf[4096];
        vsnprintf(buf, sizeof buf, f, ap);
        return buf;
    }
    inline std::string fmt(const char* f, ...) {
        va_list ap; va_start(ap, f);
        std::string s = vfmt(f, ap);
        va_end(ap);
        return s;
    }
    inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
        return h;
    }
    inline void watchdog(int sec) {
        struct itimerval it; memset(&it, 0, sizeof it);
        it.it_value.tv_sec = sec;
        setitimer(ITIMER_VIRTUAL, &it, 0);
    }
    struct Done {};
    // Enter a case.  False: not for this shard (or not the replayed one).
    inline bool begin(const std::string& id) {
        Ctx& c = ctx();
        long k = c.index++;
        if (!c.only.empty()) { if (id != c.only) return false; }
        else if (k % c.nshards != c.shard) return false;
        c.cur = id;
        if (c.shm) { size_t n = std::min<size_t>(id.size(), 4000); memcpy(c.shm, id.data(), n); c.shm[n] = 0; }
        if ((c.cases++ & 15) == 0) watchdog(90);
        ++c.states;
        return true;
    }
    // true when the whole group of cases with this prefix can be skipped in a replay
    inline void tr(long n = 1) { ctx().transitions += n; }
    inline void state(long n = 1) { ctx().states += n; }
    inline void outcome(uint64_t h) { if (ctx().outcomes.size() < 2000000) ctx().outcomes.insert(h); }
    inline void outcome(const std::string& s) { outcome(hash(s.data(), s.size())); }
    inline void sample(const std::string& s) { if (ctx().samples.size() < 3) ctx().samples.push_back(s); }

    inline void finish();
    inline void fail(const char* kind, const char* f, ...) {
        Ctx& c = ctx();
        va_list ap; va_start(ap, f);
        std::string s = vfmt(f, ap);
        va_end(ap);
        std::string key = std::string(kind) + "|" + c.cur;
        for (size_t i = 0; i < c.known.size(); ++i) {
            if (fnmatch(c.known[i].c_str(), key.c_str(), 0) == 0) {
                c.knownhit[c.known[i]]++;
                c.knowntext[c.known[i]] = key + " " + s;
                return;
            }
        }
        c.viol.push_back(std::make_pair(c.cur, std::string(kind) + ": " + s));
        if (c.infork) return;
        if ((int)c.viol.size() >= c.maxviol) { finish(); _exit(0); }
    }
    inline std::string jesc(const std::string& s) {
        std::string o;
        for (size_t i = 0; i < s.size(); ++i) {
            unsigned char ch = s[i];
            if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
            else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += ch;
        }
        return o;
    }
    inline void finish() {
        Ctx& c = ctx();
        FILE* f = fopen(c.out.c_str(), "w");
        if (!f) _exit(3);
        fprintf(f, "{\"states\":%ld,\"transitions\":%ld,\"cases\":%ld,\"index\":%ld,\"violations\":[",
                c.states, c.transitions, c.cases, c.index);
        for (size_t i = 0; i < c.viol.size(); ++i)
            fprintf(f, "%s[\"%s\",\"%s\"]", i ? "," : "", jesc(c.viol[i].first).c_str(), jesc(c.viol[i].second).c_str());
        fprintf(f, "],\"known\":{");
        bool first = true;
        for (std::map<std::string, long>::iterator it = c.knownhit.begin(); it != c.knownhit.end(); ++it, first = false)
            fprintf(f, "%s\"%s\":[%ld,\"%s\"]", first ? "" : ",", jesc(it->first).c_str(), it->second,
                    jesc(c.knowntext[it->first]).c_str());
        fprintf(f, "},\"samples\":[");
        for (size_t i = 0; i < c.samples.size(); ++i)
            fprintf(f, "%s\"%s\"", i ? "," : "", jesc(c.samples[i]).c_str());
        fprintf(f, "],\"outcomes\":[");
        first = true;
        for (std::set<uint64_t>::iterator it = c.outcomes.begin(); it != c.outcomes.end(); ++it, first = false)
            fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)*it);
        fprintf(f, "]}\n");
        fclose(f);
    }
    inline void on_alarm(int) {
        static const char m[] = "\nVH-WATCHDOG: case exceeded its CPU-time limit\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(97);
    }
    // Run f in a child; result: 0 normal, 1 threw (what() in *msg), 2 crashed/aborted/hung.
    inline int isolated(const std::function<void()>& f, std::string* msg = 0) {
        int p[2];
        if (pipe(p)) _exit(3);
        fflush(0);
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            int rc = 0;
            std::string m;
            watchdog(60);
            try { f(); } catch (const std::exception& e) { rc = 1; m = e.what(); } catch (...) { rc = 1; m = "?"; }
            if (m.size() > 4000) m.resize(4000);
            (void)!write(p[1], m.data(), m.size());
            _exit(rc);
        }
        close(p[1]);
        std::string m; char b[512]; ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) m.append(b, n);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (msg) *msg = m;
        if (WIFEXITED(st) && WEXITSTATUS(st) <= 1) return WEXITSTATUS(st);
        return 2;
    }
    inline bool close_to(double a, double b, double rel, double abs = 0) {
        if (!(a == a) || !(b == b)) return false;
        if (a == b) return true;
        return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
    }
    template <class V> std::string str(const V& v) {
        std::ostringstream o; o.precision(10);
        for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
        return o.str();
    }
    // Odometer over given radices; true while valid.
    inline bool next(std::vector<int>& d, const std::vector<int>& radix) {
        for (size_t i = 0; i < d.size(); ++i) { if (++d[i] < radix[i]) return true; d[i] = 0; }
        return false;
    }
    inline bool next(std::vector<int>& d, int radix) {
        for (size_t i = 0; i < d.size(); ++i) { if (++d[i] < radix) return true; d[i] = 0; }
        return false;
    }
}
void explore();
#define VH_CHECK(cond, kind, ...) do { if (!(cond)) vh::fail(kind, __VA_ARGS__); } while (0)

int main(int argc, char** argv)
{
    vh::Ctx& c = vh::ctx();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--out") c.out = v;
        else if (k == "--only") c.only = v;
        else if (k == "--shard") sscanf(v.c_str(), "%d/%d", &c.shard, &c.nshards);
        else if (k == "--tier") c.thorough = (v == "thorough");
        else if (k == "--scratch") c.scratch = v;
        else if (k == "--known") {
            FILE* f = fopen(v.c_str(), "r");
            char line[4096];
            while (f && fgets(line, sizeof line, f)) {
                size_t n = strlen(line);
                while (n && line[n - 1] == '\n') line[--n] = 0;
                if (n) c.known.push_back(line);
            }
            if (f) fclose(f);
        }
    }
    if (!c.only.empty()) { c.shard = 0; c.nshards = 1; }
    std::string cur = c.out + ".cur";
    int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, 4096)) return 3;
    c.shm = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    signal(SIGVTALRM, vh::on_alarm);
    try {
        explore();
    } catch (const std::exception& e) {
        vh::fail("exception", "unexpected exception: %s", e.what());
    } catch (...) {
        vh::fail("exception", "unexpected exception");
    }
    vh::finish();
    fflush(0);
    _exit(0);
}
#endif
