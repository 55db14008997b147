// Parameter groups: every short sequence of assignments, given on the command line, in parameter files and in XML files,
// and every query on the result, against a plain tree.
#include "vh.hpp"
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/utility/parameters/ParameterRequirement.hpp>
#include <iostream>
#include <fstream>
#include <memory>
using namespace Opm::parameter;
typedef std::string S;
struct Quiet {
    std::streambuf *o, *e; std::ostringstream s, t;
    Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(t.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
// Reference tree
struct Node {
    bool group, used; S val, type; std::map<S, std::shared_ptr<Node> > kid; Node* parent; S path;
    Node(bool g, Node* p, const S& pth) : group(g), used(false), type("cmdline"), parent(p), path(pth) {}
};
static std::vector<S> comps(const S& n) { std::vector<S> r; std::istringstream is(n); S x; while (std::getline(is, x, '/')) if (!x.empty()) r.push_back(x); return r; }
static void assign(Node& root, const S& name, const S& val, const S& type = "cmdline")
{
    std::vector<S> c = comps(name);
    Node* n = &root;
    for (size_t i = 0; i < c.size(); ++i) {
        std::shared_ptr<Node>& k = n->kid[c[i]];
        const bool last = i + 1 == c.size();
        if (last) { k.reset(new Node(false, n, n->path + "/" + c[i])); k->val = val; k->type = type; }
        else { if (!k || !k->group) k.reset(new Node(true, n, n->path + "/" + c[i])); n = k.get(); }
    }
}
static void write(const Node& n, S& out)
{
    for (std::map<S, std::shared_ptr<Node> >::const_iterator i = n.kid.begin(); i != n.kid.end(); ++i)
        if (i->second->group) write(*i->second, out); else out += i->second->path + "=" + i->second->val + "\n";
    if (n.kid.empty()) out += n.path + "/dummy=0\n";
}
static bool has(const Node& n, const S& name)
{
    const Node* c = &n; std::vector<S> v = comps(name);
    for (size_t i = 0; i < v.size(); ++i) { if (!c->group) return false; std::map<S, std::shared_ptr<Node> >::const_iterator k = c->kid.find(v[i]); if (k == c->kid.end()) return false; c = k->second.get(); }
    return true;
}
// 0 found, 1 not found, 2 a parameter where a group is needed
static int look(Node* g, const S& name, Node*& item)
{
    g->used = true;
    size_t p = name.find('/');
    S a = name.substr(0, p), b = p == S::npos ? "" : name.substr(p + 1);
    std::map<S, std::shared_ptr<Node> >::iterator k = g->kid.find(a);
    if (k == g->kid.end()) return g->parent ? look(g->parent, name, item) : 1;
    if (b.empty()) { item = k->second.get(); return 0; }
    if (!k->second->group) return 2;
    return look(k->second.get(), b, item);
}
static bool unused(const Node& n) { if (!n.used) return true; if (n.group) for (std::map<S, std::shared_ptr<Node> >::const_iterator i = n.kid.begin(); i != n.kid.end(); ++i) if (unused(*i->second)) return true; return false; }
static void usage(const Node& n, bool u, S& out)
{
    if (n.used == u) out += n.path + "\n";
    if (n.group) for (std::map<S, std::shared_ptr<Node> >::const_iterator i = n.kid.begin(); i != n.kid.end(); ++i) usage(*i->second, u, out);
}
template <class T> struct Conv;   // 1 ok, 0 must fail, -1 either
template <> struct Conv<S> { static const char* n() { return "string"; } static int get(const S& v, S& o) { o = v; return 1; } };
template <> struct Conv<bool> { static const char* n() { return "bool"; } static int get(const S& v, bool& o) { o = v == "true"; return v == "true" || v == "false"; } };
template <> struct Conv<double> { static const char* n() { return "double"; } static int get(const S& v, double& o) { char* e; o = strtod(v.c_str(), &e); if (e == v.c_str()) return 0; while (*e == ' ') ++e; return *e ? -1 : 1; } };
template <> struct Conv<int> { static const char* n() { return "int"; } static int get(const S& v, int& o) { char* e; long l = strtol(v.c_str(), &e, 10); o = l; if (e == v.c_str() || l != o) return 0; while (*e == ' ') ++e; return *e ? -1 : 1; } };
template <class T> static S show(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }

template <class T> static void query(const ParameterGroup& p, Node& root, const S& name, const T& dflt, const S& what)
{
    for (int d = 0; d < 2; ++d) {
        Node* item = 0;
        int r = look(&root, name, item), ok = 0;
        T want = dflt;
        if (r == 0 && !item->group && (item->type == "cmdline" || item->type == Conv<T>::n())) ok = Conv<T>::get(item->val, want);
        if (r == 1 && d) ok = 1;
        if (r == 2 && d) ok = -1;
        T got = dflt; bool threw = false;
        try { got = d ? p.getDefault<T>(name, dflt) : p.get<T>(name); } catch (const std::exception&) { threw = true; }
        if (r == 0 && !threw) item->used = true;
        if (r == 2 && !threw && ok == -1) { VH_CHECK(got == dflt, "get", "%s: getDefault<%s>(%s) inside a plain parameter gives %s", what.c_str(), Conv<T>::n(), name.c_str(), show(got).c_str()); continue; }
        if (ok >= 0) VH_CHECK(threw == !ok, "get", "%s: %s<%s>(%s) %s", what.c_str(), d ? "getDefault" : "get", Conv<T>::n(), name.c_str(), threw ? "refused" : ("accepted as " + show(got)).c_str());
        if (ok == 1 && !threw) VH_CHECK(got == want, "get", "%s: %s<%s>(%s) gives %s, expected %s", what.c_str(), d ? "getDefault" : "get", Conv<T>::n(), name.c_str(), show(got).c_str(), show(want).c_str());
    }
}
static const char* QN[] = { "a", "b", "a/b", "a/c", "b/a", "a/b/c", "c", "a/c/b", "" };
static void queryall(const ParameterGroup& p, Node& root, const S& what)
{
    S u; usage(root, true, u);
    for (int i = 0; *QN[i]; ++i) {
        S n = QN[i];
        bool h = has(root, n), g = !h;
        try { g = p.has(n); } catch (const std::exception& e) { vh::fail("has", "%s: has(%s) threw %s", what.c_str(), n.c_str(), e.what()); continue; }
        VH_CHECK(g == h, "has", "%s: has(%s) is %d", what.c_str(), n.c_str(), g);
    }
    std::ostringstream o; S w;
    p.writeParamToStream(o); write(root, w);
    VH_CHECK(o.str() == w, "write", "%s: written as\n%sexpected\n%s", what.c_str(), o.str().c_str(), w.c_str());
    // usage before anything is asked, then after each query
    for (int i = -1; i < 0 || *QN[i]; ++i) {
        if (i >= 0) {
            S n = QN[i];
            query<S>(p, root, n, "dflt", what); query<double>(p, root, n, 8.25, what); query<int>(p, root, n, 17, what); query<bool>(p, root, n, true, what);
            Node* item = 0; int r = look(&root, n, item); bool threw = false;
            try {
                ParameterGroup g = p.getGroup(n);
                if (r == 0 && item->group) {
                    item->used = true;
                    VH_CHECK(g.path() == item->path, "group", "%s: group %s has path %s", what.c_str(), n.c_str(), g.path().c_str());
                    std::ostringstream o2; S w2; g.writeParamToStream(o2); write(*item, w2);
                    VH_CHECK(o2.str() == w2, "group", "%s: group %s holds\n%s", what.c_str(), n.c_str(), o2.str().c_str());
                    for (int k = 0; *QN[k]; ++k) query<S>(g, *item, QN[k], "dflt", what + " group " + n);
                }
            } catch (const std::exception&) { threw = true; }
            VH_CHECK(threw == !(r == 0 && item->group), "group", "%s: getGroup(%s) was %s", what.c_str(), n.c_str(), threw ? "refused" : "accepted");
        }
        VH_CHECK(p.anyUnused() == unused(root), "usage", "%s: anyUnused is %d after %d queries", what.c_str(), p.anyUnused(), i + 1);
        for (int k = 0; k < 2; ++k) {
            S want; usage(root, k, want);
            Quiet q; p.displayUsage(k);
            S got = q.s.str();
            if (got != want) { vh::fail("usage", "%s: after %d queries %s parameters shown:\n%sexpected\n%s", what.c_str(), i + 1, k ? "used" : "unused", got.c_str(), want.c_str()); return; }
        }
        vh::tr();
    }
    vh::outcome(w);
}
static S xesc(const S& v) { S r; for (size_t i = 0; i < v.size(); ++i) switch (v[i]) { case '&': r += "&amp;"; break; case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '"': r += "&quot;"; break; case '\'': r += "&apos;"; break; default: r += v[i]; } return r; }
static S xelem(const S& name, const S& val, const S& type)
{
    std::vector<S> c = comps(name); S r;
    for (size_t i = 0; i + 1 < c.size(); ++i) r += "<ParameterGroup name=\"" + c[i] + "\">\n";
    r += "<Parameter name=\"" + c.back() + "\" type=\"" + type + "\" value=\"" + xesc(val) + "\"/>";
    for (size_t i = 0; i + 1 < c.size(); ++i) r += "</ParameterGroup>\n";
    return r + "\n";
}
static void put(const S& f, const S& text) { std::ofstream o(f.c_str()); o << text; }
struct Asg { const char* n; const char* v; const char* t; };
static const Asg A[] = { { "a", "1", "int" }, { "b", "x y", "string" }, { "a/b", "-2.5", "double" }, { "a/c", "true", "bool" }, { "b/a", "7", "string" }, { "/a/b/c", "1e3", "double" },
                         { "a/b", "word", "string" }, { "c", "false", "bool" }, { "a//c/", "12345678901234", "int" }, { "/b", "", "string" }, { "a/b/c", "5", "int" }, { "a/b/d", " 3 ", "int" } };
enum { NA = 12 };
static S dir() { return vh::scratch() + "/p"; }
static void build(ParameterGroup*& p, Node& root, const std::vector<int>& d, int channel)
{
    std::vector<S> arg(1, "prog");
    S text;
    mkdir(dir().c_str(), 0700); mkdir((dir() + "/sub").c_str(), 0700);
    for (size_t i = 0; i < d.size(); ++i) assign(root, A[d[i]].n, A[d[i]].v, channel >= 2 ? A[d[i]].t : "cmdline");
    const S f = dir() + "/f.xml";
    switch (channel) {
    case 0: for (size_t i = 0; i < d.size(); ++i) arg.push_back(S(A[d[i]].n) + "=" + A[d[i]].v); break;
    case 1: {       // parameter file with comments, blank lines and lines that say nothing
        text = "// heading\n";
        for (size_t i = 0; i < d.size(); ++i) { text += S(A[d[i]].n) + "=" + A[d[i]].v; if (S(A[d[i]].n).find("//") != S::npos) text = text.substr(0, text.rfind("a//c/")) + "a/c=" + A[d[i]].v; text += i % 2 ? "// =3\n" : "\n"; if (i == 0) text += "//b=comment\n\n"; if (i == 1) text += "x=1=2\n"; }
        put(dir() + "/f.param", text); arg.push_back(dir() + "/f.param"); break;
    }
    case 2: case 3: case 4: {
        S head = "<?xml version=\"1.0\"?>\n<!-- c -->\n<ParameterGroup name=\"root\" value=\"\">\n", tail = "</ParameterGroup>\n";
        if (channel == 2) { for (size_t i = 0; i < d.size(); ++i) text += xelem(A[d[i]].n, A[d[i]].v, A[d[i]].t); }
        else if (channel == 3) {  // everything in files merged from a file in a subdirectory
            for (size_t i = 0; i < d.size(); ++i) { S n = vh::fmt("m%d.xml", (int)i); put(dir() + "/sub/" + n, head + xelem(A[d[i]].n, A[d[i]].v, A[d[i]].t) + tail); text += "<MergeWithFile value=\"" + n + "\"/>\n"; }
            put(dir() + "/sub/s.xml", head + text + tail); text = "<MergeWithFile value=\"sub/s.xml\"/>\n";
        } else {                  // groups at the top come from files
            for (size_t i = 0; i < d.size(); ++i) {
                std::vector<S> c = comps(A[d[i]].n);
                if (c.size() == 1) { text += xelem(A[d[i]].n, A[d[i]].v, A[d[i]].t); continue; }
                S rest; for (size_t k = 1; k < c.size(); ++k) rest += "/" + c[k];
                S n = vh::fmt("sub/g%d.xml", (int)i); put(dir() + "/" + n, head + xelem(rest, A[d[i]].v, A[d[i]].t) + tail);
                text += "<ParameterGroupFromFile name=\"" + c[0] + "\" value=\"" + n + "\"/>\n";
            }
        }
        put(f, head + text + tail); arg.push_back(f); break;
    }
    case 5: {       // first half in XML, rest on the command line, listed before the file
        for (size_t i = 0; i < d.size(); ++i) { if (i < d.size() / 2) text += xelem(A[d[i]].n, A[d[i]].v, A[d[i]].t); else { arg.push_back(S(A[d[i]].n) + "=" + A[d[i]].v); } }
        put(f, "<ParameterGroup>\n" + text + "</ParameterGroup>\n"); arg.push_back(f);
        root.kid.clear();
        for (size_t i = 0; i < d.size(); ++i) assign(root, A[d[i]].n, A[d[i]].v, i < d.size() / 2 ? A[d[i]].t : "cmdline");
        break;
    }
    }
    if (channel >= 6) {   // several files on the command line: the last one wins, and assignments win over files
        S head = "<ParameterGroup>\n", tail = "</ParameterGroup>\n", last;
        for (size_t i = 0; i < d.size(); ++i) {
            const S n = vh::fmt("%s/w%d", dir().c_str(), (int)((i * 2) % 5)), nm = A[d[i]].n; bool xml = (i + channel) % 2;
            S flat = nm.find("//") != S::npos ? S("a/c") : nm, el = xelem(nm, A[d[i]].v, A[d[i]].t);
            std::vector<S> c = comps(nm);
            if (c.size() > 1) {    // the inner part of a group from a file next to it, two levels down
                S g, rest; for (size_t k = 1; k < c.size(); ++k) rest += "/" + c[k];
                put(dir() + vh::fmt("/sub/n%d.xml", (int)i), head + xelem(rest, A[d[i]].v, A[d[i]].t) + tail);
                el = "<ParameterGroup name=\"" + c[0] + "\">\n<MergeWithFile value=\"sub/" + vh::fmt("n%d.xml", (int)i) + "\"/>\n</ParameterGroup>\n";
            }
            put(n + (xml ? ".xml" : ".param"), xml ? head + el + tail : flat + "=" + A[d[i]].v + "\n");
            arg.push_back(n + (xml ? ".xml" : ".param"));
        }
        root.kid.clear();
        for (size_t i = 0; i < d.size(); ++i) assign(root, A[d[i]].n, A[d[i]].v, (i + channel) % 2 ? A[d[i]].t : "cmdline");
    }
    std::vector<const char*> av; for (size_t i = 0; i < arg.size(); ++i) av.push_back(arg[i].c_str());
    Quiet q;
    p = new ParameterGroup((int)av.size(), &av[0], false);
}
static void roundtrip(const ParameterGroup& p, const Node& root, const S& what)
{
    S w; write(root, w);
    p.writeParam(dir() + "/o.param");
    Quiet q;
    ParameterGroup r; r.readParam(dir() + "/o.param");
    std::ostringstream o; r.writeParamToStream(o);
    VH_CHECK(o.str() == w, "reread", "%s: written and read back as\n%sexpected\n%s", what.c_str(), o.str().c_str(), w.c_str());
}
// Usage follows queries in any order.
static void usages(const std::vector<int>& d, const std::vector<int>& qs, const S& what)
{
    Node root(true, 0, ""); ParameterGroup* p = 0;
    build(p, root, d, 0);
    p->disableOutput();
    std::unique_ptr<ParameterGroup> own(p);
    for (size_t i = 0; i < qs.size(); ++i) {
        Quiet q;
        const S n = QN[qs[i] % 8];
        if (qs[i] < 8) query<S>(*p, root, n, "d", what); else { Node* it = 0; if (look(&root, n, it) == 0 && !it->group) { double x; if (Conv<double>::get(it->val, x) == 1) it->used = true; } try { p->getDefault<double>(n, 1.0, ParameterRequirementNone()); } catch (const std::exception&) {} }
    }
    VH_CHECK(p->anyUnused() == unused(root), "usage", "%s: anyUnused is %d", what.c_str(), p->anyUnused());
    for (int k = 0; k < 2; ++k) { S want; usage(root, k, want); Quiet q; p->displayUsage(k); VH_CHECK(q.s.str() == want, "usage", "%s: %s parameters shown:\n%s", what.c_str(), k ? "used" : "unused", q.s.str().c_str()); }
    vh::tr();
}
// Many parameters in deep groups with long names and values, on each channel.
static void large(int n, int depth, int channel, const S& what)
{
    std::vector<std::pair<S, S> > v;
    Node root(true, 0, "");
    for (int i = 0; i < n; ++i) {
        S name; for (int k = 0; k < (i * 7 + channel) % depth; ++k) name += vh::fmt("g%d/", (i >> k) % 3);
        name += vh::fmt("p%d", i * 37 % n) + S(i % 11 == 10 ? 150 : i % 5, 'x');
        S val = i % 3 == 0 ? vh::fmt("%d", i * 1001) : i % 3 == 1 ? vh::fmt("%.17g", i * 0.1) : S(i % 13 == 5 ? 300 : 1 + i % 20, 'v') + vh::fmt("%d", i);
        v.push_back(std::make_pair(name, val));
        if (i % 9 == 8) { v.push_back(v[i / 2]); v.back().second += "again"; }
    }
    for (size_t i = 0; i < v.size(); ++i) assign(root, v[i].first, v[i].second, channel == 2 ? "string" : "cmdline");
    mkdir(dir().c_str(), 0700);
    std::unique_ptr<ParameterGroup> p;
    Quiet q;
    if (channel == 0) { p.reset(new ParameterGroup); for (size_t i = 0; i < v.size(); ++i) p->insertParameter(v[i].first, v[i].second); }
    else {
        S t; for (size_t i = 0; i < v.size(); ++i) t += channel == 1 ? v[i].first + "=" + v[i].second + "\n" : xelem(v[i].first, v[i].second, "string");
        const S f = dir() + (channel == 1 ? "/l.param" : "/l.xml");
        put(f, channel == 1 ? t : "<?xml version=\"1.0\"?>\n<ParameterGroup name=\"root\" value=\"\">\n" + t + "</ParameterGroup>\n");
        const char* argv[] = { "prog", f.c_str() };
        p.reset(new ParameterGroup(2, argv, false));
    }
    p->disableOutput();
    std::ostringstream o; S w; p->writeParamToStream(o); write(root, w);
    VH_CHECK(o.str() == w, "write", "%s: written as\n%sexpected\n%s", what.c_str(), o.str().c_str(), w.c_str());
    roundtrip(*p, root, what);
    for (size_t i = 0; i < v.size(); ++i) {
        query<S>(*p, root, v[i].first, "dflt", what);
        VH_CHECK(p->has(v[i].first) && !p->has(v[i].first + "y"), "has", "%s: %s", what.c_str(), v[i].first.c_str());
        // the same parameter from its group, and one of the top from there
        const size_t k = v[i].first.rfind('/');
        if (k != S::npos && i % 3 == 0) {
            Node* item = 0; const S gn = v[i].first.substr(0, k);
            if (look(&root, gn, item) == 0 && item->group) {
                ParameterGroup g = p->getGroup(gn); item->used = true;
                query<S>(g, *item, v[i].first.substr(k + 1), "dflt", what);
                query<S>(g, *item, v[0].first, "dflt", what);
                query<S>(g, *item, "nowhere", "dflt", what);
            }
        }
        VH_CHECK(p->anyUnused() == unused(root), "usage", "%s: anyUnused is %d after %d queries", what.c_str(), p->anyUnused(), (int)i);
        vh::tr();
    }
    for (int k = 0; k < 2; ++k) { S want; usage(root, k, want); Quiet q2; p->displayUsage(k); VH_CHECK(q2.s.str() == want, "usage", "%s: %s parameters shown:\n%s", what.c_str(), k ? "used" : "unused", q2.s.str().c_str()); }
}
template <class T, class R> static void req1(const S& val, const T& x, const R& r, bool good, const char* name)
{
    ParameterGroup p; p.disableOutput(); p.insertParameter("g/x", val);
    for (int m = 0; m < 3; ++m) {
        Quiet q; bool threw = false;
        try { T y = m == 0 ? p.get<T>("g/x", r) : m == 1 ? p.getDefault<T>("g/x", x, r) : p.getDefault<T>("g/y", x, r); VH_CHECK(y == x, "requirement", "value"); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw == !good, "requirement", "%s: '%s' was %s (%d)", name, val.c_str(), threw ? "refused" : "accepted", m);
        vh::tr();
    }
}
template <class T> static void reqnum(const S& v, T x)
{
    typedef ParameterRequirementPositive P; typedef ParameterRequirementNegative N; typedef ParameterRequirementNonPositive NP; typedef ParameterRequirementNonNegative NN; typedef ParameterRequirementNonZero NZ; typedef ParameterRequirementProbability PR;
    req1<T>(v, x, ParameterRequirementNone(), true, "none");
    req1<T>(v, x, P(), x > 0, "positive"); req1<T>(v, x, N(), x < 0, "negative"); req1<T>(v, x, NP(), x <= 0, "not positive"); req1<T>(v, x, NN(), x >= 0, "not negative"); req1<T>(v, x, NZ(), x != 0, "not zero"); req1<T>(v, x, PR(), x >= 0 && x <= 1, "probability");
    req1<T>(v, x, ParameterRequirementAnd<P, PR>(P(), PR()), x > 0 && x <= 1, "positive and probability");
    req1<T>(v, x, ParameterRequirementAnd<NN, NZ>(NN(), NZ()), x > 0, "not negative and not zero");
    req1<T>(v, x, ParameterRequirementAnd<NP, NN>(NP(), NN()), x == 0, "not positive and not negative");
}
void explore()
{
    const int L = vh::thorough() ? 4 : 3;
    for (int len = 0; len <= L; ++len) {
        std::vector<int> d(len, 0);
        do for (int ch = 0; ch < 8; ++ch) {
            if (!vh::begin(vh::fmt("tree/%d/", ch) + vh::str(d))) continue;
            Node root(true, 0, ""); ParameterGroup* p = 0;
            build(p, root, d, ch);
            std::unique_ptr<ParameterGroup> own(p);
            p->disableOutput();
            VH_CHECK(!p->isOutputEnabled(), "output", "enabled");
            roundtrip(*p, root, vh::ctx().cur);
            std::unique_ptr<Quiet> q(new Quiet);
            queryall(*p, root, vh::ctx().cur);
            if (len == 3 && d[0] == 2 && d[1] == 5) { S w; write(root, w); vh::sample(vh::ctx().cur + " " + w); }
        } while (len && vh::next(d, NA));
    }
    for (int n = 10; n <= 90; n += 16) for (int depth = 1; depth <= 13; depth += 4) for (int ch = 0; ch < 3; ++ch) if (vh::begin(vh::fmt("large/%d/%d/%d", n, depth, ch))) large(n, depth, ch, vh::ctx().cur);
    // order of queries
    static const int trees[][4] = { { 0, 7, 4, -1 }, { 2, 3, 1, 7 }, { 10, 11, 8, 1 }, { 5, 6, 0, 2 } };
    const int QL = vh::thorough() ? 4 : 3;
    for (int t = 0; t < 4; ++t) {
        std::vector<int> tree; for (int i = 0; i < 4; ++i) if (trees[t][i] >= 0) tree.push_back(trees[t][i]);
        std::vector<int> d(QL, 0);
        do if (vh::begin(vh::fmt("usage/%d/", t) + vh::str(d))) usages(tree, d, vh::ctx().cur); while (vh::next(d, 16));
    }
    // requirements
    static const char* num[] = { "-2", "-1", "0", "1", "2" };
    for (int i = 0; i < 5; ++i) if (vh::begin(S("req/int/") + num[i])) reqnum<int>(num[i], atoi(num[i]));
    static const char* dbl[] = { "-1.5", "-1e-300", "0", "1e-300", "0.5", "1", "1.0000001", "1e300" };
    for (int i = 0; i < 8; ++i) if (vh::begin(S("req/double/") + dbl[i])) reqnum<double>(dbl[i], strtod(dbl[i], 0));
    static const char* str[] = { "", "a", "b", "ab", " " };
    for (int i = 0; i < 5; ++i) if (vh::begin(S("req/string/") + str[i])) {
        req1<S>(str[i], str[i], ParameterRequirementNonEmpty(), i != 0, "not empty");
        for (int m = 1; m < 32; ++m) { std::vector<S> set; for (int k = 0; k < 5; ++k) if (m >> k & 1) set.push_back(str[k]); req1<S>(str[i], str[i], ParameterRequirementMemberOf(set), m >> i & 1, "member"); }
    }
    // names that name nothing are refused, on every channel
    static const char* none[] = { "", "/", "//", "///" };
    for (int i = 0; i < 4; ++i) for (int ch = 0; ch < 2; ++ch) if (vh::begin(vh::fmt("noname/%d/%d", ch, i))) {
        Quiet q; bool threw = false;
        ParameterGroup p; p.insertParameter("a", "1");
        try {
            if (ch == 0) p.insertParameter(none[i], "3");
            else { mkdir(dir().c_str(), 0700); put(dir() + "/n.param", i == 0 ? S("=3\nb=2\n") : "/=3\nb=2\n"); p.readParam(dir() + "/n.param"); }
        } catch (const std::exception&) { threw = true; }
        std::ostringstream o; p.writeParamToStream(o);
        VH_CHECK(o.str() == "/a=1\n" || (ch == 1 && !threw && o.str() == "/a=1\n/b=2\n"), "noname", "holds %s", o.str().c_str());
        (void)threw; vh::tr();
    }
    // lines of parameter files: every arrangement of four line kinds
    static const char* line[] = { "a=1\n", "\n", "// a=5\n", "no assignment\n", "b=2=3\n", "g/x=  7  // seven\n", "   \n", "c=\n", "d=4//5//6=7\n" };
    std::vector<int> d(vh::thorough() ? 5 : 4, 0);
    do if (vh::begin("lines/" + vh::str(d))) {
        Quiet q;
        mkdir(dir().c_str(), 0700);
        Node root(true, 0, ""); S t;
        for (size_t i = 0; i < d.size(); ++i) { t += line[d[i]]; if (d[i] == 0) assign(root, "a", "1"); if (d[i] == 5) assign(root, "g/x", "  7  "); if (d[i] == 7) assign(root, "c", ""); if (d[i] == 8) assign(root, "d", "4"); }
        put(dir() + "/l.param", t);
        ParameterGroup p; p.readParam(dir() + "/l.param");
        std::ostringstream o; S w; p.writeParamToStream(o); write(root, w);
        VH_CHECK(o.str() == w, "lines", "%sread as\n%sexpected\n%s", t.c_str(), o.str().c_str(), w.c_str());
        vh::tr();
    } while (vh::next(d, 9));
    // attribute values in XML files
    static const char* piece[] = { "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x42;", "x", " ", "/" };
    static const char* plain[] = { "&", "<", ">", "\"", "'", "A", "B", "x", " ", "/" };
    std::vector<int> e(vh::thorough() ? 4 : 3, 0);
    do if (vh::begin("xml/" + vh::str(e))) {
        Quiet q;
        mkdir(dir().c_str(), 0700);
        S v, w; for (size_t i = 0; i < e.size(); ++i) { v += piece[e[i]]; w += plain[e[i]]; }
        put(dir() + "/v.xml", "<ParameterGroup>\n <Parameter name=\"s\" type=\"string\" value=\"" + v + "\"/>\n<!-- <Parameter name=\"t\"/> --><Parameter value='" + v + "' type='file' name='f'></Parameter></ParameterGroup>\n");
        ParameterGroup p; p.readXML(dir() + "/v.xml");
        VH_CHECK(p.get<S>("s") == w, "xml", "value=\"%s\" read as '%s'", v.c_str(), p.get<S>("s").c_str());
        VH_CHECK(!p.has("t"), "xml", "comment read");
        S f = p.get<S>("f"), wf = w[0] == '/' ? w : dir() + "/" + w;
        VH_CHECK(f == wf || (w[0] == '/' && f == dir() + w), "xml", "file value=\"%s\" read as '%s', expected '%s'", v.c_str(), f.c_str(), wf.c_str());
        vh::tr();
    } while (vh::next(e, 10));
    // XML files cut off at every byte, with one tag renamed, without a root, or naming a file which is not there, are refused
    {
        const S whole = "<?xml version=\"1.0\"?>\n<!-- c -->\n<ParameterGroup name=\"root\">\n<Parameter name=\"a\" type=\"int\" value=\"3\"/>\n<ParameterGroup name=\"g\"><Parameter name=\"x\" type=\"string\" value=\"v &amp; w\"/><!-- d --><ParameterGroup name=\"h\"></ParameterGroup></ParameterGroup>\n<Parameter name=\"b\" type=\"double\" value=\"2.5\"></Parameter>\n</ParameterGroup>";
        struct Read {
            static int go(const S& f, S& out) {
                Quiet q;
                ParameterGroup p; p.disableOutput();
                try { p.readXML(f); } catch (const std::exception&) { return 1; }
                std::ostringstream o; p.writeParamToStream(o); out = o.str();
                return 0;
            }
        };
        const S all = "/a=3\n/b=2.5\n/g/h/dummy=0\n/g/x=v & w\n";
        for (size_t n = 0; n <= whole.size() + 2; ++n) if (vh::begin(vh::fmt("cut/%d", (int)n))) {
            mkdir(dir().c_str(), 0700);
            put(dir() + "/c.xml", n <= whole.size() ? whole.substr(0, n) : whole + S(n - whole.size(), '\n'));
            S got; int th = Read::go(dir() + "/c.xml", got);
            VH_CHECK(th == (n < whole.size()), "cut", "a file of %d of %d bytes was %s: %s", (int)n, (int)whole.size(), th ? "refused" : "accepted", got.c_str());
            if (!th) VH_CHECK(got == all, "cut", "read as %s", got.c_str());
            vh::tr();
        }
        // one byte replaced, left out or doubled: read or refused, never a crash
        static const char rep[] = { '<', '>', '"', '/', ' ', '&', '=', '!', '?', '-', 'q', ';', '#', '[', ']' };
        for (size_t n = 0; n < whole.size(); ++n) if (vh::begin(vh::fmt("garbled/%d", (int)n))) for (int k = 0; k < 17; ++k) {
            mkdir(dir().c_str(), 0700);
            S t = whole;
            if (k < 15) t[n] = rep[k]; else if (k == 15) t.erase(n, 1); else t.insert(n, 1, t[n]);
            put(dir() + "/c.xml", t);
            S got; const int th = Read::go(dir() + "/c.xml", got);
            if (t == whole) VH_CHECK(!th && got == all, "garbled", "read as %s", got.c_str());
            vh::tr();
        }
        for (int nest = 0; nest < 3; ++nest) for (int in = 0; in < 4; ++in) for (int what = 0; what < 8; ++what) if (vh::begin(vh::fmt("fault/%d/%d/%d", nest, in, what))) {
            // what stands in a file reached directly, by merging, or as a group
            static const char* text[] = { "", "   \n", "<?xml version=\"1.0\"?>\n", "<!-- nothing -->\n", "<ParameterGroup><Unknown name=\"q\"/></ParameterGroup>", "<ParameterGroup><ParameterGroup name=\"q\"></ParameterGroup>",
                                          "<ParameterGroup/>", "<ParameterGroup><Parameter name=\"x\" type=\"int\" value=\"1\"/></ParameterGroup>" };
            mkdir(dir().c_str(), 0700);
            for (int k = 0; k < 3; ++k) unlink((dir() + vh::fmt("/n%d.xml", k)).c_str());
            if (in != 3) put(dir() + vh::fmt("/n%d.xml", nest), text[what]);
            else if (what) continue;        // file not there at all
            S want = in == 3 || what < 6 ? "" : what == 6 ? "-" : "x=1";
            for (int k = nest; k-- > 0;) {
                S ref = in == 1 ? vh::fmt("<MergeWithFile value=\"n%d.xml\"/>", k + 1) : vh::fmt("<ParameterGroupFromFile name=\"g%d\" value=\"n%d.xml\"/>", k, k + 1);
                put(dir() + vh::fmt("/n%d.xml", k), "<ParameterGroup>" + ref + "</ParameterGroup>");
            }
            S got; int th = Read::go(dir() + "/n0.xml", got);
            VH_CHECK(th == want.empty(), "fault", "was %s: %s", th ? "refused" : "accepted", got.c_str());
            if (!th && !want.empty()) {
                S pre; if (in != 1) for (int k = 0; k < nest; ++k) pre += vh::fmt("/g%d", k);
                S w = want == "-" ? pre + "/dummy=0\n" : pre + "/x=1\n";
                VH_CHECK(got == w, "fault", "read as %s, expected %s", got.c_str(), w.c_str());
            }
            vh::tr();
        }
        for (int k = 0; k < 3; ++k) if (vh::begin(vh::fmt("missing/%d", k))) {
            Quiet q; bool threw = false;
            ParameterGroup p; p.insertParameter("a", "1");
            const S no = dir() + "/not/there";
            try {
                if (k == 0) p.readParam(no); else if (k == 1) p.writeParam(no);
                else { S f = no + ".param"; const char* av[] = { "prog", f.c_str() }; ParameterGroup r(2, av, false); }
            } catch (const std::exception&) { threw = true; }
            VH_CHECK(threw, "missing", "a file which cannot be opened went unnoticed");
            vh::tr();
        }
    }
    // output can be turned off and on, for groups within too
    for (int h = 0; h < 16; ++h) if (vh::begin(vh::fmt("output/%d", h))) {
        Quiet q;
        ParameterGroup p; p.insertParameter("g/h/x", "1"); p.insertParameter("y", "2");
        bool on = true;
        for (int k = 0; k < 4; ++k) {
            if (h >> k & 1) { if (on) p.disableOutput(); else p.enableOutput(); on = !on; }
            VH_CHECK(p.isOutputEnabled() == on && p.getGroup("g").isOutputEnabled() == on && p.getGroup("g").getGroup("h").isOutputEnabled() == on, "output", "step %d", k);
            q.s.str("");
            p.get<int>("g/h/x"); p.getDefault<int>("z", 4);
            VH_CHECK(q.s.str().empty() == !on, "output", "step %d: '%s'", k, q.s.str().c_str());
            vh::tr();
        }
    }
}
