// Visualisation output: every file written is parsed back and compared with grid and data.
#define FLOW_NO_WELLS
#include "flow.hpp"
#include <opm/core/io/vtk/writeVtkData.hpp>
#include <opm/core/utility/DataMap.hpp>

struct Elem { std::string name; std::map<std::string, std::string> att; std::string text; std::vector<Elem> kids; };
// Strict parser for the small XML subset; false on anything not well formed.
static bool element(const std::string& s, size_t& p, Elem& e)
{
    if (p >= s.size() || s[p] != '<') return false;
    ++p;
    size_t q = p;
    while (q < s.size() && (isalnum((unsigned char)s[q]) || s[q] == '_')) ++q;
    if (q == p) return false;
    e.name = s.substr(p, q - p); p = q;
    while (true) {
        while (p < s.size() && isspace((unsigned char)s[p])) ++p;
        if (p >= s.size()) return false;
        if (s[p] == '>') { ++p; break; }
        if (s[p] == '/' && p + 1 < s.size() && s[p + 1] == '>') { p += 2; return true; }
        q = s.find('=', p);
        if (q == std::string::npos || q + 1 >= s.size() || s[q + 1] != '"') return false;
        std::string k = s.substr(p, q - p);
        size_t r = s.find('"', q + 2);
        if (r == std::string::npos || e.att.count(k) || k.find_first_of(" <>\"") != std::string::npos) return false;
        e.att[k] = s.substr(q + 2, r - q - 2);
        p = r + 1;
    }
    while (true) {
        q = s.find('<', p);
        if (q == std::string::npos) return false;
        e.text += s.substr(p, q - p);
        p = q;
        if (s[p + 1] == '/') {
            q = s.find('>', p);
            if (q == std::string::npos || s.substr(p + 2, q - p - 2) != e.name) return false;
            p = q + 1;
            return true;
        }
        Elem k;
        if (!element(s, p, k)) return false;
        e.kids.push_back(k);
    }
}
static bool document(std::string s, Elem& root)
{
    const std::string head = "<?xml version=\"1.0\"?>";
    if (s.compare(0, head.size(), head) != 0) return false;
    size_t p = s.find('<', head.size());
    if (p == std::string::npos || !element(s, p, root)) return false;
    return s.find_first_not_of(" \n", p) == std::string::npos;
}
template <class T> static bool numbers(const std::string& s, std::vector<T>& v)
{
    std::istringstream i(s); std::string w;
    while (i >> w) {
        char* e;
        double d = strtod(w.c_str(), &e);
        if (*e) return false;
        T t = (T)d;
        if ((double)t != d && d == d) return false;
        v.push_back(t);
    }
    return true;
}
static bool near12(double a, double b) { return (a != a && b != b) || a == b || std::fabs(a - b) <= 5.1e-12 * std::fabs(b); }

static const char* fname[] = { "saturation", "pressure", "velocity", "aux" };
static const int fcomp[] = { 2, 1, 3, 5 };
static double value(int pat, int item)
{
    switch (pat) {
    case 0: return item + 0.5;
    case 1: { const double v[] = { 0.0, -1.0 / 3, 4.9e-324, -1e-310, 2.2250738585072014e-308, -1e300, 123456789.123456, 1e-30 }; return v[item % 8]; }
    case 2: { const double v[] = { 101325e3 + 1e-3 * item, -2e7, 0.1 + 0.2, 1e12 + item }; return v[item % 4]; }
    }
    return -0.0;
}
struct Data {
    std::vector<double> v[4]; Opm::DataMap m;
    Data(int nc, int mask, int pat) {
        for (int f = 0; f < 4; ++f) if (mask >> f & 1) {
            for (int i = 0; i < nc * fcomp[f]; ++i) v[f].push_back(value(pat, i + 3 * f));
            m[fname[f]] = &v[f];
        }
    }
};
static double shown(double x) { return std::fabs(x) < 2.2250738585072014e-308 ? 0.0 : x; }

static const Elem* kid(const Elem& e, const char* tag, const char* nm = 0)
{
    const Elem* r = 0;
    for (size_t i = 0; i < e.kids.size(); ++i)
        if (e.kids[i].name == tag && (!nm || (e.kids[i].att.count("Name") && e.kids[i].att.find("Name")->second == nm))) { if (r) return 0; r = &e.kids[i]; }
    return r;
}
static std::string att(const Elem& e, const char* k) { std::map<std::string, std::string>::const_iterator i = e.att.find(k); return i == e.att.end() ? "<none>" : i->second; }
static bool array(const Elem& parent, const char* name, const char* type, int comps, const Elem*& a)
{
    a = kid(parent, "DataArray", name);
    if (!a) { vh::fail("array", "no single array %s", name); return false; }
    if (att(*a, "type") != type || att(*a, "format") != "ascii" || att(*a, "NumberOfComponents") != std::to_string(comps) || !a->kids.empty()) {
        vh::fail("array", "array %s: type %s, format %s, components %s", name, att(*a, "type").c_str(), att(*a, "format").c_str(), att(*a, "NumberOfComponents").c_str());
        return false;
    }
    return true;
}
#define INTS(par, nm, type, v) std::vector<long> v; { const Elem* a; if (!array(par, nm, type, 1, a)) return; if (!numbers(a->text, v)) { vh::fail("number", "array %s", nm); return; } }

static void judge(const UnstructuredGrid* g, const Data& d, int mask, const std::string& text)
{
    Elem root;
    if (!document(text, root)) { vh::fail("xml", "not well formed"); return; }
    VH_CHECK(root.name == "VTKFile" && att(root, "type") == "UnstructuredGrid", "xml", "root");
    const Elem* u = kid(root, "UnstructuredGrid"); const Elem* p = u ? kid(*u, "Piece") : 0;
    if (!p) { vh::fail("xml", "no single piece"); return; }
    const int nc = g->number_of_cells, nn = g->number_of_nodes;
    VH_CHECK(att(*p, "NumberOfPoints") == std::to_string(nn) && att(*p, "NumberOfCells") == std::to_string(nc), "counts", "%s %s", att(*p, "NumberOfPoints").c_str(), att(*p, "NumberOfCells").c_str());
    const Elem *pts = kid(*p, "Points"), *cells = kid(*p, "Cells"), *cd = kid(*p, "CellData"), *a;
    if (!pts || !cells || !cd) { vh::fail("xml", "sections"); return; }
    if (!array(*pts, "Coordinates", "Float64", 3, a)) return;
    std::vector<double> x;
    if (!numbers(a->text, x) || (int)x.size() != 3 * nn) { vh::fail("points", "%d numbers", (int)x.size()); return; }
    for (int i = 0; i < 3 * nn; ++i) if (!near12(x[i], g->node_coordinates[i])) { vh::fail("points", "coordinate %d: %.15g", i, x[i]); break; }
    INTS(*cells, "connectivity", "Int32", conn) INTS(*cells, "offsets", "Int32", off)
    INTS(*cells, "faces", "Int32", fs) INTS(*cells, "faceoffsets", "Int32", foff) INTS(*cells, "types", "UInt8", ty)
    if ((int)off.size() != nc || (int)foff.size() != nc || (int)ty.size() != nc) { vh::fail("counts", "offsets %d %d %d", (int)off.size(), (int)foff.size(), (int)ty.size()); return; }
    long b = 0, fb = 0;
    for (int c = 0; c < nc; ++c) {
        VH_CHECK(ty[c] == 42, "type", "cell %d", c);
        std::set<long> want, got;
        std::multiset<std::vector<long> > wf, gf;
        for (int h = g->cell_facepos[c]; h < g->cell_facepos[c + 1]; ++h) {
            int f = g->cell_faces[h];
            std::vector<long> l(g->face_nodes + g->face_nodepos[f], g->face_nodes + g->face_nodepos[f + 1]);
            want.insert(l.begin(), l.end()); wf.insert(l);
        }
        if (off[c] < b || off[c] > (long)conn.size() || foff[c] <= fb || foff[c] > (long)fs.size()) { vh::fail("offsets", "cell %d", c); return; }
        got.insert(conn.begin() + b, conn.begin() + off[c]);
        VH_CHECK(got == want && off[c] - b == (long)want.size(), "connectivity", "points of cell %d", c);
        b = off[c];
        long i = fb, n = fs[i++];
        for (long k = 0; k < n && i < foff[c]; ++k) {
            long m = fs[i++];
            if (m < 0 || i + m > foff[c]) break;
            gf.insert(std::vector<long>(fs.begin() + i, fs.begin() + i + m));
            i += m;
        }
        VH_CHECK(i == foff[c] && gf == wf, "faces", "faces of cell %d", c);
        fb = foff[c];
        vh::tr();
    }
    VH_CHECK(b == (long)conn.size() && fb == (long)fs.size(), "offsets", "trailing numbers");
    VH_CHECK(att(*cd, "Scalars") == (mask & 1 ? "saturation" : mask & 2 ? "pressure" : "<none>"), "scalars", "%s", att(*cd, "Scalars").c_str());
    int nf = 0;
    for (int f = 0; f < 4; ++f) if (mask >> f & 1) {
        ++nf;
        if (!array(*cd, fname[f], "Float64", fcomp[f], a)) return;
        std::vector<double> v;
        if (!numbers(a->text, v) || v.size() != d.v[f].size()) { vh::fail("data", "%s has %d numbers", fname[f], (int)v.size()); return; }
        for (size_t i = 0; i < v.size(); ++i) if (!near12(v[i], shown(d.v[f][i]))) { vh::fail("data", "%s item %d: %.17g for %.17g", fname[f], (int)i, v[i], d.v[f][i]); break; }
    }
    VH_CHECK((int)cd->kids.size() == nf && pts->kids.size() == 1 && cells->kids.size() == 5, "extra", "unexpected arrays");
}

static UnstructuredGrid* grid(int k)
{
    switch (k) {
    case 8: return create_grid_hexa3d(1, 1, 1, 1e6, 1.0 / 3, 2e-7);
    case 9: return create_grid_hexa3d(3, 2, 2, 1, 1, 1);
    case 10: return create_grid_hexa3d(10, 1, 1, 1, 1, 1);
    case 11: return create_grid_hexa3d(11, 1, 1, 1, 1, 1);
    case 12: return create_grid_hexa3d(5, 2, 2, 1, 0.7, 1);
    case 13: return fl::prisms(6, 2, false, 0x5a);
    case 14: return fl::prisms(7, 1, true, 0x3c96);
    case 15: return fl::grid(fl::LARGE + 1);
    case 16: return fl::grid(fl::LARGE + 2);
    }
    return fl::grid(k);
}

static void legacy(int nx, int ny, int nz, int scale, int mask, int pat)
{
    std::tr1::array<int, 3> dims = {{ nx, ny, nz }};
    const double sz[3][3] = { { 1, 1, 1 }, { 0.5, 12.25, 1000 }, { 1e-3, 2e5, 0.125 } };
    std::tr1::array<double, 3> h = {{ sz[scale][0], sz[scale][1], sz[scale][2] }};
    const int nc = nx * ny * nz;
    Data d(nc, mask, pat);
    std::ostringstream o;
    Opm::writeVtkData(dims, h, d.m, o);
    vh::tr();
    std::istringstream i(o.str());
    std::string l;
    if (!std::getline(i, l) || l.compare(0, 22, "# vtk DataFile Version") != 0) { vh::fail("legacy", "header"); return; }
    std::getline(i, l);      // title
    std::string w; double a, b, c; 
    i >> w; VH_CHECK(w == "ASCII", "legacy", "format %s", w.c_str());
    i >> w; VH_CHECK(w == "DATASET", "legacy", "%s", w.c_str());
    i >> w; VH_CHECK(w == "STRUCTURED_POINTS", "legacy", "%s", w.c_str());
    i >> w >> a >> b >> c; VH_CHECK(i && w == "DIMENSIONS" && a == nx + 1 && b == ny + 1 && c == nz + 1, "legacy", "dimensions %g %g %g", a, b, c);
    i >> w >> a >> b >> c; VH_CHECK(i && w == "ORIGIN" && a == 0 && b == 0 && c == 0, "legacy", "origin");
    i >> w >> a >> b >> c; VH_CHECK(i && w == "SPACING" && vh::close_to(a, h[0], 1e-5) && vh::close_to(b, h[1], 1e-5) && vh::close_to(c, h[2], 1e-5), "legacy", "spacing %g %g %g", a, b, c);
    i >> w >> a; VH_CHECK(i && w == "CELL_DATA" && a == nc, "legacy", "cells %g", a);
    std::set<std::string> seen;
    while (i >> w) {
        std::string name, type, tab;
        if (w != "SCALARS" || !(i >> name >> type) || type != "float") { vh::fail("legacy", "expected a field, found %s", w.c_str()); return; }
        i >> w >> tab; VH_CHECK(w == "LOOKUP_TABLE", "legacy", "%s", w.c_str());
        int f = 0;
        while (f < 4 && name != fname[f]) ++f;
        if (f == 4 || !(mask >> f & 1) || !seen.insert(name).second) { vh::fail("legacy", "field %s", name.c_str()); return; }
        for (int q = 0; q < nc; ++q) {
            std::string t; char* e;
            if (!(i >> t)) { vh::fail("legacy", "%s ends at %d", fname[f], q); return; }
            double x = strtod(t.c_str(), &e), want = d.v[f][fcomp[f] * q];
            if (*e || !vh::close_to(x, want, 5.1e-6, 1e-305)) { vh::fail("legacy", "%s of cell %d: %s for %g", fname[f], q, t.c_str(), want); return; }
        }
    }
    VH_CHECK((int)seen.size() == __builtin_popcount(mask), "legacy", "%d fields", (int)seen.size());
}

void explore()
{
    for (int k = 0; k < 17; ++k) for (int mask = 0; mask < 16; ++mask) for (int pat = 0; pat < 4; ++pat) for (int hist = 0; hist < 3; ++hist) {
        if (!vh::begin(vh::fmt("xml:grid=%d:fields=%d:values=%d:stream=%d", k, mask, pat, hist))) continue;
        UnstructuredGrid* g = grid(k);
        Data d(g->number_of_cells, mask, pat);
        std::ostringstream o;
        if (hist == 1) { o.precision(3); }
        if (hist == 2) {          // a refused write and a complete one before
            UnstructuredGrid* g2 = fl::grid(0); std::ostringstream o2; bool threw = false;
            Data none(6, 0, 0);
            try { Opm::writeVtkData(*g2, none.m, o2); } catch (const std::exception&) { threw = true; }
            VH_CHECK(threw, "2d", "two-dimensional grid accepted");
            destroy_grid(g2);
            g2 = fl::grid(2); Data d2(g2->number_of_cells, 15, 0); Opm::writeVtkData(*g2, d2.m, o2); destroy_grid(g2);
        }
        bool threw = false;
        try { Opm::writeVtkData(*g, d.m, o); } catch (const std::exception&) { threw = true; }
        if (g->dimensions != 3) { VH_CHECK(threw, "2d", "two-dimensional grid accepted"); }
        else if (threw) vh::fail("refused", "three-dimensional grid");
        else { judge(g, d, mask, o.str()); vh::outcome(o.str()); }
        destroy_grid(g);
    }
    for (int pat = 0; pat < 4; ++pat) for (int s = 0; s < 3; ++s) for (int k = 0; k < 3; ++k) if (vh::begin(vh::fmt("legacy:large%d:spacing=%d:values=%d", k, s, pat))) legacy(k == 0 ? 37 : 13, k == 1 ? 29 : 11, k == 2 ? 23 : 3, s, 15, pat);
    const int mx = vh::thorough() ? 6 : 3;
    for (int nx = 1; nx <= mx; ++nx) for (int ny = 1; ny <= mx; ++ny) for (int nz = 1; nz <= mx; ++nz) for (int s = 0; s < 3; ++s)
        for (int mask = 0; mask < 16; ++mask) for (int pat = 0; pat < 4; ++pat)
            if (vh::begin(vh::fmt("legacy:%dx%dx%d:spacing=%d:fields=%d:values=%d", nx, ny, nz, s, mask, pat))) legacy(nx, ny, nz, s, mask, pat);
}
