// VAG grid files: conversion, writing, reading, conversion back; foreign files; every truncation and token replacement.
#define FLOW_NO_WELLS
#include "flow.hpp"
#include <opm/core/io/vag/vag.hpp>

static UnstructuredGrid* grid(int k)
{
    switch (k) {
    case 8: return create_grid_hexa3d(1, 1, 1, 1, 2, 3);
    case 9: return create_grid_hexa3d(3, 2, 2, 1, 1, 1);
    case 10: return fl::prisms(6, 2, false, 0x5a);
    case 11: return fl::prisms(7, 1, true, 0x3c96);
    }
    return fl::grid(k);
}
static const int GR[] = { 1, 2, 3, 4, 6, 8, 9, 10, 11, 21, 22 };
enum { NG = 11 };

template <class V> static bool eq(const char* what, const V& a, const V& b, double tol = 0)
{
    if (a.size() != b.size()) { vh::fail("roundtrip", "%s has %d entries, expected %d", what, (int)b.size(), (int)a.size()); return false; }
    for (size_t i = 0; i < a.size(); ++i)
        if (!vh::close_to(a[i], b[i], tol)) { vh::fail("roundtrip", "%s[%d] is %.17g, expected %.17g", what, (int)i, (double)b[i], (double)a[i]); return false; }
    return true;
}
static bool same(const Opm::VAG& a, const Opm::VAG& b, double tol)
{
#define NUM(x) if (a.x != b.x) { vh::fail("roundtrip", #x " is %d, expected %d", b.x, a.x); return false; }
    NUM(number_of_vertices) NUM(number_of_volumes) NUM(number_of_faces) NUM(number_of_edges)
    bool ok = true;
#define POS(x) ok = eq(#x ".pos", a.x.pos, b.x.pos) && eq(#x ".value", a.x.value, b.x.value) && ok;
    POS(volumes_to_faces) POS(volumes_to_vertices) POS(faces_to_edges) POS(faces_to_vertices)
    ok = eq("edges", a.edges, b.edges) && ok;
    ok = eq("faces_to_volumes", a.faces_to_volumes, b.faces_to_volumes) && ok;
    ok = eq("vertices", a.vertices, b.vertices, tol) && ok;
    return eq("material", a.material, b.material, 1e-15) && ok;
}

// What a VAG structure of this grid has to say, built independently (edges by lookup, any numbering).
static bool describes(const UnstructuredGrid* g, const Opm::VAG& v)
{
    const int nc = g->number_of_cells, nf = g->number_of_faces, nn = g->number_of_nodes;
    if (v.number_of_volumes != nc || v.number_of_faces != nf || v.number_of_vertices != nn) { vh::fail("convert", "counts"); return false; }
    if ((int)v.vertices.size() != 3 * nn || !std::equal(v.vertices.begin(), v.vertices.end(), g->node_coordinates)) { vh::fail("convert", "vertices"); return false; }
    struct P { static bool ok(const Opm::PosStruct& p, int n) {
        if ((int)p.pos.size() != n + 1 || p.pos[0] != 0 || p.pos[n] != (int)p.value.size()) return false;
        for (int i = 0; i < n; ++i) if (p.pos[i] > p.pos[i + 1]) return false;
        return true;
    } };
    if (!P::ok(v.volumes_to_faces, nc) || !P::ok(v.volumes_to_vertices, nc) || !P::ok(v.faces_to_edges, nf) || !P::ok(v.faces_to_vertices, nf)) { vh::fail("convert", "position tables"); return false; }
    if ((int)v.edges.size() != 2 * v.number_of_edges || (int)v.faces_to_volumes.size() != 2 * nf) { vh::fail("convert", "sizes"); return false; }
    std::set<std::pair<int, int> > edges;
    for (int e = 0; e < v.number_of_edges; ++e) {
        int a = std::min(v.edges[2 * e], v.edges[2 * e + 1]), b = std::max(v.edges[2 * e], v.edges[2 * e + 1]);
        if (a < 1 || b > nn || a == b || !edges.insert(std::make_pair(a, b)).second) { vh::fail("convert", "edge %d", e); return false; }
    }
    std::set<std::pair<int, int> > used;
    for (int f = 0; f < nf; ++f) {
        const int* n = g->face_nodes + g->face_nodepos[f]; const int m = g->face_nodepos[f + 1] - g->face_nodepos[f];
        if (v.faces_to_vertices.pos[f + 1] - v.faces_to_vertices.pos[f] != m || v.faces_to_edges.pos[f + 1] - v.faces_to_edges.pos[f] != m) { vh::fail("convert", "face %d", f); return false; }
        std::multiset<std::pair<int, int> > we, ge;
        for (int i = 0; i < m; ++i) {
            if (v.faces_to_vertices.value[v.faces_to_vertices.pos[f] + i] != n[i] + 1) { vh::fail("convert", "nodes of face %d", f); return false; }
            int a = n[i] + 1, b = n[(i + 1) % m] + 1; if (a > b) std::swap(a, b);
            we.insert(std::make_pair(a, b));
            int e = v.faces_to_edges.value[v.faces_to_edges.pos[f] + i] - 1;
            if (e < 0 || e >= v.number_of_edges) { vh::fail("convert", "edges of face %d", f); return false; }
            a = v.edges[2 * e]; b = v.edges[2 * e + 1]; if (a > b) std::swap(a, b);
            ge.insert(std::make_pair(a, b));
        }
        if (we != ge) { vh::fail("convert", "edges of face %d", f); return false; }
        used.insert(we.begin(), we.end());
        for (int s = 0; s < 2; ++s) if (v.faces_to_volumes[2 * f + s] != g->face_cells[2 * f + s] + 1) { vh::fail("convert", "cells of face %d", f); return false; }
    }
    if (used != edges) { vh::fail("convert", "edges not of any face"); return false; }
    for (int c = 0; c < nc; ++c) {
        std::set<int> w;
        const int m = g->cell_facepos[c + 1] - g->cell_facepos[c];
        if (v.volumes_to_faces.pos[c + 1] - v.volumes_to_faces.pos[c] != m) { vh::fail("convert", "faces of cell %d", c); return false; }
        for (int i = 0; i < m; ++i) {
            int f = g->cell_faces[g->cell_facepos[c] + i];
            if (v.volumes_to_faces.value[v.volumes_to_faces.pos[c] + i] != f + 1) { vh::fail("convert", "faces of cell %d", c); return false; }
            for (int k = g->face_nodepos[f]; k < g->face_nodepos[f + 1]; ++k) w.insert(g->face_nodes[k] + 1);
        }
        std::vector<int> got(v.volumes_to_vertices.value.begin() + v.volumes_to_vertices.pos[c], v.volumes_to_vertices.value.begin() + v.volumes_to_vertices.pos[c + 1]);
        if (got.size() != w.size() || std::set<int>(got.begin(), got.end()) != w) { vh::fail("convert", "vertices of cell %d", c); return false; }
    }
    return true;
}

static void back(const UnstructuredGrid* g, Opm::VAG& v)
{
    UnstructuredGrid* n = allocate_grid(3, v.number_of_volumes, v.number_of_faces, v.faces_to_vertices.value.size(), v.volumes_to_faces.value.size(), v.number_of_vertices);
    { fl::Quiet q; Opm::vagToUnstructuredGrid(v, *n); }
    vh::tr();
    const int nc = g->number_of_cells, nf = g->number_of_faces;
#define ARR(x, cnt) for (int i = 0; i < (int)(cnt); ++i) if (n->x[i] != g->x[i]) { vh::fail("grid", #x "[%d] is %d, expected %d", i, (int)n->x[i], (int)g->x[i]); break; }
#define GEO(x, cnt, tol) for (int i = 0; i < (int)(cnt); ++i) if (!vh::close_to(n->x[i], g->x[i], 1e-8, tol)) { vh::fail("geometry", #x "[%d] is %.15g, expected %.15g", i, n->x[i], g->x[i]); break; }
    if (n->dimensions != 3 || n->number_of_cells != nc || n->number_of_faces != nf || n->number_of_nodes != g->number_of_nodes) vh::fail("grid", "counts");
    else {
        ARR(face_nodepos, nf + 1) ARR(face_nodes, g->face_nodepos[nf]) ARR(face_cells, 2 * nf) ARR(cell_facepos, nc + 1) ARR(cell_faces, g->cell_facepos[nc])
        GEO(node_coordinates, 3 * g->number_of_nodes, 0)
        double big = 0, s = 0, lo = 1e300;
        for (int i = 0; i < nc; ++i) { s = std::max(s, std::fabs(g->cell_volumes[i])); }
        for (int i = 0; i < 3 * g->number_of_nodes; ++i) { big = std::max(big, std::fabs(g->node_coordinates[i])); lo = std::min(lo, g->node_coordinates[i]); }
        const double t = 1e-9 * std::max(big, 1e-300), h = std::pow(s, 1. / 3);
        GEO(face_centroids, 3 * nf, t) GEO(cell_centroids, 3 * nc, t)
        GEO(face_areas, nf, t * h) GEO(face_normals, 3 * nf, t * h) GEO(cell_volumes, nc, t * h * h)
    }
    destroy_grid(n);
}

static void scaled(UnstructuredGrid* g, int how)
{
    for (int i = 0; i < 3 * g->number_of_nodes; ++i) {
        double& x = g->node_coordinates[i];
        switch (how) {
        case 1: x = 458123.456 + 17.0 * x / 3 + 6700000.0 * (i % 3 == 1); break;
        case 2: x = x * 1e-4 / 3; break;
        }
    }
    compute_geometry(g);
}

// An independent writer of the format: header numbers on their own lines, sections in any order and spelling.
static std::string section(const Opm::VAG& v, int s, int spell)
{
    static const char* kw[7][3] = { { "Vertices", "Vertices", "Vertices" }, { "Volumes->Faces", "Volumes->faces", "Volumes->Faces" }, { "Volumes->Vertices", "Volumes->Verticess", "Volumes->Vertices" },
                                    { "Faces->Edges", "Faces->edges", "Faces->Edgess" }, { "Faces->Vertices", "Faces->vertices", "Faces->vertices" },
                                    { "Faces->Control volumes", "Faces->Volumes", "Faces->Control volumes" }, { "Edges", "Edge", "Edges" } };
    std::ostringstream o; o.precision(17);
    o << kw[s][spell] << (spell == 1 ? "\n" : "    ");
    const char* sep = spell == 2 ? "\n" : " ";
    const Opm::PosStruct* p = s == 1 ? &v.volumes_to_faces : s == 2 ? &v.volumes_to_vertices : s == 3 ? &v.faces_to_edges : &v.faces_to_vertices;
    if (s == 0) { o << v.vertices.size() / 3 << "\n"; for (size_t i = 0; i < v.vertices.size(); ++i) o << v.vertices[i] << (i % 3 == 2 ? "\n" : sep); }
    else if (s >= 5) { const std::vector<int>& x = s == 5 ? v.faces_to_volumes : v.edges; o << x.size() / 2 << "\n"; for (size_t i = 0; i < x.size(); ++i) o << x[i] << (i % 2 ? "\n" : sep); }
    else { o << p->pos.size() - 1 << "\n"; for (size_t i = 0; i + 1 < p->pos.size(); ++i) { o << p->pos[i + 1] - p->pos[i]; for (int k = p->pos[i]; k < p->pos[i + 1]; ++k) o << sep << p->value[k]; o << "\n"; } }
    return o.str();
}
static std::string header(const Opm::VAG& v, int order)
{
    const char* n[4] = { "Number of vertices\n", "Number of control volume\n", "Number of faces\n", "Number of edges\n" };
    const int c[4] = { v.number_of_vertices, v.number_of_volumes, v.number_of_faces, v.number_of_edges };
    std::string s = "File in the Vag grid format\n";
    for (int i = 0; i < 4; ++i) { int k = (i + order) % 4; s += k == 1 && order % 2 ? std::string("Number of volumes\n") : n[k]; s += "   " + std::to_string(c[k]) + "\n"; }
    return s;
}
static bool read(const std::string& t, Opm::VAG& v)
{
    fl::Quiet q; std::istringstream i(t);
    try { Opm::readVagGrid(i, v); } catch (const std::exception&) { return false; }
    return true;
}
static void blank(Opm::VAG& v) { v.number_of_vertices = v.number_of_volumes = v.number_of_faces = v.number_of_edges = 0; }

void explore()
{
    for (int q = 0; q < NG; ++q) for (int how = 0; how < 3; ++how) for (int reuse = 0; reuse < 4; ++reuse) {
        if (!vh::begin(vh::fmt("roundtrip:grid=%d:coordinates=%d:reuse=%d", GR[q], how, reuse))) continue;
        UnstructuredGrid* g = grid(GR[q]); scaled(g, how);
        Opm::VAG a, b; blank(a); blank(b);
        if (reuse & 1) { UnstructuredGrid* o = grid(GR[(q + 3) % NG]); fl::Quiet z; Opm::unstructuredGridToVag(*o, a); destroy_grid(o); }
        { fl::Quiet z; Opm::unstructuredGridToVag(*g, a); }
        vh::tr();
        if (describes(g, a)) {
            std::ostringstream o; Opm::writeVagFormat(o, a); vh::tr();
            if (reuse & 2) {
                Opm::VAG x; blank(x); UnstructuredGrid* other = grid(GR[(q + 1) % NG]); { fl::Quiet z; Opm::unstructuredGridToVag(*other, x); } destroy_grid(other);
                std::string t = header(x, 0); for (int s = 0; s < 7; ++s) t += section(x, s, 0);
                VH_CHECK(read(t + "Material number 2\n1 2 3 4\n", b), "refused", "foreign file");
            }
            vh::outcome(o.str());
            // one vertex, and one pair, per line
            std::istringstream l(o.str()); std::string s; bool on = false; int lines = 0;
            while (std::getline(l, s)) { if (s.compare(0, 8, "Vertices") == 0) on = true; else if (s.find("->") != std::string::npos) on = false; else if (on) { std::istringstream w(s); double x; int n = 0; while (w >> x) ++n; if (n != 3) { vh::fail("lines", "a line of the vertices holds %d numbers", n); break; } ++lines; } }
            VH_CHECK(lines == g->number_of_nodes, "lines", "%d vertex lines", lines);
            if (!read(o.str(), b)) vh::fail("refused", "its own file");
            else { a.material.clear(); b.material.clear(); if (same(a, b, 1e-14)) back(g, b); }
        }
        destroy_grid(g);
    }
    // foreign files: spellings, header orders, section orders, material
    std::vector<int> perm(7); for (int i = 0; i < 7; ++i) perm[i] = i;
    int np = 0;
    do {
        ++np;
        if (!vh::thorough() && np % 16 != 1) continue;
        for (int sp = 0; sp < 3; ++sp) for (int mat = 0; mat < 3; ++mat) {
            if (!vh::begin(vh::fmt("foreign:order=%s:spelling=%d:material=%d", vh::str(perm).c_str(), sp, mat))) continue;
            UnstructuredGrid* g = grid(np % 3 == 0 ? 3 : 1);
            Opm::VAG a, b; blank(a); blank(b); { fl::Quiet z; Opm::unstructuredGridToVag(*g, a); }
            std::string t = header(a, np % 4); for (int s = 0; s < 7; ++s) t += section(a, perm[s], sp);
            if (mat) { t += "Material number " + std::to_string(g->number_of_cells) + "\n"; for (int c = 0; c < g->number_of_cells; ++c) { t += vh::fmt("%d %d 0.%d 1e-13", c + 1, c % 2, c + 1); if (c + 1 < g->number_of_cells || mat == 2) t += "\n"; double m[4] = { c + 1., c % 2 + 0., (c + 1) / 10.0, 1e-13 }; a.material.insert(a.material.end(), m, m + 4); } }
            if (!read(t, b)) vh::fail("refused", "foreign file");
            else if (same(a, b, 1e-14)) back(g, b);
            // once more into the same structure
            if (mat && !read(t, b)) vh::fail("refused", "foreign file read twice");
            else if (mat) same(a, b, 1e-14);
            if (mat) for (int k = 0; k < 4 * g->number_of_cells; ++k) {       // a word in place of any of the material's numbers
                size_t at = t.find('\n', t.find("Material")) + 1; for (int i = 0; i < k; ++i) at = t.find_first_not_of(" \n", t.find_first_of(" \n", at));
                size_t end = t.find_first_of(" \n", at); if (end == std::string::npos) end = t.size();
                Opm::VAG w; blank(w);
                if (read(t.substr(0, at) + (k % 2 ? "none" : "/") + t.substr(end), w)) { vh::fail("word", "a word in place of number %d of the material is accepted", k); break; }
            }
            vh::tr();
            destroy_grid(g);
        }
    } while (std::next_permutation(perm.begin(), perm.end()));
    // malformed files: the reader has to come back, and to refuse what breaks off within a section
    for (int q = 0; q < 2; ++q) {
        UnstructuredGrid* g = grid(q ? 3 : 8);
        Opm::VAG a; blank(a); { fl::Quiet z; Opm::unstructuredGridToVag(*g, a); }
        std::vector<std::string> tok; std::vector<char> whole;   // whole[i]: cutting before token i leaves only complete sections
        std::string parts[13]; int n = 0;
        parts[n++] = "File in the Vag grid format ";
        for (int i = 0; i < 4; ++i) parts[n++] = "";
        { std::istringstream h(header(a, 0)); std::string l; std::getline(h, l); for (int i = 1; i < 5; ++i) { std::string v; std::getline(h, l); std::getline(h, v); parts[i] = l + "\n" + v; } }
        for (int s = 0; s < 7; ++s) parts[n++] = section(a, s, 0);
        for (int i = 0; i < n; ++i) {
            std::istringstream w(parts[i]); std::string x; bool first = true;
            while (w >> x) { tok.push_back(x); whole.push_back(first || i == 0); first = false; }
        }
        std::vector<char> kw(tok.size());
        for (size_t i = 0; i < tok.size(); ++i) kw[i] = 0 != isalpha((unsigned char)tok[i][0]);
        static const char* rep[] = { "x", "", "-1", "1000", "Vertices", "/", "1e400" };
        for (size_t i = 0; i < tok.size(); ++i) for (int r = -1; r < 7; ++r) {
            if (r >= 0 && q == 1 && !vh::thorough() && i % 5) continue;
            if (!vh::begin(vh::fmt("malformed:grid=%d:token=%d:%s", q, (int)i, r < 0 ? "cut" : rep[r]))) continue;
            std::string t;
            for (size_t k = 0; k < tok.size(); ++k) {
                if (k == i && r < 0) break;
                t += k == i ? rep[r] : tok[k];
                t += (k >= 2 && tok[k - 1] == "of") ? (tok[k] == "control" ? " " : "\n") : tok[k] == "volume" ? "\n" : " ";
            }
            Opm::VAG v; blank(v);
            bool ok = read(t, v);
            vh::tr(); vh::outcome(vh::fmt("%d %d %d", ok, r, (int)kw[i]));
            if (r < 0 && tok[i] == "of") {}   // reported on the error stream only
            else if (r < 0) VH_CHECK(ok == (bool)whole[i], "cut", "file broken off before token %d (%s) was %s", (int)i, tok[i].c_str(), ok ? "accepted" : "refused");
            else if (!kw[i] && (r == 0 || r == 4 || r == 5)) VH_CHECK(!ok, "word", "%s in place of number %d (%s) accepted", rep[r], (int)i, tok[i].c_str());
            if (ok && r < 0) {         // what was read is what the file says
                if (v.vertices.size()) eq("vertices", a.vertices, v.vertices, 1e-14);
                if (v.faces_to_volumes.size()) eq("faces_to_volumes", a.faces_to_volumes, v.faces_to_volumes);
            }
        }
        destroy_grid(g);
    }
}
