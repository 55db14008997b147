// read_grid()/GridManager file and deck constructors: round trips and every truncation/corruption point.
#include "gridcheck.hpp"
#include "deck.hpp"
#include "flow.hpp"
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/grid/GridManager.hpp>
#include <fstream>

typedef std::vector<std::string> Tok;
static std::vector<char> integer;        // of every token of the last dump
static void put(Tok& t, long v) { integer.resize(t.size(), 0); integer.push_back(1); t.push_back(std::to_string(v)); }
static void put(Tok& t, double v) { integer.resize(t.size(), 0); integer.push_back(0); t.push_back(dk::num(v)); }
static void puti(Tok& t, const int* p, long n) { for (long i = 0; i < n; ++i) put(t, (long)p[i]); }
static void putd(Tok& t, const double* p, long n) { for (long i = 0; i < n; ++i) put(t, p[i]); }

static Tok dump(const UnstructuredGrid* g, bool tag, bool map)
{
    Tok t;
    const int d = g->dimensions, nc = g->number_of_cells, nf = g->number_of_faces;
    put(t, (long)d); put(t, (long)nc); put(t, (long)nf); put(t, (long)g->number_of_nodes);
    put(t, (long)g->face_nodepos[nf]); put(t, (long)g->cell_facepos[nc]);
    put(t, (long)tag); put(t, (long)map);
    puti(t, g->cartdims, d);
    putd(t, g->node_coordinates, (long)d * g->number_of_nodes);
    puti(t, g->face_nodepos, nf + 1);
    puti(t, g->face_nodes, g->face_nodepos[nf]);
    puti(t, g->face_cells, 2 * nf);
    putd(t, g->face_areas, nf);
    putd(t, g->face_centroids, d * nf);
    putd(t, g->face_normals, d * nf);
    puti(t, g->cell_facepos, nc + 1);
    for (int k = 0; k < g->cell_facepos[nc]; ++k) { put(t, (long)g->cell_faces[k]); if (tag) put(t, (long)g->cell_facetag[k]); }
    if (map) for (int c = 0; c < nc; ++c) put(t, (long)(g->global_cell ? g->global_cell[c] : 3 * c + 1));
    putd(t, g->cell_volumes, nc);
    putd(t, g->cell_centroids, d * nc);
    return t;
}

static std::string file(const Tok& t, size_t n, int style)
{
    std::string path = vh::scratch() + "/grid.txt";
    std::ofstream o(path.c_str());
    for (size_t i = 0; i < n; ++i) o << t[i] << (style == 0 ? "\n" : style == 1 ? " " : (i % 5 == 4 ? "\n  \t" : "  "));
    return path;
}

static bool same(const UnstructuredGrid* a, const UnstructuredGrid* b, bool tag, bool map)
{
#define EQ(x) if (a->x != b->x) { vh::fail("field", #x " differs: %d vs %d", (int)a->x, (int)b->x); return false; }
    EQ(dimensions) EQ(number_of_cells) EQ(number_of_faces) EQ(number_of_nodes)
    const int d = a->dimensions, nc = a->number_of_cells, nf = a->number_of_faces;
    for (int i = 0; i < 3; ++i) { int w = i < d ? a->cartdims[i] : 1; if (b->cartdims[i] != w) { vh::fail("field", "cartdims[%d]=%d", i, b->cartdims[i]); return false; } }
#define ARR(x, n) for (long i = 0; i < (long)(n); ++i) if (a->x[i] != b->x[i]) { vh::fail("field", #x "[%ld] differs", i); return false; }
    ARR(node_coordinates, d * a->number_of_nodes) ARR(face_nodepos, nf + 1) ARR(face_nodes, a->face_nodepos[nf])
    ARR(face_cells, 2 * nf) ARR(face_areas, nf) ARR(face_centroids, d * nf) ARR(face_normals, d * nf)
    ARR(cell_facepos, nc + 1) ARR(cell_faces, a->cell_facepos[nc]) ARR(cell_volumes, nc) ARR(cell_centroids, d * nc)
    if (tag) { if (!b->cell_facetag) { vh::fail("field", "no facetags"); return false; } ARR(cell_facetag, a->cell_facepos[nc]) }
    else if (b->cell_facetag) { vh::fail("field", "unexpected facetags"); return false; }
    if (map) { if (!b->global_cell) { vh::fail("field", "no global_cell"); return false; }
        for (int c = 0; c < nc; ++c) if (b->global_cell[c] != (a->global_cell ? a->global_cell[c] : 3 * c + 1)) { vh::fail("field", "global_cell[%d]", c); return false; } }
    else if (b->global_cell) { vh::fail("field", "unexpected global_cell"); return false; }
    return true;
}

static void file_cases(const char* name, UnstructuredGrid* g, size_t step = 1)
{
    for (int tag = 0; tag < 2; ++tag) for (int map = 0; map < 2; ++map) {
        Tok t;
        for (int st = 0; st < 3; ++st) {
            if (!vh::begin(vh::fmt("rt/%s/t%dm%d/s%d", name, tag, map, st))) continue;
            t = dump(g, tag, map);
            std::string p = file(t, t.size(), st);
            UnstructuredGrid* r = read_grid(p.c_str());
            vh::tr();
            if (!r) { vh::fail("null", "valid file rejected"); continue; }
            if (same(g, r, tag, map)) vh::sample(vh::fmt("%s round trip, %d tokens", vh::ctx().cur.c_str(), (int)t.size()));
            destroy_grid(r);
            Opm::GridManager gm(p);
            same(g, gm.c_grid(), tag, map);
        }
        // every truncation point, every non-numeric token, every decimal for an integer
        t = dump(g, tag, map);
        for (size_t n = 0; n < t.size(); n += step) for (int how = 0; how < 3; ++how) {
            if (how == 2 && !integer[n]) continue;       // a decimal in place of an integer
            if (!vh::begin(vh::fmt("cut/%s/t%dm%d/%d.%d", name, tag, map, (int)n, how))) continue;
            Tok u = t;
            if (how) u[n] = how == 2 ? ".9" : "x";
            std::string p = file(u, how ? u.size() : n, n % 3);
            UnstructuredGrid* r = read_grid(p.c_str());
            vh::tr();
            VH_CHECK(r == 0, "accepted", "file %s at token %d of %d was accepted", how ? "corrupted" : "truncated", (int)n, (int)t.size());
            destroy_grid(r);
            if (n % 7 == 0) {
                bool threw = false;
                try { Opm::GridManager gm(p); } catch (const std::exception&) { threw = true; }
                VH_CHECK(threw, "accepted", "GridManager accepted a broken file");
            }
            vh::outcome(vh::hash(&n, sizeof n));
        }
    }
}

static void deck_tensor()
{
    std::vector<int> q(7, 0), rad(7, 2);
    rad[0] = vh::thorough() ? 5 : 4; rad[1] = vh::thorough() ? 4 : 3; rad[3] = 8; rad[4] = 3; rad[5] = 3; rad[6] = 6;
    do {
        // top: none/DEPTHZ/TOPS uniform/TOPS with the last, the middle or the second entry different/DEPTHZ too short or long; dims: DIMENS, SPECGRID, none; units; size errors
        if (!vh::begin("tensor/" + vh::str(q))) continue;
        int nx = q[0] + 1, ny = q[1] + 1, nz = q[2] + 2;
        int top = q[3], dim = q[4], unit = q[5], err = q[6];
        std::vector<double> dx, dy, dz, tops, depthz;
        const int odd = top == 3 ? nx * ny - 1 : top == 6 ? nx * ny / 2 : top == 7 ? 1 : -1; // TOPS entry unlike the others
        const bool uneven = odd >= 0 && odd < nx * ny && nx * ny > 1;
        for (int i = 0; i < nx; ++i) dx.push_back(1 + 0.5 * i);
        for (int i = 0; i < ny; ++i) dy.push_back(2 + 0.25 * i);
        for (int i = 0; i < nz; ++i) dz.push_back(0.5 + i);
        for (int i = 0; i < nx * ny; ++i) tops.push_back(1000.5 + (i == odd ? 1 : 0));
        for (int i = 0; i < (nx + 1) * (ny + 1) - (top == 4) + (top == 5); ++i) depthz.push_back(100 + 0.125 * (i % 3) + i);
        if (err == 1) dx.push_back(1); if (err == 2) dy.push_back(1); if (err == 3) dz.pop_back();
        std::string s = "RUNSPEC\n";
        double L = 1;
        if (unit == 1) s += "METRIC\n";
        if (unit == 2) { s += "FIELD\n"; L = 0.3048; }
        std::string dd = std::to_string(nx) + " " + std::to_string(ny) + " " + std::to_string(nz);
        if (dim == 0) s += "DIMENS\n" + dd + " /\n";
        if (dim == 1) s += "SPECGRID\n" + dd + " 1 F /\n";
        s += "GRID\n";
        if (err != 4) s += "DXV\n" + dk::list(dx) + "/\n";
        s += "DYV\n" + dk::list(dy) + "/\n";
        if (err != 5) s += "DZV\n" + dk::list(dz) + "/\n";
        if (top == 1 || top == 4 || top == 5) s += "DEPTHZ\n" + dk::list(depthz) + "/\n";
        if (top == 2 || top == 3 || top > 5) s += "TOPS\n" + dk::list(tops) + "/\n";
        bool bad = err != 0 || dim == 2 || top == 4 || top == 5 || uneven;
        bool threw = false;
        try {
            dk::Deck d = dk::parse(s);
            Opm::GridManager gm(*d);
            const UnstructuredGrid* g = gm.c_grid();
            vh::tr();
            if (bad) { vh::fail("accepted", "inconsistent deck accepted"); continue; }
            if (g->number_of_cells != nx * ny * nz || g->cartdims[0] != nx || g->cartdims[1] != ny || g->cartdims[2] != nz) { vh::fail("dims", "wrong dimensions"); continue; }
            if (!gc::topology(g)) continue;
            gc::geometry(g, 1e-10, true, false);
            std::vector<double> x(1, 0.0), y(1, 0.0), z(1, 0.0);
            for (int i = 0; i < nx; ++i) x.push_back(x.back() + dx[i]);
            for (int i = 0; i < ny; ++i) y.push_back(y.back() + dy[i]);
            for (int i = 0; i < nz; ++i) z.push_back(z.back() + dz[i]);
            for (int k = 0; k < g->number_of_nodes; ++k) {
                int I = k % (nx + 1), J = k / (nx + 1) % (ny + 1), K = k / ((nx + 1) * (ny + 1));
                double off = top == 1 ? depthz[I + (nx + 1) * J] : top == 2 || top == 3 || top > 5 ? tops[0] : 0;
                const double* p = g->node_coordinates + 3 * k;
                VH_CHECK(vh::close_to(p[0], L * x[I], 1e-13, 1e-14) && vh::close_to(p[1], L * y[J], 1e-13, 1e-14) && vh::close_to(p[2], L * (z[K] + off), 1e-13, 1e-14),
                         "coord", "node %d at (%g,%g,%g)", k, p[0], p[1], p[2]);
            }
            for (int c = 0; c < g->number_of_cells; ++c) {
                double v = L * L * L * dx[c % nx] * dy[c / nx % ny] * dz[c / nx / ny];
                VH_CHECK(vh::close_to(g->cell_volumes[c], v, 1e-9), "volume", "cell %d volume %g expected %g", c, g->cell_volumes[c], v);
            }
        } catch (const std::exception&) { threw = true; }
        if (threw && !bad) vh::fail("rejected", "consistent deck rejected");
        vh::outcome(vh::fmt("%d%d", threw, nx * 100 + ny * 10 + nz));
    } while (vh::next(q, rad));
}

static void deck_cp()
{
    // 2x1x2 corner-point decks: ACTNUM maps, units, SPECGRID/DIMENS, presence of ZCORN/COORD; equals create_grid_cornerpoint in metres
    for (int act = -1; act < 16; ++act) for (int unit = 0; unit < 2; ++unit) for (int dim = 0; dim < 3; ++dim) for (int shift = 0; shift < 3; ++shift) for (int miss = 0; miss < 3; ++miss) {
        if (!vh::begin(vh::fmt("cp/%d.%d.%d.%d.%d", act, unit, dim, shift, miss))) continue;
        if (act == 0) continue; // nothing active: outside the domain
        double L = unit ? 0.3048 : 1;
        std::vector<double> coord, zcorn(32);
        for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) { double a[6] = { 2. * i, 3. * j, 0, 2. * i, 3. * j, 100 }; coord.insert(coord.end(), a, a + 6); }
        for (int k = 0; k < 4; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 4; ++i) zcorn[i + 4 * (j + 2 * k)] = 10 + (k + 1) / 2 + (i >= 2 ? 0.5 * shift : 0);
        std::vector<int> actnum;
        for (int c = 0; c < 4; ++c) actnum.push_back(act >> c & 1);
        std::string s = unit ? "FIELD\n" : "METRIC\n";
        if (dim == 0) s += "DIMENS\n2 1 2 /\n";
        if (dim == 1) s += "SPECGRID\n2 1 2 1 F /\n";
        if (miss != 1) s += "COORD\n" + dk::list(coord) + "/\n";
        if (miss != 2) s += "ZCORN\n" + dk::list(zcorn) + "/\n";
        if (act >= 0) s += "ACTNUM\n" + dk::list(actnum) + "/\n";
        bool bad = dim == 2 || miss, threw = false;
        try {
            dk::Deck d = dk::parse(s);
            Opm::GridManager gm(*d);
            vh::tr();
            const UnstructuredGrid* g = gm.c_grid();
            if (bad) { vh::fail("accepted", "incomplete deck accepted"); continue; }
            for (size_t i = 0; i < coord.size(); ++i) coord[i] *= L;
            for (size_t i = 0; i < zcorn.size(); ++i) zcorn[i] *= L;
            struct grdecl in = { { 2, 1, 2 }, &coord[0], &zcorn[0], act < 0 ? 0 : &actnum[0], 0 };
            UnstructuredGrid* w = create_grid_cornerpoint(&in, 0.0);
            int nact = 0;
            for (int c = 0; c < 4; ++c) nact += act < 0 || actnum[c];
            VH_CHECK(g->number_of_cells == nact, "cells", "%d cells expected %d", g->number_of_cells, nact);
            if (g->number_of_cells == w->number_of_cells && g->number_of_faces == w->number_of_faces && g->number_of_nodes == w->number_of_nodes) {
                for (int c = 0; c < g->number_of_cells; ++c) {
                    VH_CHECK(g->global_cell[c] == w->global_cell[c], "global", "cell %d", c);
                    VH_CHECK(vh::close_to(g->cell_volumes[c], 6 * L * L * L, 1e-9), "volume", "cell %d volume %g", c, g->cell_volumes[c]);
                }
                for (int f = 0; f < 2 * g->number_of_faces; ++f) VH_CHECK(g->face_cells[f] == w->face_cells[f], "faces", "face_cells[%d]", f);
                for (int k = 0; k < 3 * g->number_of_nodes; ++k) VH_CHECK(vh::close_to(g->node_coordinates[k], w->node_coordinates[k], 1e-12, 1e-13), "coord", "node_coordinates[%d]", k);
            } else vh::fail("counts", "deck grid differs from the direct one");
            destroy_grid(w);
        } catch (const std::exception&) { threw = true; }
        if (threw && !bad) vh::fail("rejected", "complete deck rejected");
        vh::outcome(vh::fmt("cp%d%d", threw, act));
    }
}

void explore()
{
    dk::quiet();
    if (vh::begin("nofile")) {
        VH_CHECK(read_grid((vh::scratch() + "/does-not-exist").c_str()) == 0, "accepted", "missing file gives a grid");
        UnstructuredGrid* e = create_grid_empty();
        VH_CHECK(e && e->number_of_cells == 0 && !e->cell_faces && !e->face_nodes && !e->global_cell && !e->cell_facetag, "empty", "create_grid_empty not empty");
        destroy_grid(e);
        destroy_grid(0);
    }
    UnstructuredGrid* g;
    for (int nx = 1; nx <= 2; ++nx) for (int ny = 1; ny <= 2; ++ny) {
        g = create_grid_cart2d(nx, ny, 0.3, 1.7); file_cases(vh::fmt("c2-%d%d", nx, ny).c_str(), g); destroy_grid(g);
    }
    g = create_grid_hexa3d(1, 1, 1, 1, 2, 0.1); file_cases("c3-111", g); destroy_grid(g);
    g = create_grid_hexa3d(2, 1, 2, 1, 2, 0.1); file_cases("c3-212", g); destroy_grid(g);
    if (vh::thorough()) { g = create_grid_hexa3d(3, 2, 2, 1, 2, 0.1); file_cases("c3-322", g); destroy_grid(g); }
    {
        std::vector<double> coord, zcorn(16);
        for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) { double a[6] = { 1. * i, 1. * j, 0, 1. * i, 1. * j, 9 }; coord.insert(coord.end(), a, a + 6); }
        for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 4; ++i) zcorn[i + 4 * (j + 2 * k)] = k + (i >= 2 ? 0.3 : 0) + 0.1 * j;
        struct grdecl in = { { 2, 1, 1 }, &coord[0], &zcorn[0], 0, 0 };
        g = create_grid_cornerpoint(&in, 0.0);
        file_cases("cp", g);
        destroy_grid(g);
    }
    // larger files; cut at a few places
    for (int k = 20; k < 23; ++k) { g = fl::grid(k); file_cases(fl::gridname(k), g, vh::thorough() ? 211 : 1511); destroy_grid(g); }
    g = create_grid_hexa3d(17, 9, 6, 0.1, 1.0 / 3, 1e-3); file_cases("hexa17x9x6", g, vh::thorough() ? 4001 : 20011); destroy_grid(g);
    deck_tensor();
    deck_cp();
}
