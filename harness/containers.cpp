// Growing tables against plain vectors: every short sequence of operations, and the boundary conditions of every grid side.
#include "flow.hpp"
#include <iterator>
#include <opm/core/utility/SparseTable.hpp>
#include <opm/core/utility/SparseVector.hpp>
#include <opm/core/transport/implicit/transport_source.h>
#include <opm/core/pressure/FlowBCManager.hpp>
#include <opm/core/pressure/tpfa/compr_source.h>
// its names clash with those of flow_bc.h
#define BC_PRESSURE BC_PRESSURE_
#define BC_RESV BC_RESV_
#include <opm/core/pressure/tpfa/compr_bc.h>
#undef BC_PRESSURE
#undef BC_RESV
using namespace Opm;
typedef std::vector<double> V;
typedef std::vector<std::vector<int> > Rows;

static void same(const SparseTable<int>& t, const Rows& m, bool never, const std::string& what)
{
    size_t n = 0; for (size_t i = 0; i < m.size(); ++i) n += m[i].size();
    if (t.size() != (int)m.size() || t.dataSize() != (int)n || t.empty() != m.empty()) { vh::fail("size", "%s: %d rows, %d values; should be %d, %d", what.c_str(), t.size(), t.dataSize(), (int)m.size(), (int)n); return; }
    size_t k = 0;
    for (size_t i = 0; i < m.size(); ++i) {
        SparseTable<int>::row_type r = t[i]; SparseTable<int>::mutable_row_type w = const_cast<SparseTable<int>&>(t)[i];
        bool ok = t.rowSize(i) == (int)m[i].size() && (size_t)r.size() == m[i].size() && (size_t)w.size() == m[i].size();
        for (size_t j = 0; ok && j < m[i].size(); ++j, ++k) ok = r[j] == m[i][j] && w[j] == m[i][j] && t.data(k) == m[i][j];
        if (!ok) { vh::fail("row", "%s: row %d differs", what.c_str(), (int)i); return; }
    }
    (void)never;
}
// every table of small rows, built in four ways, compared pairwise through its sizes
static void tables(const std::vector<int>& sz)
{
    if (!vh::begin("table/" + vh::str(sz))) return;
    Rows m; std::vector<int> flat; int v = 3;
    for (size_t i = 0; i < sz.size(); ++i) { m.push_back(std::vector<int>()); for (int j = 0; j < sz[i]; ++j) { m[i].push_back(v = (v * 7 + 1) % 11); flat.push_back(v); } }
    SparseTable<int> a(flat.begin(), flat.end(), sz.begin(), sz.end()), b, c, d;
    same(a, m, false, "constructed");
    for (size_t i = 0; i < m.size(); ++i) b.appendRow(m[i].begin(), m[i].end());
    same(b, m, false, "appended");
    c.assign(flat.begin(), flat.end(), sz.begin(), sz.end());
    d.allocate(sz.begin(), sz.end());
    VH_CHECK(d.size() == (int)m.size() && d.dataSize() == (int)flat.size(), "size", "allocated");
    for (int i = 0; i < d.size() && i < (int)m.size(); ++i) std::copy(m[i].begin(), m[i].end(), d[i].begin());
    same(d, m, false, "filled");
    VH_CHECK(a == b && b == c && c == d && a == d, "equal", "tables with the same rows differ");
    for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[i].size(); ++j) { SparseTable<int> e(a); e[i][j] += 1; VH_CHECK(!(e == a), "equal", "change not noticed"); }
    for (int by = -2; by <= 2; ++by) {
        if (by == 0) continue;
        std::vector<int> f2(flat); if (by > 0) f2.resize(flat.size() + by, 1); else { if ((int)flat.size() < -by) continue; f2.resize(flat.size() + by); }
        bool threw = false; fl::Quiet q;
        try { SparseTable<int> e(f2.begin(), f2.end(), sz.begin(), sz.end()); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "refuse", "%d values for %d places accepted", (int)f2.size(), (int)flat.size());
        threw = false;
        try { SparseTable<int> e; e.assign(f2.begin(), f2.end(), sz.begin(), sz.end()); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "refuse", "assign: %d values for %d places accepted", (int)f2.size(), (int)flat.size());
    }
    // rows moved to another position make a different table unless equally long
    for (size_t i = 0; i + 1 < sz.size(); ++i) { std::vector<int> s2(sz); std::swap(s2[i], s2[i + 1]); SparseTable<int> e(flat.begin(), flat.end(), s2.begin(), s2.end()); VH_CHECK((e == a) == (sz[i] == sz[i + 1]), "equal", "row boundaries ignored"); }
    vh::tr(6);
}
static void tableops(const std::vector<int>& ops)
{
    if (!vh::begin("tableops/" + vh::str(ops))) return;
    SparseTable<int> t, u; Rows m, n; int v = 0;
    for (size_t i = 0; i < ops.size(); ++i) {
        std::vector<int> row; int sz[3] = { 1, 0, 2 };
        vh::tr();
        switch (ops[i]) {
        case 0: case 1: case 2: for (int k = 0; k < (ops[i] == 0 ? 2 : ops[i] == 1 ? 0 : 3); ++k) row.push_back(++v); t.appendRow(row.begin(), row.end()); m.push_back(row); break;
        case 3: t.clear(); m.clear(); break;
        case 4: t.swap(u); m.swap(n); break;
        case 5: { std::vector<int> d; d.push_back(++v); d.push_back(++v); d.push_back(++v); t.assign(d.begin(), d.end(), sz, sz + 3); m.assign(3, std::vector<int>()); m[0].push_back(d[0]); m[2].assign(d.begin() + 1, d.end()); break; }
        case 6: t.reserve(3, 4); break;
        case 7: u = t; n = m; break;
        case 8: t.allocate(sz, sz + 3); for (int r = 0; r < 3; ++r) for (int k = 0; k < sz[r]; ++k) t[r][k] = 50 + r + k; m.assign(3, std::vector<int>()); for (int r = 0; r < 3; ++r) for (int k = 0; k < sz[r]; ++k) m[r].push_back(50 + r + k); break;
        case 9: if (!m.empty() && !m.back().empty()) { t[m.size() - 1][0] = -5; m.back()[0] = -5; } break;
        }
        same(t, m, false, vh::fmt("after %d", (int)i)); same(u, n, false, vh::fmt("other after %d", (int)i));
        VH_CHECK((t == u) == (m == n), "equal", "after %d", (int)i);
    }
    for (size_t i = 0; i < m.size(); ++i) vh::outcome(vh::str(m[i]));
}
static void vectors(int size, int mask, int mask2)
{
    if (!vh::begin(vh::fmt("vector/%d/%d/%d", size, mask, mask2))) return;
    std::vector<double> dense(size, 0.0), val; std::vector<int> idx;
    for (int i = 0; i < size; ++i) if (mask >> i & 1) { idx.push_back(i); val.push_back(mask2 >> i & 1 ? 0.0 : 2.5 * i - 3); dense[i] = val.back(); }
    SparseVector<double> a(size, val.begin(), val.end(), idx.begin(), idx.end()), b(size), z;
    for (size_t k = 0; k < idx.size(); ++k) b.addElement(val[k], idx[k]);
    VH_CHECK(a == b, "equal", "constructed and added differ");
    const SparseVector<double>* vs[2] = { &a, &b };
    for (int w = 0; w < 2; ++w) {
        const SparseVector<double>& s = *vs[w];
        VH_CHECK(s.size() == size && s.empty() == (size == 0) && s.nonzeroSize() == (int)idx.size(), "size", "%d, %d stored", s.size(), s.nonzeroSize());
        for (int i = 0; i < size; ++i) if (s.element(i) != dense[i]) { vh::fail("element", "%d: %g, should be %g", i, s.element(i), dense[i]); break; }
        for (size_t k = 0; k < idx.size(); ++k) VH_CHECK(s.nonzeroElement(k) == val[k] && s.nonzeroIndex(k) == idx[k], "element", "stored %d", (int)k);
    }
    for (size_t k = 0; k < idx.size(); ++k) {
        std::vector<double> v2(val); v2[k] += 1; SparseVector<double> c(size, v2.begin(), v2.end(), idx.begin(), idx.end()); VH_CHECK(!(a == c), "equal", "value ignored");
        for (int j = 0; j <= size; ++j) {
            std::vector<int> i2(idx); i2[k] = j;
            bool good = j < size; for (size_t q = 0; q + 1 < i2.size(); ++q) good = good && i2[q] < i2[q + 1];
            bool threw = false; fl::Quiet q;
            try { SparseVector<double> d(size, val.begin(), val.end(), i2.begin(), i2.end()); VH_CHECK((a == d) == (i2 == idx), "equal", "index ignored"); } catch (const std::exception&) { threw = true; }
            VH_CHECK(threw != good, "refuse", "index %d at %d: %s", j, (int)k, threw ? "refused" : "accepted");
        }
    }
    SparseVector<double> longer(size + 1, val.begin(), val.end(), idx.begin(), idx.end());
    VH_CHECK(!(a == longer), "equal", "size ignored");
    a.clear(); VH_CHECK(a.empty() && a.size() == 0 && a.nonzeroSize() == 0 && a == z, "clear", "%d left", a.nonzeroSize());
    vh::tr(3);
}
static void longvector(int size, int step)
{
    if (!vh::begin(vh::fmt("vector/%d/step%d", size, step))) return;
    std::vector<double> val, dense(size, 0.0); std::vector<int> idx;
    for (int i = step / 2; i < size; i += step + (i % 3 == 0)) { idx.push_back(i); val.push_back(i - 17.5); dense[i] = val.back(); }
    SparseVector<double> a(size, val.begin(), val.end(), idx.begin(), idx.end()), b(size);
    for (size_t k = 0; k < idx.size(); ++k) b.addElement(val[k], idx[k]);
    VH_CHECK(a == b && a.size() == size && a.nonzeroSize() == (int)idx.size(), "size", "%d, %d stored", a.size(), a.nonzeroSize());
    for (int i = 0; i < size; ++i) if (a.element(i) != dense[i]) { vh::fail("element", "%d: %g, should be %g", i, a.element(i), dense[i]); return; }
    for (size_t k = 0; k < idx.size(); ++k) { std::vector<double> v(val); v[k] += 1; SparseVector<double> c(size, v.begin(), v.end(), idx.begin(), idx.end()); VH_CHECK(!(a == c), "equal", "value ignored"); }
    for (int at = 1; at < (int)idx.size(); at += 1 + idx.size() / 7) { std::vector<int> i2(idx); i2[at] = i2[at - 1]; bool threw = false; fl::Quiet q; try { SparseVector<double> d(size, val.begin(), val.end(), i2.begin(), i2.end()); } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "refuse", "repeated index at %d accepted", at); }
    vh::tr(3);
}
// the three C tables of sources and conditions: append (two kinds), append of the wrong phase count, clear
static void sources(int np, int init, const std::vector<int>& ops)
{
    if (!vh::begin(vh::fmt("sources/np%d/init%d/%s", np, init, vh::str(ops).c_str()))) return;
    TransportSource* t = create_transport_source(init, np); compr_src* s = compr_src_allocate(np, init); compr_bc* b = compr_bc_allocate(np, init);
    if (!t || !s || !b) { vh::fail("create", "not created"); return; }
    struct E { int c; double p, v; V sat, z; };
    std::vector<E> m;
    for (size_t i = 0; i <= ops.size(); ++i) {
        VH_CHECK(t->nsrc == (int)m.size() && s->nsrc == (int)m.size() && b->nbc == (int)m.size(), "size", "before %d: %d %d %d, should be %d", (int)i, t->nsrc, s->nsrc, b->nbc, (int)m.size());
        VH_CHECK(t->cpty >= t->nsrc && s->cpty >= s->nsrc && b->cpty >= b->nbc, "size", "before %d: more entries than room", (int)i);
        for (size_t k = 0; k < m.size(); ++k) {
            bool ok = t->cell[k] == m[k].c && t->pressure[k] == m[k].p && t->flux[k] == m[k].v, ok2 = s->cell[k] == m[k].c && s->flux[k] == m[k].v;
            bool ok3 = b->face[k] == m[k].c && b->press[k] == m[k].p && b->flux[k] == m[k].v && b->type[k] == (m[k].c % 2 ? BC_PRESSURE_ : BC_RESV_);
            for (int q = 0; q < np; ++q) { ok = ok && t->saturation[np * k + q] == m[k].sat[q] && t->surfvolume[np * k + q] == m[k].z[q]; ok2 = ok2 && s->saturation[np * k + q] == m[k].sat[q]; ok3 = ok3 && b->saturation[np * k + q] == m[k].sat[q]; }
            if (!ok || !ok2 || !ok3) { vh::fail("entry", "before %d: entry %d differs (%d %d %d)", (int)i, (int)k, ok, ok2, ok3); return; }
        }
        if (i == ops.size()) break;
        vh::tr(3);
        E e; e.c = 7 * i + ops[i]; e.p = 10 + i; e.v = i - 1.5; for (int q = 0; q < np; ++q) { e.sat.push_back(0.1 * q + i); e.z.push_back(3 * q - 0.5 * i); }
        if (ops[i] < 2) {
            int r = append_transport_source(e.c, np, e.p, e.v, &e.sat[0], &e.z[0], t), r2 = append_compr_source_term(e.c, np, e.v, &e.sat[0], s), r3 = compr_bc_append(e.c % 2 ? BC_PRESSURE_ : BC_RESV_, e.c, np, e.p, e.v, &e.sat[0], b);
            VH_CHECK(r == 1 && r2 == 1 && r3 == 1, "append", "%d refused: %d %d %d", (int)i, r, r2, r3);
            m.push_back(e);
        } else if (ops[i] == 2) {
            e.sat.push_back(0); e.z.push_back(0);
            int r = append_transport_source(e.c, np + 1, e.p, e.v, &e.sat[0], &e.z[0], t), r2 = append_compr_source_term(e.c, np + 1, e.v, &e.sat[0], s), r3 = compr_bc_append(BC_RESV_, e.c, np + 1, e.p, e.v, &e.sat[0], b);
            VH_CHECK(r < 1 && r2 < 1 && r3 < 1, "refuse", "wrong number of phases accepted: %d %d %d", r, r2, r3);
        } else { clear_transport_source(t); clear_compr_source_term(s); compr_bc_clear(b); m.clear(); }
    }
    vh::outcome(vh::hash(t->flux, 8 * t->nsrc)); vh::outcome(vh::hash(b->saturation, 8 * np * b->nbc));
    destroy_transport_source(t); compr_src_deallocate(s); compr_bc_deallocate(b);
}
// the faces of one side of a grid, from outward normals and logical position
static std::vector<int> sideFaces(const UnstructuredGrid* g, int side)
{
    std::vector<int> r;
    for (int f = 0; f < g->number_of_faces; ++f) {
        int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1], c = a < 0 ? b : a;
        if (a >= 0 && b >= 0) continue;
        const double* n = g->face_normals + g->dimensions * f; int ax = 0;
        for (int i = 1; i < g->dimensions; ++i) if (std::fabs(n[i]) > std::fabs(n[ax])) ax = i;
        double out = n[ax] * (a < 0 ? -1 : 1);
        int gc = g->global_cell ? g->global_cell[c] : c, ijk[3]; for (int i = 0; i < g->dimensions; ++i) { ijk[i] = gc % g->cartdims[i]; gc /= g->cartdims[i]; }
        if (ax == side / 2 && (out > 0) == (side % 2) && ijk[ax] == (side % 2 ? g->cartdims[ax] - 1 : 0)) r.push_back(f);
    }
    return r;
}
static void sides(int gi, const std::vector<int>& ops)
{
    if (!vh::begin(vh::fmt("sides/%s/%s", fl::gridname(gi), vh::str(ops).c_str()))) return;
    UnstructuredGrid* g = fl::grid(gi);
    {
        FlowBCManager man;
        struct C { int type; std::vector<int> f; double v; };
        std::vector<C> m;
        for (size_t i = 0; i < ops.size(); ++i) {
            const int op = ops[i], ns = 2 * g->dimensions;
            vh::tr();
            if (op < ns) { C c; c.type = BC_PRESSURE; c.v = 5 + i; c.f = sideFaces(g, op); if (c.f.empty()) continue; man.pressureSide(*g, FlowBCManager::Side(op), c.v); m.push_back(c); }
            else if (op < 2 * ns) {
                const double q = 3 - 2.0 * i; man.fluxSide(*g, FlowBCManager::Side(op - ns), q);
                std::vector<int> f = sideFaces(g, op - ns); double tot = 0; for (size_t k = 0; k < f.size(); ++k) tot += g->face_areas[f[k]];
                for (size_t k = 0; k < f.size(); ++k) { C c; c.type = BC_FLUX_TOTVOL; c.f.push_back(f[k]); c.v = q * g->face_areas[f[k]] / tot; m.push_back(c); }
            } else if (op == 2 * ns) { man.clear(); m.clear(); }
            else { C c; c.type = i % 2 ? BC_NOFLOW : BC_FLUX_TOTVOL; c.f.push_back(i); c.v = -1; man.append(FlowBCType(c.type), i, -1); m.push_back(c); }
            const FlowBoundaryConditions* bc = man.c_bcs();
            // conditions on single faces may come in any order within a side
            std::multiset<std::pair<int, std::pair<std::vector<int>, long> > > A, B;
            for (size_t k = 0; k < bc->nbc; ++k) { std::vector<int> f(bc->face + bc->cond_pos[k], bc->face + bc->cond_pos[k + 1]); std::sort(f.begin(), f.end()); A.insert(std::make_pair((int)bc->type[k], std::make_pair(f, std::lround(bc->value[k] * 1e9)))); }
            for (size_t k = 0; k < m.size(); ++k) { std::sort(m[k].f.begin(), m[k].f.end()); B.insert(std::make_pair(m[k].type, std::make_pair(m[k].f, std::lround(m[k].v * 1e9)))); }
            if (A != B) { vh::fail("conditions", "after step %d: %d conditions, %d expected, or other faces or values", (int)i, (int)A.size(), (int)B.size()); break; }
        }
    }
    destroy_grid(g);
}

void explore()
{
    const bool T = vh::thorough();
    for (int n = 1; n <= (T ? 7 : 6); ++n) { std::vector<int> d(n, 0); do tables(d); while (vh::next(d, 4)); }
    for (int n = 1; n <= (T ? 6 : 5); ++n) { std::vector<int> d(n, 0); do tableops(d); while (vh::next(d, 10)); }
    for (int n = 20; n <= 400; n *= n < 100 ? 3 : 2) for (int p = 0; p < 6; ++p) { std::vector<int> d(n); for (int i = 0; i < n; ++i) d[i] = p == 0 ? 0 : p == 1 ? 1 : p == 2 ? (i * i) % 4 : p == 3 ? (i % 17 == 0) * 9 : p == 4 ? (i == n - 1) * 100 : i % 2 * 3; if (n < 200) tables(d); }
    for (int n = 30; n <= 120; n += 45) for (int k = 1; k < 10; ++k) { std::vector<int> d(n); for (int i = 0; i < n; ++i) d[i] = (i * k + i / 7) % 10; for (int i = 0; i < n; ++i) if (d[i] == 3 && i % 4) d[i] = i % 3; tableops(d); }
    for (int n = 10; n <= 640; n *= 4) for (int s = 1; s < 9; s += s < 3 ? 1 : 3) longvector(n, s);
    for (int n = 0; n <= (T ? 9 : 7); ++n) for (int m = 0; m < 1 << n; ++m) for (int z = m; ; z = (z - 1) & m) { vectors(n, m, z); if (!z) break; }
    for (int np = 1; np <= 3; ++np) for (int init = 0; init <= 12; ++init) for (int n = 9; n <= 40; n += 31) { std::vector<int> d(n, 0); sources(np, init, d); if (n > 20) { d[18] = 3; sources(np, init, d); } }
    for (int np = 1; np <= 3; ++np) for (int init = 0; init <= 3; ++init) for (int n = 1; n <= (T ? 8 : 6); ++n) { std::vector<int> d(n, 0); do sources(np, init, d); while (vh::next(d, 4)); }
    for (int gi = 0; gi < fl::NLARGE; gi = gi == fl::NGRID - 1 ? fl::LARGE : gi + 1) { UnstructuredGrid* g = fl::grid(gi); int r = 4 * g->dimensions + 2; destroy_grid(g); for (int k = 1; k < (gi < fl::NGRID ? 5 : 30); ++k) { std::vector<int> d(25); for (int i = 0; i < 25; ++i) { d[i] = (i * k + i * i * 2 + k) % r; if (d[i] == r - 2 && i % 12) d[i] = i % 4; } sides(gi, d); } }
    for (int gi = 0; gi < fl::NGRID; ++gi) { UnstructuredGrid* g = fl::grid(gi); int r = 4 * g->dimensions + 2; destroy_grid(g); for (int n = 1; n <= (T ? 4 : 3); ++n) { std::vector<int> d(n, 0); do sides(gi, d); while (vh::next(d, r)); } }
    if (vh::begin("nosides")) {
        VH_CHECK(create_transport_source(1, 0) == 0 && compr_src_allocate(0, 1) == 0 && compr_bc_allocate(-1, 1) == 0, "refuse", "no phases accepted");
        UnstructuredGrid* g = fl::grid(7); int* tag = g->cell_facetag; g->cell_facetag = 0; FlowBCManager m; int threw = 0; fl::Quiet q;
        try { m.pressureSide(*g, FlowBCManager::Xmin, 1); } catch (const std::exception&) { ++threw; }
        try { m.fluxSide(*g, FlowBCManager::Ymax, 1); } catch (const std::exception&) { ++threw; }
        g->cell_facetag = tag;
        VH_CHECK(threw == 2 && m.c_bcs()->nbc == 0, "refuse", "grid without tags");
        for (int s = 4; s < 6; ++s) { threw = 0; try { m.pressureSide(*g, FlowBCManager::Side(s), 1); } catch (const std::exception&) { ++threw; } VH_CHECK(threw == 1, "refuse", "third direction in 2d"); }
        destroy_grid(g);
    }
}
