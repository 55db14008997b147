// Flow fields shared by the time-of-flight harnesses.
#ifndef TOFIELD_HPP
#define TOFIELD_HPP
#include "transport.hpp"
using namespace tr;
typedef std::vector<int> I;

struct Field { V q, src, pv; std::vector<char> tangled; };
// bnd: 0 none, 1 in through one boundary face and out of another, 2 the reverse, 3 two in and one out
static Field field(const UnstructuredGrid* g, const I& sign, int bnd, int pvk)
{
    Field F; const int nc = g->number_of_cells; F.q = fluxes(g, sign);
    I b; for (int f = 0; f < g->number_of_faces; ++f) if ((g->face_cells[2 * f] < 0) != (g->face_cells[2 * f + 1] < 0)) b.push_back(f);
    if (bnd) { const int n = b.size(); int i[3] = { b[0], b[n / 2], b[n - 1] }; double v[3] = { 0.35, -0.35, 0 }; if (bnd == 2) std::swap(v[0], v[1]); if (bnd == 3) { v[1] = 0.35; v[2] = -0.7; }
        for (int k = 0; k < 3; ++k) F.q[i[k]] += g->face_cells[2 * i[k]] < 0 ? v[k] : -v[k]; }
    F.src.assign(nc, 0.0);
    for (int f = 0; f < g->number_of_faces; ++f) for (int e = 0; e < 2; ++e) { int c = g->face_cells[2 * f + e]; if (c >= 0) F.src[c] += e ? -F.q[f] : F.q[f]; }
    for (int c = 0; c < nc; ++c) { if (std::fabs(F.src[c]) < 1e-12) F.src[c] = 0; F.pv.push_back(pvk == 0 ? 0.5 + 0.25 * (c * 2 % 3) : pvk == 1 ? 1.0 : (c % 2 ? 0 : 1e-3)); }
    // cells in loops, or reached from one
    I l = loops(g, F.q); F.tangled.assign(nc, 0); for (int c = 0; c < nc; ++c) F.tangled[c] = l[c] > 1;
    for (int it = 0; it < nc; ++it) for (int f = 0; f < g->number_of_faces; ++f) { int a = g->face_cells[2 * f], b2 = g->face_cells[2 * f + 1]; if (a < 0 || b2 < 0) continue; if (F.q[f] > 0 && F.tangled[a]) F.tangled[b2] = 1; if (F.q[f] < 0 && F.tangled[b2]) F.tangled[a] = 1; }
    return F;
}
static LD out(const UnstructuredGrid* g, const V& q, int c, int f) { return g->face_cells[2 * f] == c ? q[f] : -q[f]; }
static int other(const UnstructuredGrid* g, int c, int f) { return g->face_cells[2 * f] == c ? g->face_cells[2 * f + 1] : g->face_cells[2 * f]; }
// cells in an order where everything upstream comes first
static I order(const UnstructuredGrid* g, const Field& F)
{
    const int nc = g->number_of_cells; I done(nc, 0), seq; bool more = true;
    while (more) { more = false; for (int c = 0; c < nc; ++c) { if (done[c] || F.tangled[c]) continue; bool ok = true; for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) { int f = g->cell_faces[j], o = other(g, c, f); if (o >= 0 && out(g, F.q, c, f) < 0 && !done[o]) ok = false; } if (ok) { done[c] = 1; seq.push_back(c); more = true; } } }
    return seq;
}
#endif
