// Time of flight and tracers by reordering: every flow pattern of small grids, against a direct evaluation in flow order.
#include "tofield.hpp"
#include <opm/core/tof/TofReorder.hpp>
using namespace tr;
using namespace Opm;

static void reference(const UnstructuredGrid* g, const Field& F, std::vector<LD>& tof, std::vector<LD>& tr, int& nt)
{
    const int nc = g->number_of_cells; I head; for (int c = 0; c < nc; ++c) if (F.src[c] > 0) head.push_back(c);
    nt = head.size(); tof.assign(nc, 0); tr.assign(nc * nt, 0);
    I seq = order(g, F);
    for (size_t k = 0; k < seq.size(); ++k) {
        const int c = seq[k]; LD in = 0, o = F.src[c] < 0 ? -(LD)F.src[c] : 0; std::vector<LD> t(nt, 0);
        for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
            int f = g->cell_faces[j], n = other(g, c, f); LD v = out(g, F.q, c, f);
            if (v > 0) o += v; else if (n >= 0 && v < 0) { in -= v * tof[n]; for (int i = 0; i < nt; ++i) t[i] -= v * tr[n * nt + i]; }
        }
        tof[c] = (F.pv[c] + in) / o;
        for (int i = 0; i < nt; ++i) tr[c * nt + i] = F.src[c] > 0 ? (head[i] == c) : o > 0 ? t[i] / o : 0;
    }
}
// face values weighted between the cell and the neighbouring inflow faces
static void multidim(const UnstructuredGrid* g, const Field& F, std::vector<LD>& tof)
{
    const int nc = g->number_of_cells, d = g->dimensions; std::vector<LD> ft(g->number_of_faces, 0); tof.assign(nc, 0);
    I seq = order(g, F);
    for (size_t k = 0; k < seq.size(); ++k) {
        const int c = seq[k]; LD rhs = F.pv[c], den = F.src[c] < 0 ? -(LD)F.src[c] : 0; std::map<int, std::pair<LD, LD> > w;
        for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
            const int f = g->cell_faces[j]; const LD v = out(g, F.q, c, f);
            if (v < 0) { rhs -= v * ft[f]; continue; }
            if (v == 0) continue;
            LD a = 0, b = 0; int n = 0;
            for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) {
                const int h = g->cell_faces[i]; if (h == f) continue;
                int common = 0; for (int p = g->face_nodepos[f]; p < g->face_nodepos[f + 1]; ++p) for (int r = g->face_nodepos[h]; r < g->face_nodepos[h + 1]; ++r) common += g->face_nodes[p] == g->face_nodes[r];
                if (common != d - 1) continue;
                LD in = -out(g, F.q, c, h), om = in > 0 ? (in / v) / (1 + in / v) : 0; a += om * ft[h]; b += 1 - om; ++n;
            }
            w[f] = std::make_pair(a / n, b / n); rhs -= v * a / n; den += v * b / n;
        }
        tof[c] = rhs / den;
        for (std::map<int, std::pair<LD, LD> >::iterator i = w.begin(); i != w.end(); ++i) ft[i->first] = i->second.first + i->second.second * tof[c];
    }
}
static bool same(double a, LD b) { if (!(std::fabs(b) < 1e300L)) return !(std::fabs(a) < 1e300); return std::fabs(a - b) <= 1e-11L * (1 + std::fabs(b)); }
static bool compare(const UnstructuredGrid* g, const Field& F, const V& tof, const std::vector<LD>& r, const V* tr, const std::vector<LD>& rt, int nt, const std::string& what)
{
    const int nc = g->number_of_cells;
    if ((int)tof.size() != nc || (tr && (int)tr->size() != nc * nt)) { vh::fail("size", "%s: %d times, %d tracer values", what.c_str(), (int)tof.size(), tr ? (int)tr->size() : 0); return false; }
    for (int c = 0; c < nc; ++c) {
        if (F.tangled[c]) continue;
        if (!same(tof[c], r[c])) { vh::fail("time", "%s: cell %d %.12g, should be %.12Lg", what.c_str(), c, tof[c], r[c]); return false; }
        for (int i = 0; tr && i < nt; ++i) if (!same((*tr)[c * nt + i], rt[c * nt + i])) { vh::fail("tracer", "%s: cell %d, tracer %d of %d is %.12g, should be %.12Lg", what.c_str(), c, i, nt, (*tr)[c * nt + i], rt[c * nt + i]); return false; }
    }
    return true;
}
static void flow(int gi, int sp, int bnd)
{
    if (!vh::begin(vh::fmt("flow/%s/%d/%d", fl::gridname(gi), sp, bnd))) return;
    UnstructuredGrid* g = fl::grid(gi); const int k = interior(g); I sign; for (int i = 0, p = sp; i < k; ++i, p /= 3) sign.push_back(p % 3);
    if (gi >= fl::LARGE) sign = fl::pattern(sp, k);
    for (int pvk = 0; pvk < 3; ++pvk) {
        vh::state(); Field F = field(g, sign, bnd, pvk);
        std::vector<LD> r, rt; int nt; reference(g, F, r, rt, nt);
        fl::Quiet q; V tof(3, 7.0), tr(2, -9.0);
        try {
            TofReorder s(*g); vh::tr(2);
            s.solveTof(&F.q[0], &F.pv[0], &F.src[0], tof);
            if (!compare(g, F, tof, r, 0, rt, nt, "time alone")) break;
            if (nt) { s.solveTofTracer(&F.q[0], &F.pv[0], &F.src[0], tof, tr); if (!compare(g, F, tof, r, &tr, rt, nt, "with tracers")) break; }
            if (gi != 3) {
                TofReorder m(*g, true); multidim(g, F, r); vh::tr();
                m.solveTof(&F.q[0], &F.pv[0], &F.src[0], tof);
                if (!compare(g, F, tof, r, 0, rt, 0, "multidimensional")) break;
            }
        } catch (const std::exception& e) { vh::fail("failure", "%s", e.what()); break; }
        vh::outcome(vh::hash(&tof[0], 8 * tof.size()));
    }
    destroy_grid(g);
}
// a solver used for several fields gives what new ones give
static void history(int gi, const I& h)
{
    if (!vh::begin(vh::fmt("history/%s/%s", fl::gridname(gi), vh::str(h).c_str()))) return;
    UnstructuredGrid* g = fl::grid(gi); const int k = interior(g); fl::Quiet q; TofReorder s(*g), m(*g, true); V tof, tr, t2;
    for (size_t t = 0; t < h.size(); ++t) {
        I sign(k); for (int i = 0; i < k; ++i) sign[i] = h[t] == 0 ? 2 : h[t] == 1 ? 0 : h[t] == 2 ? (i & 1) * 2 : h[t] == 3 ? (i * 2) % 3 : 1;
        Field F = field(g, sign, h[t] % 4, h[t] % 2); std::vector<LD> r, rt; int nt; reference(g, F, r, rt, nt); vh::tr(2);
        try {
            if (h[t] & 1 || !nt) s.solveTof(&F.q[0], &F.pv[0], &F.src[0], tof); else s.solveTofTracer(&F.q[0], &F.pv[0], &F.src[0], tof, tr);
            if (!compare(g, F, tof, r, h[t] & 1 || !nt ? 0 : &tr, rt, nt, vh::fmt("field %d", (int)t))) break;
            multidim(g, F, r); m.solveTof(&F.q[0], &F.pv[0], &F.src[0], t2);
            if (gi != 3 && !compare(g, F, t2, r, 0, rt, 0, vh::fmt("multidimensional field %d", (int)t))) break;
        } catch (const std::exception& e) { vh::fail("failure", "field %d: %s", (int)t, e.what()); break; }
    }
    destroy_grid(g);
}
void explore()
{
    const bool T = vh::thorough();
    for (int gi = fl::LARGE; gi < fl::NLARGE; ++gi) for (int p = 0; p < fl::NPATTERN; ++p) for (int b = 0; b < 4; ++b) flow(gi, p, b);
    for (int gi = 0; gi < fl::NGRID; ++gi) {
        UnstructuredGrid* g = fl::grid(gi); int k = interior(g), n = 1; destroy_grid(g); for (int i = 0; i < k; ++i) n *= 3;
        for (int p = 0; p < n; ++p) for (int b = 0; b < 4; ++b) { flow(gi, p, b); }
        for (int len = 2; len <= (T ? 4 : 3); ++len) { I h(len, 0); do if (gi != 3) history(gi, h); while (vh::next(h, 5)); }
    }
}
