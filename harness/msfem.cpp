// Coarse partitions (uniform, compressed, inverted, split), coarse topology, and the multi-scale pressure solver built
// on them: basis functions, coarse system and reconstructed fine fluxes against dense extended-precision solutions.
#define FLOW_NO_WELLS
#include "flow.hpp"
#include <opm/core/pressure/msmfem/partition.h>
#include <opm/core/pressure/msmfem/coarse_conn.h>
#include <opm/core/pressure/msmfem/coarse_sys.h>
#include <opm/core/pressure/msmfem/ifsh_ms.h>
#include <opm/core/pressure/msmfem/hash_set.h>
extern "C" {
#include <opm/core/pressure/msmfem/dfs.h>
}
#include <opm/core/linalg/call_umfpack.h>
#include <opm/core/linalg/sparse_sys.h>
using namespace fl;
typedef std::vector<double> DV;
typedef std::vector<int> IV;

// ---- partitions -------------------------------------------------------------------------------------------------
static void unif(const IV& fine, const IV& coarse, int mode)
{
    if (!vh::begin("unif " + vh::str(fine) + " into " + vh::str(coarse) + vh::fmt(" m%d", mode))) return;
    const int nd = fine.size();
    int n = 1;
    for (int i = 0; i < nd; ++i) n *= fine[i];
    IV idx;
    for (int i = 0; i < n; ++i) {
        if (mode == 1 && i % 3 == 1) continue;
        idx.push_back(mode == 2 ? n - 1 - i : i);
    }
    IV p(idx.size(), -7);
    int r = partition_unif_idx(nd, idx.size(), &fine[0], &coarse[0], &idx[0], &p[0]);
    VH_CHECK(r == (int)idx.size(), "unif", "returned %d", r);
    for (size_t k = 0; k < idx.size(); ++k) {
        int rest = idx[k], want = 0, mul = 1;
        for (int i = 0; i < nd; ++i) {
            int x = rest % fine[i]; rest /= fine[i];
            // bins of consecutive cells, the first (fine mod coarse) of them one cell larger
            int b = 0, left = x;
            for (;; ++b) { int sz = fine[i] / coarse[i] + (b < fine[i] % coarse[i]); if (left < sz) break; left -= sz; }
            want += mul * b; mul *= coarse[i];
        }
        VH_CHECK(p[k] == want, "unif", "cell %d is in block %d, expected %d", idx[k], p[k], want);
        vh::state();
    }
    vh::tr(idx.size());
    vh::outcome(vh::hash(&p[0], p.size() * sizeof(int)));
}

static void compress(const IV& p0)
{
    const int n = p0.size();
    IV p(p0);
    std::set<int> used(p0.begin(), p0.end());
    IV u(used.begin(), used.end());
    int r = partition_compress(n, &p[0]);
    VH_CHECK(r == (int)u.size() - 1, "compress", "highest block of %s is %d", vh::str(p0).c_str(), r);
    for (int i = 0; i < n; ++i)
        VH_CHECK(p[i] == std::lower_bound(u.begin(), u.end(), p0[i]) - u.begin(), "compress", "%s became %s", vh::str(p0).c_str(), vh::str(p).c_str());
    // inverse, of the compressed and of the original vector (which may have empty blocks)
    for (int pass = 0; pass < 2; ++pass) {
        const IV& q = pass ? p0 : p;
        int mx = *std::max_element(q.begin(), q.end()), *pi = 0, *inv = 0;
        if (!partition_allocate_inverse(n, mx, &pi, &inv)) { vh::fail("invert", "no memory"); return; }
        partition_invert(n, &q[0], pi, inv);
        IV loc(n, -9);
        partition_localidx(mx + 1, pi, inv, &loc[0]);
        int pos = 0;
        for (int b = 0; b <= mx; ++b) {
            VH_CHECK(pi[b] == pos, "invert", "start of block %d of %s is %d", b, vh::str(q).c_str(), pi[b]);
            int k = 0;
            for (int c = 0; c < n; ++c) if (q[c] == b) {
                VH_CHECK(inv[pos] == c, "invert", "entry %d of %s is cell %d, expected %d", pos, vh::str(q).c_str(), inv[pos], c);
                VH_CHECK(loc[c] == k, "invert", "local number of cell %d of %s is %d", c, vh::str(q).c_str(), loc[c]);
                ++pos; ++k;
            }
        }
        VH_CHECK(pi[mx + 1] == n, "invert", "end of inverse of %s is %d", vh::str(q).c_str(), pi[mx + 1]);
        partition_deallocate_inverse(pi, inv);
    }
    vh::state(); vh::tr(3);
    vh::outcome(vh::hash(&p[0], n * sizeof(int)));
}

static int find(IV& u, int i) { while (u[i] != i) i = u[i] = u[u[i]]; return i; }

static void split(int nc, const IV& neigh, const IV& p0)
{
    IV u(nc);
    for (int i = 0; i < nc; ++i) u[i] = i;
    for (size_t k = 0; k < neigh.size(); k += 2)
        if (neigh[k] >= 0 && neigh[k + 1] >= 0 && p0[neigh[k]] == p0[neigh[k + 1]]) u[find(u, neigh[k])] = find(u, neigh[k + 1]);
    int mx = *std::max_element(p0.begin(), p0.end()), comps = 0;
    std::set<int> blocks(p0.begin(), p0.end());
    for (int i = 0; i < nc; ++i) comps += find(u, i) == i;
    const int want = comps - (int)blocks.size();
    IV p(p0);
    int r = partition_split_disconnected(nc, neigh.size() / 2, &neigh[0], &p[0]);
    VH_CHECK(r == want, "split", "%s: %d new blocks, expected %d (connections %s)", vh::str(p0).c_str(), r, want, vh::str(neigh).c_str());
    std::map<int, int> root; std::set<int> kept, fresh;
    for (int i = 0; i < nc; ++i) {
        int q = p[i];
        if (root.count(q)) VH_CHECK(root[q] == find(u, i), "split", "%s became %s: block %d is not one component (connections %s)", vh::str(p0).c_str(), vh::str(p).c_str(), q, vh::str(neigh).c_str());
        root[q] = find(u, i);
        if (q <= mx) { VH_CHECK(q == p0[i], "split", "%s became %s: cell %d moved to an old block", vh::str(p0).c_str(), vh::str(p).c_str(), i); kept.insert(q); }
        else fresh.insert(q);
    }
    VH_CHECK((int)root.size() == comps, "split", "%s became %s: %d blocks for %d components", vh::str(p0).c_str(), vh::str(p).c_str(), (int)root.size(), comps);
    VH_CHECK(kept == blocks, "split", "%s became %s: block numbers were lost", vh::str(p0).c_str(), vh::str(p).c_str());
    VH_CHECK(fresh.empty() || (*fresh.begin() == mx + 1 && *fresh.rbegin() == mx + (int)fresh.size()), "split", "%s became %s: gaps in the new numbers", vh::str(p0).c_str(), vh::str(p).c_str());
    vh::state(); vh::tr();
    vh::outcome(vh::hash(&p[0], nc * sizeof(int)));
}

static void topology(const IV& p, int nc, const IV& neigh, int expct)
{
    std::map<std::pair<int, int>, std::set<int> > want;       // (lower block, other block or -1) -> fine faces
    const int nf = neigh.size() / 2;
    for (int f = 0; f < nf; ++f) {
        int a = neigh[2 * f] < 0 ? -1 : p[neigh[2 * f]], b = neigh[2 * f + 1] < 0 ? -1 : p[neigh[2 * f + 1]];
        if (a == b) continue;
        if (a < 0 || (b >= 0 && b < a)) std::swap(a, b);
        want[std::make_pair(a, b)].insert(f);
    }
    std::string who = vh::str(p) + vh::fmt(" expecting %d", expct);
    struct coarse_topology* t = coarse_topology_create(nc, nf, expct, &p[0], &neigh[0]);
    if (!t) { vh::fail("topology", "%s: failed", who.c_str()); return; }
    const int nb = *std::max_element(p.begin(), p.end()) + 1;
    VH_CHECK(t->nblocks == nb, "topology", "%s: %d blocks", who.c_str(), t->nblocks);
    VH_CHECK(t->nfaces == (int)want.size(), "topology", "%s: %d coarse faces, expected %d", who.c_str(), t->nfaces, (int)want.size());
    std::set<std::pair<int, int> > seen;
    std::vector<std::set<int> > bf(nb), wf(nb);
    for (int f = 0; f < t->nfaces; ++f) {
        std::pair<int, int> k(t->neighbours[2 * f], t->neighbours[2 * f + 1]);
        VH_CHECK(want.count(k) && seen.insert(k).second, "topology", "%s: coarse face %d between %d and %d", who.c_str(), f, k.first, k.second);
        wf[k.first].insert(f);
        if (k.second >= 0) wf[k.second].insert(f);
        if (expct > 0) {
            std::set<int> s(t->subfaces + t->subfacepos[f], t->subfaces + t->subfacepos[f + 1]);
            VH_CHECK(s == want[k] && (int)s.size() == t->subfacepos[f + 1] - t->subfacepos[f], "topology", "%s: coarse face %d has fine faces %s", who.c_str(), f,
                     vh::str(IV(t->subfaces + t->subfacepos[f], t->subfaces + t->subfacepos[f + 1])).c_str());
        }
    }
    if (expct > 0) VH_CHECK(t->subfacepos[0] == 0, "topology", "%s: fine faces start at %d", who.c_str(), t->subfacepos[0]);
    else VH_CHECK(!t->subfacepos && !t->subfaces, "topology", "%s: fine faces though not asked for", who.c_str());
    VH_CHECK(t->blkfacepos[0] == 0, "topology", "%s: block faces start at %d", who.c_str(), t->blkfacepos[0]);
    for (int b = 0; b < nb; ++b) {
        bf[b].insert(t->blkfaces + t->blkfacepos[b], t->blkfaces + t->blkfacepos[b + 1]);
        VH_CHECK(bf[b] == wf[b] && (int)bf[b].size() == t->blkfacepos[b + 1] - t->blkfacepos[b], "topology", "%s: faces of block %d", who.c_str(), b);
    }
    vh::state(); vh::tr();
    coarse_topology_destroy(t);
}

// Connected partitions of nc cells as restricted growth strings
static bool growth(IV& s)
{
    for (int i = (int)s.size() - 1; i > 0; --i) {
        int mx = *std::max_element(s.begin(), s.begin() + i);
        if (s[i] <= mx) { ++s[i]; for (size_t j = i + 1; j < s.size(); ++j) s[j] = 0; return true; }
    }
    return false;
}
static bool connected(int nc, const IV& neigh, const IV& p)
{
    IV u(nc);
    for (int i = 0; i < nc; ++i) u[i] = i;
    for (size_t k = 0; k < neigh.size(); k += 2)
        if (neigh[k] >= 0 && neigh[k + 1] >= 0 && p[neigh[k]] == p[neigh[k + 1]]) u[find(u, neigh[k])] = find(u, neigh[k + 1]);
    std::map<int, int> r;
    for (int i = 0; i < nc; ++i) { int q = find(u, i); if (r.count(p[i]) && r[p[i]] != q) return false; r[p[i]] = q; }
    return true;
}

static void sets(const IV& keys, int cap)
{
    struct hash_set* h = hash_set_allocate(cap);
    if (!h) { vh::fail("set", "no memory"); return; }
    std::set<int> want;
    for (size_t i = 0; i < keys.size(); ++i) {
        int r = hash_set_insert(keys[i], h);
        VH_CHECK(r == keys[i], "set", "inserting %d returns %d", keys[i], r);
        want.insert(keys[i]);
        std::multiset<int> got;
        for (size_t k = 0; k < h->m; ++k) if (h->s[k] != -1) got.insert(h->s[k]);
        VH_CHECK(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin()), "set", "after %s (capacity %d): wrong members", vh::str(IV(keys.begin(), keys.begin() + i + 1)).c_str(), cap);
        VH_CHECK(hash_set_count_elms(h) == want.size(), "set", "after %s: count %d", vh::str(IV(keys.begin(), keys.begin() + i + 1)).c_str(), (int)hash_set_count_elms(h));
    }
    vh::state(); vh::tr(keys.size());
    hash_set_deallocate(h);
}

// ---- multi-scale pressure ---------------------------------------------------------------------------------------
static void local(struct CSRMatrix* A, double* b, double* x) { call_UMFPACK(A, b, x); }

struct Fine {
    const UnstructuredGrid* g; int nc, nf;
    std::vector<LD> t;             // one-sided transmissibility per half-face
    Incomp F; IV neigh;
    Fine(const UnstructuredGrid* g_, int perm) : g(g_), nc(g_->number_of_cells), nf(g_->number_of_faces), F(g_), neigh(g_->face_cells, g_->face_cells + 2 * g_->number_of_faces)
    {
        setperm(F, perm);
        for (int c = 0; c < nc; ++c) for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) t.push_back(halftrans(g, F.permeability(), c, g->cell_faces[i]));
    }
    LD half(int c, int f) const { for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) if (g->cell_faces[i] == f) return t[i]; return 0; }
};

// No-flow problem on the cells with in[c]: fluxes of the two-point scheme with source q (sums to zero)
static bool neumann(const Fine& M, const DV& mob, const IV& in, const std::vector<LD>& q, std::vector<LD>& v, std::vector<LD>* pout = 0)
{
    IV num(M.nc, -1); int n = 0;
    for (int c = 0; c < M.nc; ++c) if (in[c]) num[c] = n++;
    std::vector<LD> A(n * n, 0), b(n, 0), x;
    v.assign(M.nf, 0);
    std::vector<LD> T(M.nf, 0);
    for (int f = 0; f < M.nf; ++f) {
        int a = M.neigh[2 * f], c = M.neigh[2 * f + 1];
        if (a < 0 || c < 0 || num[a] < 0 || num[c] < 0) continue;
        T[f] = 1 / (1 / (M.half(a, f) * mob[a]) + 1 / (M.half(c, f) * mob[c]));
        A[num[a] * n + num[a]] += T[f]; A[num[c] * n + num[c]] += T[f];
        A[num[a] * n + num[c]] -= T[f]; A[num[c] * n + num[a]] -= T[f];
    }
    for (int c = 0; c < M.nc; ++c) if (in[c]) b[num[c]] = q[c];
    // pin the first cell of the (connected) domain
    for (int j = 0; j < n; ++j) A[j] = j == 0;
    b[0] = 0;
    if (!dense(A, b, x)) return false;
    for (int f = 0; f < M.nf; ++f) if (T[f] != 0) v[f] = T[f] * (x[num[M.neigh[2 * f]]] - x[num[M.neigh[2 * f + 1]]]);
    if (pout) { pout->assign(M.nc, 0); for (int c = 0; c < M.nc; ++c) if (in[c]) (*pout)[c] = x[num[c]]; }
    return true;
}

static DV mobility(int kind, int nc)
{
    DV m(nc, 1.0);
    for (int c = 0; c < nc; ++c) {
        if (kind == 1) m[c] = 2.5;
        if (kind == 2) m[c] = 1.0 + (c * 3 % 5) * 0.7;
        if (kind == 3) m[c] = c % 2 ? 0.01 : 4.0;
    }
    return m;
}
static DV sources(int kind, int nc, const IV& p)
{
    DV s(nc, 0.0);
    if (kind == 1) { s[0] = 1; s[nc - 1] = -1; }
    if (kind == 2) { for (int c = 0; c < nc; ++c) s[c] = 1.0 + c; double a = 0; for (int c = 0; c < nc - 1; ++c) a += s[c]; s[nc - 1] = -a; }
    if (kind == 3) { s[nc / 2] = -3; s[0] = 2; s[nc - 1] += 1; }
    return s;
}
static bool usable(const DV& s, const IV& p)          // no block may hold sources that cancel
{
    const int nb = *std::max_element(p.begin(), p.end()) + 1;
    DV sum(nb, 0.0); IV has(nb, 0);
    for (size_t c = 0; c < s.size(); ++c) { sum[p[c]] += s[c]; has[p[c]] |= s[c] != 0; }
    for (int b = 0; b < nb; ++b) if (has[b] && std::fabs(sum[b]) < 1e-9) return false;
    return true;
}

static void ms(const Fine& M, const IV& p, const DV& src, const DV& mob0, const DV& mob1, double later)
{
    UnstructuredGrid* G = const_cast<UnstructuredGrid*>(M.g);
    const int nc = M.nc, nf = M.nf, nb = *std::max_element(p.begin(), p.end()) + 1;
    // reference: weights, basis functions of every pair of adjacent blocks, coarse minimisation
    DV wt(nc), bw(nb, 0.0); IV has(nb, 0);
    const int d = M.g->dimensions;
    for (int c = 0; c < nc; ++c) has[p[c]] |= src[c] != 0;
    for (int c = 0; c < nc; ++c) {
        double tr = 0;
        for (int i = 0; i < d; ++i) tr += M.F.perm[c * d * d + i * (d + 1)];
        wt[c] = has[p[c]] ? src[c] : tr * M.g->cell_volumes[c];
        bw[p[c]] += wt[c];
    }
    for (int c = 0; c < nc; ++c) wt[c] /= bw[p[c]];
    std::map<std::pair<int, int>, int> dof;
    std::vector<std::vector<LD> > psi;
    for (int f = 0; f < nf; ++f) {
        int a = M.neigh[2 * f], b = M.neigh[2 * f + 1];
        if (a < 0 || b < 0 || p[a] == p[b]) continue;
        std::pair<int, int> k(std::min(p[a], p[b]), std::max(p[a], p[b]));
        if (dof.count(k)) continue;
        dof[k] = psi.size();
        IV in(nc, 0); std::vector<LD> q(nc, 0), v;
        for (int c = 0; c < nc; ++c) if (p[c] == k.first || p[c] == k.second) { in[c] = 1; q[c] = p[c] == k.first ? wt[c] : -wt[c]; }
        if (!neumann(M, mob0, in, q, v)) { vh::fail("reference", "singular local problem"); return; }
        psi.push_back(v);
    }
    const int nd = psi.size(), N = nd + nb;
    // B and D
    std::vector<LD> K(N * N, 0), rhs(N, 0), x;
    for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j)
        for (int c = 0; c < nc; ++c) for (int h = M.g->cell_facepos[c]; h < M.g->cell_facepos[c + 1]; ++h) {
            int f = M.g->cell_faces[h];
            K[i * N + j] += psi[i][f] * psi[j][f] / (M.t[h] * mob1[c]);
        }
    for (std::map<std::pair<int, int>, int>::iterator it = dof.begin(); it != dof.end(); ++it) {
        int i = it->second;
        K[i * N + nd + it->first.first] -= 1;  K[i * N + nd + it->first.second] += 1;
        K[(nd + it->first.first) * N + i] += 1; K[(nd + it->first.second) * N + i] -= 1;
    }
    for (int c = 0; c < nc; ++c) rhs[nd + p[c]] += later * src[c];
    for (int j = 0; j < N; ++j) K[nd * N + j] = j == nd;      // pin the first block's pressure
    rhs[nd] = 0;
    if (!dense(K, rhs, x)) { vh::fail("reference", "singular coarse problem"); return; }
    std::vector<LD> v(nf, 0);
    for (int i = 0; i < nd; ++i) for (int f = 0; f < nf; ++f) v[f] += x[i] * psi[i][f];

    struct ifsh_ms_data* h = ifsh_ms_construct(G, &p[0], M.F.permeability(), &src[0], &mob0[0], local);
    if (!h) { vh::fail("construct", "failed"); return; }
    DV P(nc, 7e77), V(nf, 7e77), s2(src);
    for (int c = 0; c < nc; ++c) s2[c] *= later;
    // two rounds: the result must not depend on what was assembled before
    for (int round = 0; round < 2; ++round) {
        if (round == 0) { ifsh_ms_assemble(&src[0], &mob0[0], h); }
        else {
            ifsh_ms_assemble(&s2[0], &mob1[0], h);
        }
        call_UMFPACK(h->A, h->b, h->x);
        ifsh_ms_press_flux(G, h, &P[0], &V[0]);
        const DV& s = round ? s2 : src;
        LD big = 0;
        for (int f = 0; f < nf; ++f) big = std::max(big, std::fabs((LD)V[f]));
        for (int c = 0; c < nc; ++c) {
            LD net = 0;
            for (int i = M.g->cell_facepos[c]; i < M.g->cell_facepos[c + 1]; ++i) { int f = M.g->cell_faces[i]; net += (M.g->face_cells[2 * f] == c ? 1 : -1) * (LD)V[f]; }
            VH_CHECK(std::fabs(net - s[c]) <= 1e-7 * (1 + std::fabs(later)) + 1e-10L * big, "balance", "round %d: cell %d loses %.12g, source %.12g", round, c, (double)net, s[c]);
        }
        for (int f = 0; f < nf; ++f) if (M.neigh[2 * f] < 0 || M.neigh[2 * f + 1] < 0)
            VH_CHECK(std::fabs(V[f]) <= 1e-8 * big, "boundary", "round %d: flow %.12g through the closed face %d", round, V[f], f);
        vh::tr();
    }
    LD vb = 0, pb = 0;
    for (int f = 0; f < nf; ++f) vb = std::max(vb, std::fabs(v[f]));
    for (int b = 0; b < nb; ++b) pb = std::max(pb, std::fabs(x[nd + b]));
    for (int f = 0; f < nf; ++f) VH_CHECK(vh::close_to(V[f], v[f], 1e-6, 1e-7 * vb), "flux", "face %d: %.12g, reference %.12g", f, V[f], (double)v[f]);
    for (int c = 0; c < nc; ++c) {
        VH_CHECK(P[c] == P[std::find(p.begin(), p.end(), p[c]) - p.begin()], "pressure", "cell %d differs from its block", c);
        int c0 = std::find(p.begin(), p.end(), 0) - p.begin();
        VH_CHECK(vh::close_to(P[c] - P[c0], (double)x[nd + p[c]], 1e-6, 1e-7 * pb), "pressure", "cell %d: %.12g above the first block, reference %.12g", c, P[c] - P[c0], (double)x[nd + p[c]]);
    }
    // one cell per block: the fine two-point solution itself
    if (nb == nc) {
        IV all(nc, 1); std::vector<LD> q(nc), w, pr;
        for (int c = 0; c < nc; ++c) q[c] = s2[c];
        if (neumann(M, mob1, all, q, w, &pr)) {
            int c0 = std::find(p.begin(), p.end(), 0) - p.begin();
            for (int f = 0; f < nf; ++f) VH_CHECK(vh::close_to(V[f], w[f], 1e-6, 1e-7 * vb), "fine", "face %d: %.12g, two-point solution %.12g", f, V[f], (double)w[f]);
            for (int c = 0; c < nc; ++c) VH_CHECK(vh::close_to(P[c] - P[c0], (double)(pr[c] - pr[c0]), 1e-6, 1e-7 * pb), "fine", "cell %d: %.12g, two-point solution %.12g", c, P[c] - P[c0], (double)(pr[c] - pr[c0]));
        }
    }
    vh::state(nc);
    vh::outcome(vh::hash(&V[0], nf * sizeof(double)));
    ifsh_ms_destroy(h);
}

void explore()
{
    const bool T = vh::thorough();
    // uniform partitions
    for (int nd = 1; nd <= 3; ++nd) {
        const int mx = nd == 1 ? (T ? 24 : 12) : nd == 2 ? (T ? 7 : 5) : (T ? 4 : 3);
        IV f(nd, 0);
        do {
            IV c(nd, 0), fine(f);
            for (int i = 0; i < nd; ++i) ++fine[i];
            do {
                IV coarse(c); bool ok = true;
                for (int i = 0; i < nd; ++i) ok &= ++coarse[i] <= fine[i];
                if (ok) for (int m = 0; m < 3; ++m) unif(fine, coarse, m);
            } while (vh::next(c, mx));
        } while (vh::next(f, mx));
    }
    // compression and inversion
    for (int n = 1; n <= (T ? 8 : 7); ++n) {
        IV p(n, 0);
        const int k = n <= 5 ? 5 : 4;
        do { if (vh::begin("compress " + vh::str(p))) compress(p); } while (vh::next(p, k));
    }
    // splitting on every small graph
    for (int n = 1; n <= (T ? 5 : 4); ++n) {
        IV ea, eb;
        for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) { ea.push_back(a); eb.push_back(b); }
        for (int m = 0; m < 1 << ea.size(); ++m) {
            if (!vh::begin(vh::fmt("split graph n=%d edges=%x", n, m))) continue;
            for (int extra = 0; extra < 3; ++extra) {
                IV neigh;
                if (extra != 2) { neigh.push_back(-1); neigh.push_back(0); }
                for (size_t e = 0; e < ea.size(); ++e) if (m >> e & 1) {
                    neigh.push_back(extra == 1 ? eb[e] : ea[e]); neigh.push_back(extra == 1 ? ea[e] : eb[e]);
                    if (extra == 2) { neigh.push_back(ea[e]); neigh.push_back(eb[e]); }
                }
                if (extra == 2 ) { neigh.push_back(n - 1); neigh.push_back(-1); }
                IV p(n, 0);
                do split(n, neigh, p); while (vh::next(p, 3));
            }
        }
    }
    // splitting on grids
    for (int k = 0; k < 3; ++k) {
        const int dx = k == 0 ? 3 : k == 1 ? 2 : 4, dy = k == 0 ? 3 : k == 1 ? 4 : (T ? 4 : 3), nc = dx * dy, nblk = k == 1 ? 3 : 2;
        UnstructuredGrid* g = create_grid_cart2d(dx, dy, 1.0, 1.0);
        IV neigh(g->face_cells, g->face_cells + 2 * g->number_of_faces);
        IV lo(nc / 2, 0);
        do {
            if (!vh::begin(vh::fmt("split grid %dx%d lower ", dx, dy) + vh::str(lo))) continue;
            IV hi(nc - nc / 2, 0);
            do { IV p(lo); p.insert(p.end(), hi.begin(), hi.end()); split(nc, neigh, p); } while (vh::next(hi, nblk));
        } while (vh::next(lo, nblk));
        destroy_grid(g);
    }
    // plain component colouring of every small graph
    for (int n = 0; n <= (T ? 5 : 4); ++n) {
        IV ea, eb;
        for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) { ea.push_back(a); eb.push_back(b); }
        for (int m = 0; m < 1 << ea.size(); ++m) {
            if (!vh::begin(vh::fmt("colour n=%d edges=%x", n, m))) continue;
            std::vector<IV> adj(n); IV u(n);
            for (int i = 0; i < n; ++i) u[i] = i;
            for (size_t e = 0; e < ea.size(); ++e) if (m >> e & 1) { adj[ea[e]].push_back(eb[e]); adj[eb[e]].push_back(ea[e]); u[find(u, ea[e])] = find(u, eb[e]); }
            IV ia(1, 0), ja, col(n + 1, -5), work(2 * n + 1, -5);
            for (int i = 0; i < n; ++i) { ja.insert(ja.end(), adj[i].begin(), adj[i].end()); ia.push_back(ja.size()); }
            ja.push_back(0);
            int nc = -1, comps = 0;
            for (int i = 0; i < n; ++i) comps += find(u, i) == i;
            dfs(n, &ia[0], &ja[0], &nc, &col[0], &work[0]);
            VH_CHECK(nc == comps, "colour", "%d colours for %d components", nc, comps);
            for (int i = 0; i < n; ++i) { VH_CHECK(col[i] >= 0 && col[i] < comps, "colour", "node %d has colour %d", i, col[i]);
                for (int j = 0; j < n; ++j) VH_CHECK((col[i] == col[j]) == (find(u, i) == find(u, j)), "colour", "nodes %d and %d", i, j); }
            VH_CHECK(col[n] == -5 && work[2 * n] == -5, "colour", "written beyond the end");
            vh::tr();
        }
    }
    // sets of fine faces
    for (int cap = 0; cap <= 5; ++cap) for (int n = 1; n <= (T ? 6 : 5); ++n) {
        if (!vh::begin(vh::fmt("set capacity %d, %d insertions", cap, n))) continue;
        static const int key[] = { 0, 1, 2, 7, 1000000 };
        IV d(n, 0);
        do { IV k(n); for (int i = 0; i < n; ++i) k[i] = key[d[i]]; sets(k, cap); } while (vh::next(d, 5));
    }
    for (int cap = 0; cap <= 16; ++cap) for (int stride = 1; stride <= (T ? 64 : 16); ++stride) {
        if (!vh::begin(vh::fmt("set capacity %d stride %d", cap, stride))) continue;
        IV k; for (int i = 0; i < 130; ++i) k.push_back(i * stride);
        sets(k, cap);
    }
    // coarse topology: one block with many neighbours, met in every order, each then met again
    for (int k = 2; k <= (T ? 8 : 7); ++k) for (int bnd = 0; bnd < 2; ++bnd) for (int centre = 0; centre < 3; ++centre) {
        // centre: the block is numbered first, last or in the middle
        const int c0 = centre == 0 ? 0 : centre == 1 ? k : k / 2;
        IV p(k + 1), ord;
        for (int i = 0; i <= k; ++i) p[i] = i;
        for (int i = 0; i <= k; ++i) if (i != c0) ord.push_back(i);
        if (bnd) ord.back() = -1;
        std::sort(ord.begin(), ord.end());
        do {
            if (!vh::begin(vh::fmt("topology star k=%d bnd=%d centre=%d ", k, bnd, centre) + vh::str(ord))) continue;
            IV neigh;
            for (size_t i = 0; i < ord.size(); ++i) { neigh.push_back(i % 2 ? ord[i] : c0); neigh.push_back(i % 2 ? c0 : ord[i]); }
            for (int i = -1; i <= k; ++i) if (std::find(ord.begin(), ord.end(), i) != ord.end()) { neigh.push_back(c0); neigh.push_back(i); }
            static const int ex[] = { 0, 1, 4 };
            for (int e = 0; e < 3; ++e) topology(p, k + 1, neigh, ex[e]);
        } while (std::next_permutation(ord.begin(), ord.end()));
    }
    // coarse topology: every partition of small grids into numbered blocks
    for (int gi = 0; gi < NGRID; ++gi) {
        UnstructuredGrid* g = grid(gi);
        const int nc = g->number_of_cells;
        IV neigh(g->face_cells, g->face_cells + 2 * g->number_of_faces);
        IV p(nc, 0);
        do {
            if (!vh::begin(vh::fmt("topology %s ", gridname(gi)) + vh::str(p))) continue;
            IV q(p), r(p), sw(neigh);
            int mx = *std::max_element(p.begin(), p.end());
            for (int c = 0; c < nc; ++c) { r[c] = mx - p[c]; q[c] = (p[c] + 1) % (mx + 1); }
            for (int f = 0; f < g->number_of_faces; f += 2) std::swap(sw[2 * f], sw[2 * f + 1]);
            static const int ex[] = { 0, 1, 2, 3, 256 };
            for (int e = 0; e < 5; ++e) { topology(p, nc, neigh, ex[e]); topology(r, nc, neigh, ex[e]); topology(q, nc, sw, ex[e]); }
        } while (growth(p));
        destroy_grid(g);
    }
    // larger grids in blocks of several shapes
    for (int gi = LARGE; gi < NLARGE; ++gi) {
        UnstructuredGrid* g = grid(gi);
        const int nc = g->number_of_cells, nx = g->cartdims[0], ny = g->cartdims[1];
        IV neigh(g->face_cells, g->face_cells + 2 * g->number_of_faces);
        for (int perm = 0; perm < 4; ++perm) {
            Fine M(g, perm);
            for (int w = 1; w <= (gi == LARGE + 2 ? 40 : 4); w += gi == LARGE + 2 ? 13 : 1) for (int h = 1; h <= (ny > 1 ? 4 : 1); ++h) for (int rev = 0; rev < 2; ++rev) {
                if (!T && (w + h + rev + perm) % 3) continue;
                if (!vh::begin(vh::fmt("large %s perm=%d block=%dx%d order=%d", gridname(gi), perm, w, h, rev))) continue;
                IV q(nc); const int bx = (nx + w - 1) / w, by = (ny + h - 1) / h;
                for (int c = 0; c < nc; ++c) q[c] = c % nx / w + bx * (c / nx % ny / h + by * (c / nx / ny));
                const int nb = *std::max_element(q.begin(), q.end()) + 1;
                if (rev) for (int c = 0; c < nc; ++c) q[c] = nb - 1 - q[c];
                topology(q, nc, neigh, 0); topology(q, nc, neigh, 3); topology(q, nc, neigh, 256);
                if (nb < 2 || nb > 60 || gi == LARGE + 2) continue;
                for (int s = 1; s < 4; ++s) { DV src = sources(s, nc, q); if (usable(src, q)) ms(M, q, src, mobility(s, nc), mobility((s + perm) % 4, nc), (s + perm) % 4 == s ? 1.0 : -2.5); }
            }
        }
        destroy_grid(g);
    }
    // multi-scale pressure: every partition into connected blocks
    for (int gi = 0; gi < NGRID; ++gi) {
        UnstructuredGrid* g = grid(gi);
        const int nc = g->number_of_cells;
        for (int perm = 0; perm < 4; ++perm) {
            Fine M(g, perm);
            IV p(nc, 0);
            do {
                const int nb = *std::max_element(p.begin(), p.end()) + 1;
                if (nb < 2 || !connected(nc, M.neigh, p)) continue;
                for (int order = 0; order < 2; ++order) {
                    IV q(p);
                    if (order) for (int c = 0; c < nc; ++c) q[c] = nb - 1 - p[c];
                    for (int s = 1; s < 4; ++s) for (int m0 = 0; m0 < 4; ++m0) for (int m1 = 0; m1 < 4; ++m1) {
                        if (!T && m0 != m1 && m0 + m1 != 3) continue;
                        DV src = sources(s, nc, q);
                        if (!usable(src, q)) continue;
                        if (!vh::begin(vh::fmt("ms %s perm=%d src=%d mob=%d,%d ", gridname(gi), perm, s, m0, m1) + vh::str(q))) continue;
                        ms(M, q, src, mobility(m0, nc), mobility(m1, nc), m0 == m1 ? 1.0 : -2.5);
                    }
                }
            } while (growth(p));
        }
        destroy_grid(g);
    }
}
