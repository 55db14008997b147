// Topological reordering: every directed graph up to a size and every flux sign pattern on small grids, against brute-force reachability.
#include "flow.hpp"
#include <bitset>
#include <opm/core/transport/reorder/tarjan.h>
#include <opm/core/transport/reorder/reordersequence.h>
#include <opm/core/transport/reorder/ReorderSolverInterface.hpp>

typedef std::vector<int> I;
// reach[i]: bit set of vertices reachable from i (itself included)
typedef std::bitset<512> B;
static void closure(int n, const B* adj, B* reach)
{
    for (int i = 0; i < n; ++i) { reach[i] = adj[i]; reach[i].set(i); }
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (reach[i][k]) reach[i] |= reach[k];
}
// seq/comp must list the strong components of the graph, every edge i -> j with j's component not after i's
static const char* judge(int n, const B* adj, const int* seq, const int* comp, int ncomp)
{
    static B reach[512]; static int pos[512], of[512];
    closure(n, adj, reach);
    if (ncomp < (n > 0) || ncomp > n) return "number of components";
    if (comp[0] != 0 || comp[ncomp] != n) return "component pointers do not cover the sequence";
    std::fill(pos, pos + n, -1);
    for (int k = 0; k < ncomp; ++k) {
        if (comp[k + 1] <= comp[k]) return "empty or reversed component";
        for (int i = comp[k]; i < comp[k + 1]; ++i) {
            if (seq[i] < 0 || seq[i] >= n || pos[seq[i]] >= 0) return "sequence is not a permutation";
            pos[seq[i]] = i; of[seq[i]] = k;
        }
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        bool same = reach[i][j] && reach[j][i];
        if (same != (of[i] == of[j])) return same ? "strong component torn apart" : "separate components merged";
        if (reach[i][j] && of[j] > of[i]) return "predecessor placed after its successor";
    }
    return 0;
}
static void graph(int n, const I& ia, const I& ja, const std::string& what)
{
    // canaries around every array
    const int K = 0x5a5a5a;
    I seq(n + 2, K), comp(n + 3, K), work(3 * n + 2, K); int ncomp = -5;
    tarjan(n, &ia[0], ja.empty() ? 0 : &ja[0], &seq[1], &comp[1], &ncomp, &work[1]);
    static B adj[512]; std::fill(adj, adj + n, B());
    for (int i = 0; i < n; ++i) for (int k = ia[i]; k < ia[i + 1]; ++k) adj[i].set(ja[k]);
    vh::tr(ja.size() + n);
    if (seq[0] != K || seq[n + 1] != K || comp[0] != K || comp[n + 2] != K || work[0] != K || work[3 * n + 1] != K) vh::fail("overrun", "%s: wrote outside its arrays", what.c_str());
    const char* m = judge(n, adj, &seq[1], &comp[1], ncomp);
    if (m) vh::fail("order", "%s: %s (sequence %s components %s)", what.c_str(), m, vh::str(I(seq.begin() + 1, seq.end() - 1)).c_str(), vh::str(I(comp.begin() + 1, comp.begin() + 2 + std::max(0, std::min(n, ncomp)))).c_str());
    vh::outcome(vh::hash(&comp[1], 4 * (ncomp + 1)) ^ n);
}
static void digraphs(int n, bool loops, bool reversed, long lo, long hi)
{
    if (!vh::begin(vh::fmt("graph/n%d/%s%s/%ld", n, loops ? "loops" : "plain", reversed ? "/rev" : "", lo))) return;
    for (long m = lo; m < hi; ++m) {
        I ia(1, 0), ja; long b = m;
        for (int i = 0; i < n; ++i) {
            I r;
            for (int j = 0; j < n; ++j) { if (!loops && i == j) continue; if (b & 1) r.push_back(j); b >>= 1; }
            if (reversed) std::reverse(r.begin(), r.end());
            ja.insert(ja.end(), r.begin(), r.end()); ia.push_back(ja.size());
        }
        vh::state();
        graph(n, ia, ja, vh::fmt("graph %ld", m));
    }
}
// every list of up to three edges per vertex, with repetitions, in every order
static void multigraphs(int n, int deg)
{
    if (!vh::begin(vh::fmt("multi/n%d/d%d", n, deg))) return;
    I d(n * deg, 0);
    do {
        I ia(1, 0), ja;
        for (int i = 0; i < n; ++i) { for (int k = 0; k < deg; ++k) if (d[i * deg + k]) ja.push_back(d[i * deg + k] - 1); ia.push_back(ja.size()); }
        vh::state();
        graph(n, ia, ja, "edges " + vh::str(d));
    } while (vh::next(d, n + 1));
}

struct Recorder : public Opm::ReorderSolverInterface {
    I order, sizes;
    virtual void solveSingleCell(const int c) { order.push_back(c); sizes.push_back(1); }
    virtual void solveMultiCell(const int n, const int* c) { order.insert(order.end(), c, c + n); sizes.push_back(n); }
    void run(const UnstructuredGrid& g, const double* f) { order.clear(); sizes.clear(); fl::Quiet q; reorderAndTransport(g, f); }
    const I& seq() const { return sequence(); }
    const I& comp() const { return components(); }
};
static void flux(int gi, const I& sign, int bnd, Recorder& rec)
{
    UnstructuredGrid* g = fl::grid(gi);
    const int nc = g->number_of_cells, nf = g->number_of_faces;
    std::vector<double> q(nf); int k = 0, b = 0;
    static B adj[512]; std::fill(adj, adj + nc, B()); std::vector<std::multiset<int> > up(nc);
    for (int f = 0; f < nf; ++f) {
        int c0 = g->face_cells[2 * f], c1 = g->face_cells[2 * f + 1];
        if (c0 < 0 || c1 < 0) { q[f] = bnd == 0 ? 0 : ((b++ * bnd) % 3 - 1) * 2.0; continue; }
        q[f] = (sign[k++] - 1) * (0.5 + 0.1 * f);
        if (q[f] > 0) { adj[c1].set(c0); up[c1].insert(c0); }
        if (q[f] < 0) { adj[c0].set(c1); up[c0].insert(c1); }
    }
    const int K = 0x5a5a5a;
    I seq(nc + 1, K), comp(nc + 2, K), seq2(nc + 1, K), comp2(nc + 2, K), ia(nc + 2, K), ja(nf + 1, K); int n1 = 0, n2 = 0;
    compute_sequence(g, &q[0], &seq[0], &comp[0], &n1);
    compute_sequence_graph(g, &q[0], &seq2[0], &comp2[0], &n2, &ia[0], &ja[0]);
    vh::tr(nf);
    if (seq[nc] != K || comp[nc + 1] != K || ia[nc + 1] != K || ja[nf] != K) vh::fail("overrun", "signs %s", vh::str(sign).c_str());
    const char* m = judge(nc, adj, &seq[0], &comp[0], n1);
    if (m) vh::fail("order", "signs %s: %s", vh::str(sign).c_str(), m);
    m = judge(nc, adj, &seq2[0], &comp2[0], n2);
    if (m) vh::fail("order", "signs %s: %s (with graph)", vh::str(sign).c_str(), m);
    for (int c = 0; c < nc; ++c) {
        bool ok = ia[0] == 0 && ia[c + 1] >= ia[c] && ia[c + 1] <= nf && std::multiset<int>(ja.begin() + ia[c], ja.begin() + ia[c + 1]) == up[c];
        if (!ok) { vh::fail("graph", "signs %s: upstream neighbours of cell %d", vh::str(sign).c_str(), c); break; }
    }
    // the driver of the reordering solvers
    rec.run(*g, &q[0]);
    I cp(1, 0); for (size_t i = 0; i < rec.sizes.size(); ++i) cp.push_back(cp.back() + rec.sizes[i]);
    bool ok = (int)rec.order.size() == nc;
    m = ok ? judge(nc, adj, &rec.order[0], &cp[0], rec.sizes.size()) : "cells left out or solved twice";
    if (m) vh::fail("driver", "signs %s: %s", vh::str(sign).c_str(), m);
    VH_CHECK(rec.seq() == rec.order && rec.comp() == cp, "driver", "reported sequence is not the one solved");
    vh::outcome(vh::hash(&seq[0], 4 * nc, gi));
    vh::state();
    destroy_grid(g);
}

// longer graphs of special shape: chains, rings, combs, trees, complete layers, rings of rings, many parallel edges; numbered in several ways
static void shapes()
{
    static const int N[] = { 8, 17, 33, 64, 100, 257, 400 };
    for (int shape = 0; shape < 10; ++shape) for (int ni = 0; ni < 7; ++ni) for (int num = 0; num < 4; ++num) {
        if (!vh::begin(vh::fmt("shape/%d/n%d/%d", shape, N[ni], num))) continue;
        const int n = N[ni];
        int mult = 1; if (num > 1) { mult = num == 2 ? 7 : 29; while (std::__gcd(mult, n) != 1) ++mult; }
        std::vector<I> e(n);
        auto id = [&](int i) { return num == 1 ? n - 1 - i : (int)((long)i * mult % n); };
        auto edge = [&](int i, int j) { e[id(i)].push_back(id(j)); };
        for (int i = 0; i < n; ++i) switch (shape) {
        case 0: if (i + 1 < n) edge(i, i + 1); break;
        case 1: edge(i, (i + 1) % n); break;
        case 2: if (i >= 2) edge(i, i / 2); if (i == 0) edge(0, n - 1); break;             // tree towards its root
        case 3: if (2 * i + 1 < n) edge(i, 2 * i + 1); if (2 * i + 2 < n) edge(i, 2 * i + 2); break;
        case 4: if (i % 5 == 4) edge(i, i - 4); else if (i + 1 < n) edge(i, i + 1); if (i % 5 == 0 && i + 5 < n) edge(i, i + 5); break;   // rings of five in a row
        case 5: for (int j = 0; j < n; ++j) if (i / 6 + 1 == j / 6) edge(i, j); break;       // complete layers
        case 6: for (int k = 0; k < 40; ++k) if (i + 1 < n) edge(i, i + 1); edge(i, i); break; // parallel edges and loops
        case 7: edge(i, 0); if (i == 0) edge(0, n - 1); break;                               // star
        case 8: if (i + 1 < n) { edge(i, i + 1); edge(i + 1, i); } break;                    // everything in one component
        default: edge(i, (i * i + 1) % n); edge(i, (i * 3 + 2) % n); break;
        }
        I ia(1, 0), ja;
        for (int i = 0; i < n; ++i) { ja.insert(ja.end(), e[i].begin(), e[i].end()); ia.push_back(ja.size()); }
        vh::state();
        graph(n, ia, ja, vh::fmt("%d vertices", n));
    }
}

void explore()
{
    const bool T = vh::thorough();
    shapes();
    for (int gi = fl::LARGE; gi < fl::NLARGE; ++gi) for (int bnd = 0; bnd < 3; ++bnd) {
        if (!vh::begin(vh::fmt("flux/%s/b%d", fl::gridname(gi), bnd))) continue;
        UnstructuredGrid* g = fl::grid(gi); int k = 0;
        for (int f = 0; f < g->number_of_faces; ++f) k += g->face_cells[2 * f] >= 0 && g->face_cells[2 * f + 1] >= 0;
        destroy_grid(g);
        Recorder rec;
        for (int p = 0; p < fl::NPATTERN; ++p) flux(gi, fl::pattern(p, k), bnd, rec);
    }
    for (int n = 1; n <= 3; ++n) for (int r = 0; r < 2; ++r) digraphs(n, true, r, 0, 1l << n * n);
    for (int r = 0; r < 2; ++r) for (long b = 0; b < 16; ++b) digraphs(4, true, r, b << 12, (b + 1) << 12);
    for (int r = 0; r < 2; ++r) for (long b = 0; b < (T ? 256 : 64); ++b) digraphs(5, false, r, b * (1l << 20) / (T ? 256 : 64), (b + 1) * (1l << 20) / (T ? 256 : 64));
    if (T) for (long b = 0; b < 512; ++b) digraphs(5, true, b & 1, b << 16, (b + 1) << 16);
    for (int d = 1; d <= 3; ++d) { multigraphs(1, d); multigraphs(2, d); multigraphs(3, d); }
    multigraphs(4, 1); multigraphs(4, 2); multigraphs(5, 1); if (T) { multigraphs(6, 1); multigraphs(7, 1); }
    for (int gi = 0; gi < fl::NGRID; ++gi) {
        UnstructuredGrid* g = fl::grid(gi); int k = 0;
        for (int f = 0; f < g->number_of_faces; ++f) k += g->face_cells[2 * f] >= 0 && g->face_cells[2 * f + 1] >= 0;
        destroy_grid(g);
        const int fixed = std::max(0, k - 4);
        for (int bnd = 0; bnd < (T ? 8 : 3); ++bnd) {
            I hi(fixed, 0);
            do {
                if (!vh::begin(vh::fmt("flux/%s/b%d/%s", fl::gridname(gi), bnd, vh::str(hi).c_str()))) continue;
                Recorder rec;      // one solver for all patterns of the case: no memory of earlier ones
                I lo(k - fixed, 0);
                do { I s(lo); s.insert(s.end(), hi.begin(), hi.end()); flux(gi, s, bnd, rec); } while (vh::next(lo, 3));
            } while (fixed && vh::next(hi, 3));
        }
    }
}
