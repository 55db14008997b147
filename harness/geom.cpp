// compute_geometry on every small polyhedron / polygon with lattice vertices.
#include "gridcheck.hpp"
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
using namespace gc;

struct Poly { std::vector<V3> p; std::vector<std::vector<int> > faces; }; // faces oriented outwards

static V3 avg(const std::vector<V3>& p) { V3 s = mk(0, 0, 0); for (size_t i = 0; i < p.size(); ++i) s = s + p[i]; return (1.0 / p.size()) * s; }

// Build a one-cell grid; mask bit f: face f stored with the cell second and nodes reversed.
static UnstructuredGrid* onecell(const Poly& P, int dim, unsigned mask, int rot, bool keepnodes = false)
{
    int nf = P.faces.size(), nfn = 0;
    for (int f = 0; f < nf; ++f) nfn += P.faces[f].size();
    UnstructuredGrid* g = allocate_grid(dim, 1, nf, nfn, nf, P.p.size());
    g->dimensions = dim; g->number_of_cells = 1; g->number_of_faces = nf; g->number_of_nodes = P.p.size();
    for (size_t i = 0; i < P.p.size(); ++i) {
        g->node_coordinates[dim * i] = P.p[i].x; g->node_coordinates[dim * i + 1] = P.p[i].y;
        if (dim == 3) g->node_coordinates[dim * i + 2] = P.p[i].z;
    }
    int o = 0;
    g->face_nodepos[0] = 0;
    for (int f = 0; f < nf; ++f) {
        std::vector<int> q = P.faces[f];
        bool flip = mask >> f & 1;
        if (flip) std::reverse(q.begin(), q.end());
        if (dim == 3) std::rotate(q.begin(), q.begin() + (rot % q.size()), q.end());
        for (size_t k = 0; k < q.size(); ++k) g->face_nodes[o++] = q[k];
        g->face_nodepos[f + 1] = o;
        g->face_cells[2 * f] = flip ? -1 : 0;
        g->face_cells[2 * f + 1] = flip ? 0 : -1;
        g->cell_faces[f] = f;
    }
    g->cell_facepos[0] = 0; g->cell_facepos[1] = nf;
    return g;
}

static double det3(V3 a, V3 b, V3 c) { return dot(a, cross(b, c)); }

static void check_one(const Poly& P, int dim, double vol, V3 cen, unsigned mask, int rot, bool exactcen)
{
    UnstructuredGrid* g = onecell(P, dim, mask, rot);
    compute_geometry(g);
    vh::tr();
    geometry(g, 1e-12, false, exactcen);
    VH_CHECK(vh::close_to(g->cell_volumes[0], vol, 1e-12), "volume", "volume %.17g expected %.17g (mask %x)", g->cell_volumes[0], vol, mask);
    V3 c = vec(g->cell_centroids, dim);
    VH_CHECK(norm(c - cen) <= 1e-12 * (1 + norm(cen)), "centroid", "centroid (%g,%g,%g) expected (%g,%g,%g) (mask %x)", c.x, c.y, c.z, cen.x, cen.y, cen.z, mask);
    vh::outcome(vh::fmt("%g %g %g %g", g->cell_volumes[0], c.x, c.y, c.z));
    destroy_grid(g);
}

static std::vector<std::vector<int> > F(const char* s)
{
    std::vector<std::vector<int> > r(1);
    for (; *s; ++s) { if (*s == ' ') r.push_back(std::vector<int>()); else r.back().push_back(*s - '0'); }
    return r;
}

void explore()
{
    const bool T = vh::thorough();
    // 1. Tetrahedra, all with vertices in {0,1,2}^3 (first vertex at two offsets), both storage orders.
    const int N = 27;
    for (int a = 0; a < N; ++a) for (int b = a + 1; b < N; ++b) {
        if (!vh::begin(vh::fmt("tet/%d/%d", a, b))) continue;
        for (int c = b + 1; c < N; ++c) for (int d = c + 1; d < N; ++d) {
            int id[4] = { a, b, c, d };
            Poly P;
            for (int i = 0; i < 4; ++i) P.p.push_back(mk(id[i] % 3 + 0.5, id[i] / 3 % 3 - 7, id[i] / 9 * 2));
            double v = det3(P.p[1] - P.p[0], P.p[2] - P.p[0], P.p[3] - P.p[0]) / 6;
            if (v == 0) continue;
            if (v < 0) std::swap(P.p[2], P.p[3]), v = -v;
            P.faces = F("021 013 032 123");
            unsigned m0 = (a * 7 + b * 3 + c + d) % 16;
            for (unsigned m = m0; m < (T ? 16 : m0 + 1); m += T ? 1 : 16) check_one(P, 3, v, avg(P.p), m, d % 3, true);
            if (T) check_one(P, 3, v, avg(P.p), 0, 0, true);
            vh::state();
        }
    }
    // 2. Affine images of the unit cube, pyramid, prism, octahedron: matrix entries in {-1,0,1} + 2I.
    Poly cube, pyr, pri, oct;
    for (int i = 0; i < 8; ++i) cube.p.push_back(mk(i & 1, i >> 1 & 1, i >> 2));
    cube.faces = F("0462 1375 0154 2673 0231 4576");
    pyr.p.push_back(mk(0, 0, 0)); pyr.p.push_back(mk(1, 0, 0)); pyr.p.push_back(mk(1, 1, 0)); pyr.p.push_back(mk(0, 1, 0)); pyr.p.push_back(mk(0, 0, 1));
    pyr.faces = F("0321 014 124 234 304");
    pri.p.push_back(mk(0, 0, 0)); pri.p.push_back(mk(1, 0, 0)); pri.p.push_back(mk(0, 1, 0));
    pri.p.push_back(mk(0, 0, 1)); pri.p.push_back(mk(1, 0, 1)); pri.p.push_back(mk(0, 1, 1));
    pri.faces = F("021 345 0143 1254 2035");
    oct.p.push_back(mk(1, 0, 0)); oct.p.push_back(mk(-1, 0, 0)); oct.p.push_back(mk(0, 1, 0)); oct.p.push_back(mk(0, -1, 0)); oct.p.push_back(mk(0, 0, 1)); oct.p.push_back(mk(0, 0, -1));
    oct.faces = F("024 214 134 304 205 125 315 035");
    const Poly* base[4] = { &cube, &pyr, &pri, &oct };
    const double bv[4] = { 1, 1 / 3.0, 0.5, 4 / 3.0 };
    const V3 bc[4] = { mk(.5, .5, .5), mk(0.375, 0.375, 0.25), mk(1 / 3., 1 / 3., .5), mk(0, 0, 0) };
    std::vector<int> A(9, 0);
    do {
        double m[9];
        for (int i = 0; i < 9; ++i) m[i] = (A[i] == 2 ? -1 : A[i]) + (i % 4 == 0 ? 2 : 0);
        V3 r0 = mk(m[0], m[1], m[2]), r1 = mk(m[3], m[4], m[5]), r2 = mk(m[6], m[7], m[8]);
        double det = det3(r0, r1, r2);
        if (det == 0) continue;
        if (!vh::begin(vh::fmt("affine/%s", vh::str(A).c_str()))) continue;
        for (int s = 0; s < 4; ++s) {
            Poly P = *base[s];
            V3 t = mk(3, -1, 1000);
            for (size_t i = 0; i < P.p.size(); ++i) P.p[i] = mk(dot(r0, P.p[i]), dot(r1, P.p[i]), dot(r2, P.p[i])) + t;
            if (det < 0) for (size_t f = 0; f < P.faces.size(); ++f) std::reverse(P.faces[f].begin(), P.faces[f].end());
            V3 c = mk(dot(r0, bc[s]), dot(r1, bc[s]), dot(r2, bc[s])) + t;
            unsigned h = (unsigned)vh::hash(&A[0], 9 * sizeof(int)) ^ s;
            check_one(P, 3, std::fabs(det) * bv[s], c, h & ((1u << P.faces.size()) - 1), h >> 9 & 3, true);
            if (T) check_one(P, 3, std::fabs(det) * bv[s], c, 0, 0, true);
        }
    } while (vh::next(A, 3));
    // every storage mask for the plain shapes
    for (int s = 0; s < 4; ++s) for (unsigned m = 0; m < 1u << base[s]->faces.size(); ++m)
        if (vh::begin(vh::fmt("mask/%d/%u", s, m))) for (int r = 0; r < 4; ++r) check_one(*base[s], 3, bv[s], bc[s], m, r, true);
    // 3. 2x2x2 hexahedral block: every displacement of the middle node in a 5^3 lattice; volumes add up.
    for (int q = 0; q < 125; ++q) {
        if (!vh::begin(vh::fmt("perturb/%d", q))) continue;
        UnstructuredGrid* g = create_grid_hexa3d(2, 2, 2, 1, 2, 3);
        double* p = g->node_coordinates + 3 * 13;
        p[0] += 0.1 * (q % 5 - 2); p[1] += 0.2 * (q / 5 % 5 - 2); p[2] += 0.3 * (q / 25 - 2);
        compute_geometry(g);
        double v = 0; V3 m = mk(0, 0, 0);
        for (int c = 0; c < 8; ++c) { v += g->cell_volumes[c]; m = m + g->cell_volumes[c] * vec(g->cell_centroids + 3 * c, 3); }
        VH_CHECK(vh::close_to(v, 48, 1e-12), "additive", "cell volumes sum to %.17g, domain is 48", v);
        m = (1 / v) * m;
        VH_CHECK(norm(m - mk(1, 2, 3)) < 1e-10, "additive", "volume-weighted centroids give (%g,%g,%g)", m.x, m.y, m.z);
        vh::tr(8);
        destroy_grid(g);
    }
    // 4. 2D: all convex polygons with 3..5 vertices on a lattice; every edge storage mask.
    const int W = T ? 5 : 4;
    std::vector<V3> pts;
    for (int j = 0; j < W; ++j) for (int i = 0; i < W; ++i) pts.push_back(mk(i - 1, 2 * j + 0.5, 0));
    for (int nv = 3; nv <= 5; ++nv) {
        std::vector<int> id(nv);
        // choose vertex cycles starting at the smallest index, counter-clockwise and strictly convex
        struct Rec {
            static void go(const std::vector<V3>& pts, std::vector<int>& id, int k, int nv) {
                if (k == nv) {
                    for (int i = 0; i < nv; ++i) {
                        V3 a = pts[id[i]], b = pts[id[(i + 1) % nv]], c = pts[id[(i + 2) % nv]];
                        if (cross(b - a, c - b).z <= 0) return;
                        for (int j = 0; j < nv; ++j) if (j != i && j != (i + 1) % nv && cross(b - a, pts[id[j]] - a).z <= 0) return;
                    }
                    if (!vh::begin(vh::fmt("poly2d/%s", vh::str(id).c_str()))) return;
                    Poly P;
                    double A = 0; V3 mean = mk(0, 0, 0);
                    for (int i = 0; i < nv; ++i) {
                        P.p.push_back(pts[id[i]]);
                        std::vector<int> e; e.push_back(i); e.push_back((i + 1) % nv);
                        P.faces.push_back(e);
                        A += 0.5 * cross(pts[id[i]], pts[id[(i + 1) % nv]]).z;
                        mean = mean + (1.0 / nv) * pts[id[i]];
                    }
                    // cell centre: the vertex mean (documented approximation), exact for triangles
                    for (unsigned m = 0; m < 1u << nv; ++m) check_one(P, 2, A, mean, m, 0, nv == 3);
                    return;
                }
                for (int i = k ? id[0] + 1 : 0; i < (int)pts.size(); ++i) {
                    id[k] = i;
                    if (k >= 2 && cross(pts[id[k - 1]] - pts[id[k - 2]], pts[id[k]] - pts[id[k - 1]]).z <= 0) continue;
                    go(pts, id, k + 1, nv);
                }
            }
        };
        Rec::go(pts, id, 0, nv);
    }
    // 5. 2D perturbed block
    for (int q = 0; q < 49; ++q) {
        if (!vh::begin(vh::fmt("perturb2d/%d", q))) continue;
        UnstructuredGrid* g = create_grid_cart2d(2, 2, 1, 2);
        g->node_coordinates[2 * 4] += 0.1 * (q % 7 - 3); g->node_coordinates[2 * 4 + 1] += 0.2 * (q / 7 - 3);
        compute_geometry(g);
        geometry(g, 1e-12, false, false);
        double v = 0;
        for (int c = 0; c < 4; ++c) v += g->cell_volumes[c];
        VH_CHECK(vh::close_to(v, 8, 1e-12), "additive", "2D areas sum to %.17g", v);
        vh::tr(4);
        destroy_grid(g);
    }
    // 6. Cells with many corners: prisms and double pyramids over the convex polygon with corners (i, i^2), 3..24 of them,
    // sheared, every rotation of the face node lists, several storage masks; and the polygon itself in 2D.
    for (int n = 3; n <= (T ? 24 : 14); ++n) for (int sh = 0; sh < 3; ++sh) {
        double A = 0; V3 ce = mk(0, 0, 0), mean = mk(0, 0, 0);
        std::vector<V3> q;
        for (int i = 0; i < n; ++i) q.push_back(mk(0.5 * i, 0.25 * i * i - 1, 0));
        for (int i = 0; i < n; ++i) {
            V3 a = q[i], b = q[(i + 1) % n];
            double w = cross(a, b).z;
            A += 0.5 * w; ce = ce + (w / 6) * (a + b); mean = mean + (1.0 / n) * a;
        }
        ce = (1 / A) * ce;
        const double H = 1.5, sx = sh * 0.5, sy = sh == 2 ? -0.25 : 0;
        Poly pr, bi, de, fl;
        for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) pr.p.push_back(q[i] + mk(k * H * sx, k * H * sy, k * H));
        std::vector<int> lo, up;
        for (int i = 0; i < n; ++i) { lo.push_back(n - 1 - i); up.push_back(n + i); }
        pr.faces.push_back(lo); pr.faces.push_back(up);
        bi.p = q; bi.p.push_back(ce + mk(sx, sy, 2)); bi.p.push_back(ce + mk(-sy, sx, -1));
        de.p = bi.p; de.p[n + 1] = ce + mk(sy, -sx, 1); // dented from below: its own mean may lie outside
        fl.p = q;
        for (int i = 0; i < n; ++i) {
            int j = (i + 1) % n, f4[4] = { i, j, n + j, n + i }, u3[3] = { i, j, n }, d3[3] = { j, i, n + 1 }, e[2] = { i, j };
            pr.faces.push_back(std::vector<int>(f4, f4 + 4));
            bi.faces.push_back(std::vector<int>(u3, u3 + 3)); bi.faces.push_back(std::vector<int>(d3, d3 + 3));
            fl.faces.push_back(std::vector<int>(e, e + 2));
        }
        V3 cpr = ce + mk(H * sx / 2, H * sy / 2, H / 2);
        // double pyramid: two pyramids, centroids at a quarter of the way from the base to the apex
        V3 c1 = ce + 0.25 * (bi.p[n] - ce), c2 = ce + 0.25 * (bi.p[n + 1] - ce);
        de.faces = bi.faces;
        V3 c3 = ce + 0.25 * (de.p[n + 1] - ce), cde = 2.0 * c1 - c3;
        V3 cbi = (2.0 / 3) * c1 + (1.0 / 3) * c2;
        for (int rot = 0; rot < n; ++rot) {
            if (!vh::begin(vh::fmt("corners/%d/%d/%d", n, sh, rot))) continue;
            for (int v = 0; v < 4; ++v) {
                unsigned m = v == 0 ? 0 : v == 1 ? 0x2aaaaaau : v == 2 ? 0x1u << rot : 0x39c5a6du * (rot + 1);
                check_one(pr, 3, A * H, cpr, m & ((1u << (n + 2)) - 1), rot, true);
                if (2 * n <= 31) check_one(bi, 3, A, cbi, m & ((1u << (2 * n)) - 1), rot, true);
                if (2 * n <= 31) check_one(de, 3, A / 3, cde, m & ((1u << (2 * n)) - 1), rot, true);
                if (sh == 0) check_one(fl, 2, A, mean, m & ((1u << n) - 1), 0, n == 3);
            }
            vh::state();
        }
    }
}
