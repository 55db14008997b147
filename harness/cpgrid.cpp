// Corner-point processing of every small lattice of corner depths against an exact geometric oracle.
#include "gridcheck.hpp"
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/grid/cpgpreprocess/preprocess.h>
using namespace gc;

struct Model {
    int nx, ny, nz;
    std::vector<double> z;        // zcorn in Eclipse order
    std::vector<int> act;         // empty: none given
    double shx, shy;              // pillar slant dx/dz, dy/dz
    bool left, neg;               // mirrored y; depths given with opposite sign
    double tol;
    std::vector<double> zt;       // "true" depths when z carries noise below tol (else empty)
    int junk;                     // what the depths of inactive cells hold: 0 as set, 1 zeros, 2 upside down, 3 huge, 4 NaN
    int pil;                      // how pillars are given: 0 top to bottom, 1 bottom point first, 2 a short segment inside, 3 short and reversed, 4 a single point (vertical)
    bool taper, loose;            // every pillar has its own slant; layers separated by about the tolerance
    Model(int a, int b, int c) : nx(a), ny(b), nz(c), z(8 * a * b * c, 0.0), shx(0), shy(0), left(false), neg(false), tol(0), junk(0), pil(0), taper(false), loose(false) {}
    size_t at(int i, int j, int k, int di, int dj, int dk) const { return (2 * i + di) + 2 * nx * ((2 * j + dj) + (size_t)2 * ny * (2 * k + dk)); }
    double Z(int i, int j, int k, int di, int dj, int dk) const { return (zt.empty() ? z : zt)[at(i, j, k, di, dj, dk)]; }
    bool active(int c) const { return act.empty() || act[c]; }
    double sx(int i, int j) const { return taper ? 0.01 * ((3 * i + 5 * j) % 7 - 3) : shx; }
    double sy(int i, int j) const { return taper ? 0.01 * ((2 * i + 3 * j) % 5 - 2) : shy; }
    // position of pillar (i,j) at depth z
    V3 on(int i, int j, double z) const { return mk(i + sx(i, j) * z, (left ? -1 : 1) * (j + sy(i, j) * z), (neg ? -1 : 1) * z); }
};

static double overlap(double a0, double a1, double b0, double b1, double c0, double c1, double d0, double d1)
{   // area between max(a,c) and min(b,d) on [0,1]
    double L[4][2] = { { a0, a1 }, { b0, b1 }, { c0, c1 }, { d0, d1 } };
    std::vector<double> t; t.push_back(0); t.push_back(1);
    for (int p = 0; p < 4; ++p) for (int q = p + 1; q < 4; ++q) {
        double u = L[p][0] - L[q][0], v = L[p][1] - L[q][1];
        if (u * v < 0) t.push_back(u / (u - v));
    }
    std::sort(t.begin(), t.end());
    double s = 0;
    for (size_t k = 0; k + 1 < t.size(); ++k) {
        double h[2];
        double w = t[k + 1] - t[k];
        if (w <= 0) continue;
        for (int e = 0; e < 2; ++e) {
            double x = t[k + e], y[4];
            for (int p = 0; p < 4; ++p) y[p] = L[p][0] * (1 - x) + L[p][1] * x;
            h[e] = std::min(y[1], y[3]) - std::max(y[0], y[2]);
        }
        if (h[0] < 1e-13 && h[1] < 1e-13) continue;
        s += 0.5 * (h[0] + h[1]) * w;
    }
    return s;
}

static void run(const Model& m)
{
    const int nx = m.nx, ny = m.ny, nz = m.nz, nc = nx * ny * nz;
    // volumes (columns are unit squares; a slant does not change volumes)
    std::vector<double> vol(nc);
    bool any = false;
    for (int c = 0; c < nc; ++c) {
        int i = c % nx, j = c / nx % ny, k = c / nx / ny;
        double v = 0;
        for (int q = 0; q < 4; ++q) v += m.Z(i, j, k, q & 1, q >> 1, 1) - m.Z(i, j, k, q & 1, q >> 1, 0);
        vol[c] = m.active(c) ? v / 4 : 0;
        any = any || vol[c] > 0;
    }
    if (!any) return;
    std::vector<double> coord, zc(m.z);
    static const double ZL[5][2] = { { -1, 9 }, { 9, -1 }, { 1.25, 1.5 }, { 1.5, 1.25 }, { 1.5, 1.5 } };
    double sg = m.neg ? -1 : 1, sy = m.left ? -1 : 1;
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) for (int e = 0; e < 2; ++e) {
        V3 a = m.on(i, j, ZL[m.pil][e]);
        coord.push_back(a.x); coord.push_back(a.y); coord.push_back(a.z);
    }
    if (m.junk) for (int c = 0; c < nc; ++c) if (!m.active(c)) for (int q = 0; q < 8; ++q) {
        double& r = zc[m.at(c % nx, c / nx % ny, c / nx / ny, q & 1, q >> 1 & 1, q >> 2)];
        r = m.junk == 1 ? 0 : m.junk == 2 ? 1 - (q >> 2) - c : m.junk == 3 ? 1e20 * (q - 3) : std::numeric_limits<double>::quiet_NaN();
    }
    if (m.neg) for (size_t k = 0; k < zc.size(); ++k) zc[k] = -zc[k];
    struct grdecl g;
    g.dims[0] = nx; g.dims[1] = ny; g.dims[2] = nz;
    g.coord = &coord[0]; g.zcorn = &zc[0]; g.actnum = m.act.empty() ? 0 : &m.act[0]; g.mapaxes = 0;
    UnstructuredGrid* G = create_grid_cornerpoint(&g, m.tol);
    vh::tr();
    if (!G) { vh::fail("null", "no grid produced"); return; }
    // cells
    std::vector<int> loc(nc, -1);
    int n = 0;
    bool ok = true;
    for (int c = 0; c < nc; ++c) if (vol[c] > 0) {
        if (n < G->number_of_cells && G->global_cell[n] != c) ok = false;
        loc[c] = n++;
    }
    if (n != G->number_of_cells || G->cartdims[0] != nx || G->cartdims[1] != ny || G->cartdims[2] != nz) {
        vh::fail("cells", "%d cells, expected %d", G->number_of_cells, n); destroy_grid(G); return; }
    // cells need not be numbered in Cartesian order; global_cell must be a bijection on the live cells
    std::vector<int> inv(nc, -1);
    for (int c = 0; c < n; ++c) {
        int q = G->global_cell[c];
        if (q < 0 || q >= nc || vol[q] <= 0 || inv[q] >= 0) { vh::fail("global", "global_cell[%d]=%d", c, q); destroy_grid(G); return; }
        inv[q] = c;
    }
    (void)ok;
    if (!topology(G)) { destroy_grid(G); return; }
    // on slanted surfaces the crossing of two layer lines is only approximate, so split sides need not close exactly
    geometry(G, m.zt.empty() ? 1e-9 : 1e-3, true, false, !m.taper || nx * ny == 1);
    const double VT = m.zt.empty() ? 1e-9 : 1e-3;
    std::vector<FaceGeo> fg(G->number_of_faces);
    for (int f = 0; f < G->number_of_faces; ++f) fg[f] = face_geo(G, f);
    const double ax = std::sqrt(1 + m.shx * m.shx), ay = std::sqrt(1 + m.shy * m.shy);
    double sig = 0;
    // every corner of every cell is a vertex of its top or bottom face, on its own pillar, at its own depth
    for (int q = 0; q < nc; ++q) if (inv[q] >= 0) {
        const int c = inv[q], i = q % nx, j = q / nx % ny, k = q / nx / ny;
        for (int p = G->cell_facepos[c]; p < G->cell_facepos[c + 1]; ++p) if (G->cell_facetag[p] >= 4) {
            const int e = G->cell_facetag[p] - 4, f = G->cell_faces[p];
            for (int w = 0; w < 4; ++w) {
                const V3 x = m.on(i + (w & 1), j + (w >> 1), m.z[m.at(i, j, k, w & 1, w >> 1, e)]);
                double best = 1e30;
                for (int v = G->face_nodepos[f]; v < G->face_nodepos[f + 1]; ++v) best = std::min(best, norm(vec(G->node_coordinates + 3 * G->face_nodes[v], 3) - x));
                VH_CHECK(best <= 1.2 * m.tol + 1e-9, "corner", "cell %d: corner %d of the %s is %g from the nearest vertex of that face", q, w, e ? "bottom" : "top", best);
            }
        }
    }
    // the outermost depths on every pillar are kept exactly
    if (m.tol > 0) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
        double hi = -1e30;
        for (int c = 0; c < nc; ++c) if (m.active(c)) for (int q = 0; q < 8; ++q)
            if (c % nx + (q & 1) == i && c / nx % ny + (q >> 1 & 1) == j) hi = std::max(hi, m.z[m.at(c % nx, c / nx % ny, c / nx / ny, q & 1, q >> 1 & 1, q >> 2)]);
        bool f = hi < -1e29;
        const V3 x = m.on(i, j, hi);
        for (int k = 0; k < G->number_of_nodes && !f; ++k) f = norm(vec(G->node_coordinates + 3 * k, 3) - x) < 1e-9;
        VH_CHECK(f, "boundary", "pillar (%d,%d): the lowest depth %.9g is not a vertex", i, j, hi);
    }
    // every vertex lies on the (possibly slanted) pillars or on the surface spanned by two neighbouring ones
    for (int k = 0; k < G->number_of_nodes; ++k) {
        const double* p = G->node_coordinates + 3 * k;
        if (m.taper) break;
        double dep = sg * p[2], u = p[0] - m.shx * dep, v = sy * p[1] - m.shy * dep;
        bool iu = std::fabs(u - std::floor(u + 0.5)) < 1e-9, iv = std::fabs(v - std::floor(v + 0.5)) < 1e-9;
        if (!(iu || iv) || u < -1e-9 || v < -1e-9 || u > nx + 1e-9 || v > ny + 1e-9)
            vh::fail("pillar", "vertex %d at (%g,%g,%g) is off the pillars", k, p[0], p[1], p[2]);
    }
    for (int q = 0; q < nc; ++q) if (inv[q] >= 0) {
        int c = inv[q], i = q % nx, j = q / nx % ny, k = q / nx / ny;
        // volume, unless top or bottom is warped (then exact up to the bilinear/triangulated difference)
        VH_CHECK(m.taper ? G->cell_volumes[c] > 0 : vh::close_to(G->cell_volumes[c], vol[q], VT, VT), "volume", "cell %d volume %.12g expected %.12g", q, G->cell_volumes[c], vol[q]);
        std::map<int, double> got[6];
        std::map<int, int> cnt[6];
        for (int p = G->cell_facepos[c]; p < G->cell_facepos[c + 1]; ++p) {
            int f = G->cell_faces[p], tag = G->cell_facetag[p];
            if (tag < 0 || tag > 5) { vh::fail("tag", "facetag %d", tag); continue; }
            int a = G->face_cells[2 * f], b = G->face_cells[2 * f + 1];
            VH_CHECK((tag & 1) ? a == c : b == c, "orientation", "cell %d tag %d face cells (%d,%d)", q, tag, a, b);
            int o = a == c ? b : a;
            got[tag][o < 0 ? -1 : G->global_cell[o]] += fg[f].a;
            cnt[tag][o < 0 ? -1 : G->global_cell[o]]++;
            // normal has a positive component along the logical direction
            int d = tag / 2;
            double nd = d == 0 ? fg[f].n.x : d == 1 ? sy * fg[f].n.y : sg * (fg[f].n.z + sg * m.shx * fg[f].n.x + sg * sy * m.shy * fg[f].n.y);
            VH_CHECK(nd > 0 || fg[f].a < 1e-12 || (m.taper && fg[f].a < 1e-3), "normal", "cell %d tag %d normal component %g", q, tag, nd);
        }
        // lateral sides
        for (int tag = 0; tag < 4; ++tag) {
            int d = tag / 2, up = tag & 1;
            double sc = d == 0 ? ax : ay;
            int di[2], dj[2];  // the two corners of this side
            if (d == 0) { di[0] = di[1] = up; dj[0] = 0; dj[1] = 1; }
            else { dj[0] = dj[1] = up; di[0] = 0; di[1] = 1; }
            double t0 = m.Z(i, j, k, di[0], dj[0], 0), t1 = m.Z(i, j, k, di[1], dj[1], 0);
            double b0 = m.Z(i, j, k, di[0], dj[0], 1), b1 = m.Z(i, j, k, di[1], dj[1], 1);
            double rest = sc * 0.5 * ((b0 - t0) + (b1 - t1));
            std::map<int, double> want;
            int ni = i + (d == 0 ? 2 * up - 1 : 0), nj = j + (d == 1 ? 2 * up - 1 : 0);
            if (ni >= 0 && ni < nx && nj >= 0 && nj < ny) for (int kk = 0; kk < nz; ++kk) {
                int qq = ni + nx * (nj + ny * kk);
                if (inv[qq] < 0) continue;
                int e0 = d == 0 ? 1 - up : di[0], e1 = d == 0 ? 1 - up : di[1];
                int f0 = d == 1 ? 1 - up : dj[0], f1 = d == 1 ? 1 - up : dj[1];
                double A = sc * overlap(t0, t1, b0, b1, m.Z(ni, nj, kk, e0, f0, 0), m.Z(ni, nj, kk, e1, f1, 0), m.Z(ni, nj, kk, e0, f0, 1), m.Z(ni, nj, kk, e1, f1, 1));
                if (A > 1e-12) { want[qq] = A; rest -= A; }
            }
            if (rest > 1e-9) want[-1] = rest;
            for (std::map<int, double>::iterator it = want.begin(); it != want.end(); ++it)
                VH_CHECK(m.taper ? got[tag][it->first] > 0 : vh::close_to(got[tag][it->first], it->second, VT, VT), "contact", "cell %d tag %d contact with cell %d: area %.12g, expected %.12g", q, tag, it->first, got[tag][it->first], it->second);
            for (std::map<int, double>::iterator it = got[tag].begin(); it != got[tag].end(); ++it) {
                if (!want.count(it->first) && it->second > VT) vh::fail("contact", "cell %d tag %d spurious contact with %d, area %g", q, tag, it->first, it->second);
                else if (!m.loose && !want.count(it->first) && it->first >= 0 && cnt[tag].count(it->first)) vh::fail("contact0", "cell %d tag %d zero-area contact with cell %d", q, tag, it->first);
                sig += (it->first + 2) * it->second * (tag + 1) * (q + 3);
            }
        }
        // vertical neighbours
        for (int up = 0; up < 2 && !m.loose; ++up) {
            int kk = k, nb = -1;
            for (kk += 2 * up - 1; kk >= 0 && kk < nz; kk += 2 * up - 1) {
                int qq = i + nx * (j + ny * kk);
                if (inv[qq] < 0) continue;
                bool same = true;
                for (int p = 0; p < 4; ++p) if (m.Z(i, j, kk, p & 1, p >> 1, 1 - up) != m.Z(i, j, k, p & 1, p >> 1, up)) same = false;
                if (same) nb = qq;
                break;
            }
            std::map<int, double>& gg = got[4 + up];
            if (gg.size() != 1 || cnt[4 + up].begin()->second != 1 || gg.begin()->first != nb)
                vh::fail("vertical", "cell %d %s: %d contacts, first %d, expected %d", q, up ? "bottom" : "top", (int)gg.size(), gg.empty() ? -9 : gg.begin()->first, nb);
            sig += (nb + 2) * (5 + up) * (q + 3);
        }
    }
    vh::outcome(vh::hash(&sig, sizeof sig));
    if (G->number_of_cells > 1) vh::sample(vh::fmt("%s: %d cells, %d faces, %d nodes", vh::ctx().cur.c_str(), G->number_of_cells, G->number_of_faces, G->number_of_nodes));
    destroy_grid(G);
}

static void refused(const Model& m)
{
    std::vector<double> coord, zc(m.z);
    for (int j = 0; j <= m.ny; ++j) for (int i = 0; i <= m.nx; ++i) for (int e = 0; e < 2; ++e) { V3 a = m.on(i, j, e ? 9 : -1); coord.push_back(a.x); coord.push_back(a.y); coord.push_back(a.z); }
    struct grdecl g;
    g.dims[0] = m.nx; g.dims[1] = m.ny; g.dims[2] = m.nz;
    g.coord = &coord[0]; g.zcorn = &zc[0]; g.actnum = 0; g.mapaxes = 0;
    UnstructuredGrid* G = create_grid_cornerpoint(&g, m.tol);
    vh::tr();
    VH_CHECK(!G, "refused", "depths that cross are accepted: a grid of %d cells, first volume %g", G ? G->number_of_cells : 0, G && G->number_of_cells ? G->cell_volumes[0] : 0.0);
    if (G) destroy_grid(G);
    vh::outcome(7);
}

static void seqs(int len, int maxv, std::vector<std::vector<int> >& out)
{
    std::vector<int> s(len, 0);
    do {
        bool mono = true;
        for (int i = 0; i + 1 < len; ++i) if (s[i] > s[i + 1]) mono = false;
        if (mono) out.push_back(s);
    } while (vh::next(s, maxv + 1));
}

static const char* key(const char* fam, const std::vector<int>& d, int variant, std::string& buf)
{
    buf = std::string(fam) + "/v" + std::to_string(variant) + "/";
    for (size_t i = 0; i < d.size(); ++i) buf += (i ? "." : "") + std::to_string(d[i]);
    return buf.c_str();
}

// Two columns across direction dir; the shared pillars carry every combination of depth sequences.
static void fault_pair(const char* fam, int nz, int maxv, int dir, int variants)
{
    std::vector<std::vector<int> > S;
    seqs(2 * nz, maxv, S);
    const int ns = S.size();
    std::vector<int> d(4, 0); // A pillar 1, A pillar 2, B pillar 1, B pillar 2
    std::string id;
    do {
        for (int v = 0; v < variants; ++v) {
            if (!vh::begin(key(fam, d, v, id))) continue;
            Model m(dir == 0 ? 2 : 1, dir == 0 ? 1 : 2, nz);
            for (int k = 0; k < nz; ++k) for (int e = 0; e < 2; ++e) for (int side = 0; side < 2; ++side) for (int p = 0; p < 2; ++p) for (int far = 0; far < 2; ++far) {
                double z = S[d[2 * side + p]][2 * k + e];
                int near = side == 0 ? 1 : 0;
                int across = far ? 1 - near : near;
                if (dir == 0) m.z[m.at(side, 0, k, across, p, e)] = z;
                else m.z[m.at(0, side, k, p, across, e)] = z;
            }
            m.left = v & 1;
            m.neg = v & 2;
            if (v & 4) { m.shx = 0.5; m.shy = -0.25; }
            m.pil = v >= 40 ? 0 : v >> 3;
            m.taper = v >= 40;
            if (m.pil == 4 && (v & 4)) continue;
            run(m);
        }
    } while (vh::next(d, ns));
}

void explore()
{
    const bool T = vh::thorough();
    // (a) one layer, depth levels 0..4
    fault_pair("pair1x", 1, T ? 5 : 3, 0, 8);
    fault_pair("pillars", 1, 2, 0, 48);
    fault_pair("pair1y", 1, T ? 5 : 3, 1, 8);
    // (b) two layers with gaps, pinches and crossings
    fault_pair("pair2x", 2, T ? 3 : 2, 0, T ? 8 : 1);
    fault_pair("pair2y", 2, 2, 1, T ? 8 : 1);
    // (c) three layers without gaps, two columns
    {
        std::vector<std::vector<int> > S;
        seqs(4, T ? 4 : 2, S);
        std::vector<int> d(4, 0);
        std::string id;
        do for (int a = 0; a < (T ? 8 : 2); ++a) {
            if (!vh::begin(key("stack3", d, a, id))) continue;
            Model m(2, 1, 3);
            for (int k = 0; k < 3; ++k) for (int e = 0; e < 2; ++e) for (int s = 0; s < 2; ++s) for (int p = 0; p < 2; ++p) for (int x = 0; x < 2; ++x)
                m.z[m.at(s, 0, k, x, p, e)] = S[d[2 * s + p]][k + e];
            if (a > 1) m.junk = 1 + (d[0] + d[1] + d[2] + d[3] + a) % 4;
            if (a) { m.act.assign(6, 1); m.act[(a - 1) % 6] = 0; if (a == 7) m.act[3] = m.act[4] = 0; if (a == 1) m.act[0] = 1, m.act[2] = 0; }
            run(m);
        } while (vh::next(d, (int)S.size()));
    }
    // (d) 2x2 columns, two layers: every column shift in {0,1,2}, every ACTNUM map
    {
        std::vector<int> d(4, 0);
        std::string id;
        do for (int a = 0; a < 256; ++a) {
            if (!vh::begin(key("shift", d, a, id))) continue;
            Model m(2, 2, 2);
            for (int c = 0; c < 8; ++c) for (int q = 0; q < 8; ++q)
                m.z[m.at(c & 1, c >> 1 & 1, c >> 2, q & 1, q >> 1 & 1, q >> 2)] = d[c & 3] + (c >> 2) + (q >> 2);
            m.act.resize(8);
            for (int c = 0; c < 8; ++c) m.act[c] = a >> c & 1;
            m.left = (a >> 3) & 1; m.neg = (a >> 5) & 1;
            m.junk = (d[0] + 2 * d[1] + d[2] + 2 * d[3] + a + (a >> 4)) % 5;
            run(m);
        } while (vh::next(d, 3));
    }
    // (e) a column: every thickness pattern {0,1,2}^n with gaps {0,1} and every ACTNUM
    for (int nz = 1; nz <= (T ? 5 : 4); ++nz) {
        std::vector<int> d(2 * nz, 0), rad(2 * nz, 2);
        for (int k = 0; k < nz; ++k) rad[k] = 3;
        std::string id;
        do for (int a = 0; a <= 1 << nz; ++a) for (int jk = 0; jk < (a < (1 << nz) - 1 ? 5 : 1); ++jk) {
            if (!vh::begin(key("column", d, a + 100 * jk, id))) continue;
            Model m(1, 1, nz);
            double z = 0;
            for (int k = 0; k < nz; ++k) {
                z += d[nz + k];
                for (int q = 0; q < 4; ++q) m.z[m.at(0, 0, k, q & 1, q >> 1, 0)] = z;
                z += d[k];
                for (int q = 0; q < 4; ++q) m.z[m.at(0, 0, k, q & 1, q >> 1, 1)] = z;
            }
            if (a < 1 << nz) { m.junk = jk; m.act.resize(nz); for (int k = 0; k < nz; ++k) m.act[k] = a >> k & 1; }
            run(m);
        } while (vh::next(d, rad));
    }
    // (f) single cell, all planar-top/bottom corner depths, pinched edges, slants and handedness
    {
        std::vector<int> d(8, 0);
        std::string id;
        do {
            const bool planar = d[0] + d[3] == d[1] + d[2] && d[4] + d[7] == d[5] + d[6];
            bool ok = T || planar || d[0] + d[1] + d[2] == 0 || d[4] + d[6] + d[7] == 6;
            for (int q = 0; q < 4; ++q) if (d[q] > d[q + 4]) ok = false;
            if (!ok) continue;
            for (int v = 0; v < 48; ++v) {
                if (v / 8 == 4 && (v & 4)) continue;
                if (v < 40 && (v & 4) && !planar) continue; // the volume under a warped face depends on the slant
                if (!vh::begin(key("single", d, v, id))) continue;
                Model m(1, 1, 1);
                for (int q = 0; q < 8; ++q) m.z[m.at(0, 0, 0, q & 1, q >> 1 & 1, q >> 2)] = d[q];
                m.left = v & 1; m.neg = v & 2; if (v & 4) { m.shx = -1; m.shy = 0.5; }
                m.pil = v / 8;
                if (v >= 40) { if (v & 4) m.pil = 1; else m.pil = 0; m.taper = true; m.shx = m.shy = 0; }
                run(m);
            }
        } while (vh::next(d, T ? 4 : 3));
    }
    // (g) coincidence tolerance: corner depths of matching layers perturbed by up to the tolerance
    {
        std::vector<int> d(8, 0);
        std::string id;
        do {
            if (!vh::begin(key("tol", d, 0, id))) continue;
            Model m(2, 1, 2);
            for (int c = 0; c < 4; ++c) for (int q = 0; q < 8; ++q)
                m.z[m.at(c & 1, 0, c >> 1, q & 1, q >> 1 & 1, q >> 2)] = (c >> 1) + (q >> 2);
            m.zt = m.z;
            // perturb the mid-layer depths
            for (int c = 0; c < 4; ++c) for (int p = 0; p < 2; ++p) {
                int e = c >> 1 ? 0 : 1;
                m.z[m.at(c & 1, 0, c >> 1, 1 - (c & 1), p, e)] += (e ? -2e-5 : 2e-5) * d[2 * c + p];
            }
            m.tol = 1e-4;
            run(m);
        } while (vh::next(d, 3));
    }
    // (g2) depths closer than the tolerance to their neighbours but spread over more than it: chains
    {
        std::vector<int> d(8, 0);
        std::string id;
        do {
            bool mono = true;
            for (int s = 0; s < 4; ++s) if (d[2 * s] > d[2 * s + 1]) mono = false;
            if (!mono) continue;
            for (int v = 0; v < 2; ++v) {
                if (!vh::begin(key("chain", d, v, id))) continue;
                // two layers; the shared pillars carry depths in steps of 0.6 of the tolerance, at the layer boundary (v=0: bottom of the first, top of the second layer) or at the bottom (v=1)
                if (v && d[0] + d[2] + d[4] + d[6]) continue;
                Model m(2, 1, 2);
                m.zt.assign(m.z.size(), 0.0);
                for (int c = 0; c < 4; ++c) for (int q = 0; q < 8; ++q) {
                    const int s = c & 1, k = c >> 1, e = q >> 2, p = q >> 1 & 1, x = q & 1;
                    const size_t at = m.at(s, 0, k, x, p, e);
                    m.z[at] = m.zt[at] = k + e;
                    if (x == 1 - s && k + e == (v ? 2 : 1)) m.z[at] += 0.6e-4 * d[2 * (2 * s + p) + k];
                }
                m.tol = 1e-4; m.loose = true;
                run(m);
            }
        } while (vh::next(d, 4));
    }
    // (g3) depths that increase along some pillars and decrease along others describe no grid: refused
    for (int nz = 1; nz <= 3; ++nz) {
        std::vector<int> d(4 * nz, 0);
        std::string id;
        do {
            bool up = false, down = false;
            for (int q = 0; q < 4 * nz; ++q) { up = up || d[q] == 1; down = down || d[q] == 2; }
            if (!up || !down) continue;
            if (!vh::begin(key("disorder", d, nz, id))) continue;
            Model m(1, 1, nz);
            for (int q = 0; q < 4; ++q) { double z = 4; for (int k = 0; k < nz; ++k) { m.z[m.at(0, 0, k, q & 1, q >> 1, 0)] = z; z += d[4 * k + q] == 2 ? -0.5 : d[4 * k + q]; m.z[m.at(0, 0, k, q & 1, q >> 1, 1)] = z; } }
            refused(m);
        } while (vh::next(d, nz == 3 ? (T ? 3 : 0) : 3));
    }
    // (g4) many contacts and intersections between neighbouring columns: lines fan out from opposite pillars
    for (int nz = 1; nz <= (T ? 24 : 14); ++nz) for (int nb = 2; nb <= 6; ++nb) for (int dir = 0; dir < 2; ++dir) for (int f = 0; f < 2; ++f) {
        if (!vh::begin(vh::fmt("fan:nz=%d:columns=%d:dir=%d:form=%d", nz, nb, dir, f))) continue;
        const int w = f ? 2 : 1;
        Model m(dir ? w : nb, dir ? nb : w, nz);
        for (int c = 0; c < nb * w; ++c) for (int k = 0; k < nz; ++k) for (int q = 0; q < 8; ++q) {
            const int i = c % m.nx, j = c / m.nx, b = dir ? j : i, side = dir ? q & 1 : q >> 1 & 1;
            const double t = (double)(k + (q >> 2)) / nz;
            const bool wide = (side ^ (b & 1) ^ (f && ((dir ? i : j) & 1))) != 0;
            m.z[m.at(i, j, k, q & 1, q >> 1 & 1, q >> 2)] = wide ? 4 * t : 1.75 + 0.25 * t;
        }
        run(m);
    }
    // (h) larger grids, so that every internal table has to grow several times: sizes x column displacements x ACTNUM patterns
    {
        static const int S[][3] = { { 9, 1, 1 }, { 1, 9, 1 }, { 25, 1, 1 }, { 5, 4, 1 }, { 6, 5, 2 }, { 9, 7, 1 }, { 2, 1, 12 }, { 1, 2, 12 }, { 3, 2, 9 }, { 4, 4, 4 }, { 12, 2, 2 }, { 2, 12, 2 }, { 10, 9, 1 }, { 3, 3, 8 } };
        for (int s = 0; s < (T ? 14 : 12); ++s) for (int pat = 0; pat < 6; ++pat) for (int a = 0; a < 4; ++a) {
            if (!vh::begin(vh::fmt("large:%dx%dx%d:displacement=%d:actnum=%d", S[s][0], S[s][1], S[s][2], pat, a))) continue;
            Model m(S[s][0], S[s][1], S[s][2]);
            for (int k = 0; k < S[s][2]; ++k) for (int j = 0; j < S[s][1]; ++j) for (int i = 0; i < S[s][0]; ++i) {
                double d = 0;
                if (pat == 1) d = (i + j) % 2; if (pat == 2) d = 0.5 * ((i + 2 * j) % 3); if (pat == 3) d = 2 * i + j; if (pat == 4) d = 0.25 * ((i * i + 3 * j) % 7); if (pat == 5) d = i % 3 == 1 ? 0.5 * S[s][2] : 0;
                for (int q = 0; q < 8; ++q) m.z[m.at(i, j, k, q & 1, q >> 1 & 1, q >> 2)] = d + k + (q >> 2) + (pat == 4 ? 0.125 * (i + (q & 1)) : 0);
            }
            if (a) { const int n = S[s][0] * S[s][1] * S[s][2]; m.act.assign(n, 1); for (int c = 0; c < n; ++c) m.act[c] = a == 1 ? c % 2 : a == 2 ? (c * 7) % 5 != 0 : c % 11 == 3 || c == n - 1; }
            m.left = pat == 2; m.neg = a == 2;
            run(m);
        }
    }
}
