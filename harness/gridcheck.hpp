// Invariants every valid UnstructuredGrid must satisfy, checked from the public struct only.
#ifndef GRIDCHECK_HPP
#define GRIDCHECK_HPP
#include "vh.hpp"
#include <opm/core/grid.h>
namespace gc {
    struct V3 { double x, y, z; };
    inline V3 mk(double a, double b, double c) { V3 v = { a, b, c }; return v; }
    inline V3 operator-(V3 a, V3 b) { return mk(a.x - b.x, a.y - b.y, a.z - b.z); }
    inline V3 operator+(V3 a, V3 b) { return mk(a.x + b.x, a.y + b.y, a.z + b.z); }
    inline V3 operator*(double s, V3 b) { return mk(s * b.x, s * b.y, s * b.z); }
    inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
    inline V3 cross(V3 a, V3 b) { return mk(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
    inline double norm(V3 a) { return std::sqrt(dot(a, a)); }
    inline V3 vec(const double* p, int d) { return mk(p[0], p[1], d == 3 ? p[2] : 0.0); }

    // Topology.  minfaces: smallest legal number of faces of a cell.
    inline bool topology(const UnstructuredGrid* g, bool allow_unconnected_faces = false)
    {
        const int nc = g->number_of_cells, nf = g->number_of_faces, nn = g->number_of_nodes;
        if (g->cell_facepos[0] != 0 || g->face_nodepos[0] != 0) { vh::fail("topology", "position arrays do not start at 0"); return false; }
        for (int c = 0; c < nc; ++c)
            if (g->cell_facepos[c + 1] < g->cell_facepos[c]) { vh::fail("topology", "cell_facepos decreases at cell %d", c); return false; }
        for (int f = 0; f < nf; ++f)
            if (g->face_nodepos[f + 1] < g->face_nodepos[f] + (g->dimensions == 3 ? 3 : 2)) {
                vh::fail("topology", "face %d has %d nodes", f, g->face_nodepos[f + 1] - g->face_nodepos[f]); return false; }
        for (int k = 0; k < g->face_nodepos[nf]; ++k)
            if (g->face_nodes[k] < 0 || g->face_nodes[k] >= nn) { vh::fail("topology", "face node %d out of range", g->face_nodes[k]); return false; }
        for (int f = 0; f < nf; ++f) {
            int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
            if (a < -1 || b < -1 || a >= nc || b >= nc || (a == b && a >= 0)) { vh::fail("topology", "face %d has cells (%d,%d)", f, a, b); return false; }
            if (a == -1 && b == -1 && !allow_unconnected_faces) { vh::fail("topology", "face %d has no cell", f); return false; }
            std::set<int> s(g->face_nodes + g->face_nodepos[f], g->face_nodes + g->face_nodepos[f + 1]);
            if ((int)s.size() != g->face_nodepos[f + 1] - g->face_nodepos[f]) { vh::fail("topology", "face %d repeats a node", f); return false; }
        }
        // cell_faces is the inverse of face_cells
        long half = 0;
        for (int f = 0; f < nf; ++f) half += (g->face_cells[2 * f] >= 0) + (g->face_cells[2 * f + 1] >= 0);
        if (half != g->cell_facepos[nc]) { vh::fail("inverse", "cell_faces has %d entries, face_cells has %ld", g->cell_facepos[nc], half); return false; }
        for (int c = 0; c < nc; ++c) {
            std::set<int> s;
            for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) {
                int f = g->cell_faces[k];
                if (f < 0 || f >= nf) { vh::fail("inverse", "cell %d lists face %d", c, f); return false; }
                if (!s.insert(f).second) { vh::fail("inverse", "cell %d lists face %d twice", c, f); return false; }
                if (g->face_cells[2 * f] != c && g->face_cells[2 * f + 1] != c) { vh::fail("inverse", "cell %d lists face %d of cells (%d,%d)", c, f, g->face_cells[2 * f], g->face_cells[2 * f + 1]); return false; }
            }
        }
        return true;
    }

    struct FaceGeo { V3 n, c; double a; bool planar; };
    // Independent face geometry: exact for planar faces (triangle fan from the first node).
    inline FaceGeo face_geo(const UnstructuredGrid* g, int f)
    {
        const int d = g->dimensions;
        FaceGeo r;
        const int b = g->face_nodepos[f], e = g->face_nodepos[f + 1];
        V3 p0 = vec(g->node_coordinates + d * g->face_nodes[b], d);
        if (d == 2) {
            V3 p1 = vec(g->node_coordinates + d * g->face_nodes[b + 1], d);
            V3 v = p1 - p0;
            r.n = mk(v.y, -v.x, 0); r.c = 0.5 * (p0 + p1); r.a = norm(v); r.planar = true;
            return r;
        }
        r.n = mk(0, 0, 0);
        for (int k = b + 1; k + 1 < e; ++k) {
            V3 p1 = vec(g->node_coordinates + d * g->face_nodes[k], d), p2 = vec(g->node_coordinates + d * g->face_nodes[k + 1], d);
            r.n = r.n + 0.5 * cross(p1 - p0, p2 - p0);
        }
        r.a = norm(r.n);
        r.c = mk(0, 0, 0);
        r.planar = true;
        double scale = 0;
        for (int k = b + 1; k + 1 < e; ++k) {
            V3 p1 = vec(g->node_coordinates + d * g->face_nodes[k], d), p2 = vec(g->node_coordinates + d * g->face_nodes[k + 1], d);
            V3 t = 0.5 * cross(p1 - p0, p2 - p0);
            double sa = r.a > 0 ? dot(t, r.n) / r.a : 0;
            r.c = r.c + (sa / 3.0) * ((p0 + p1) + p2);
            scale = std::max(scale, std::max(norm(p1 - p0), norm(p2 - p0)));
        }
        if (r.a > 0) r.c = (1 / r.a) * r.c;
        for (int k = b; k < e && r.a > 0; ++k) {
            V3 p = vec(g->node_coordinates + d * g->face_nodes[k], d);
            if (std::fabs(dot(p - p0, r.n)) > 1e-9 * r.a * scale) r.planar = false;
        }
        return r;
    }

    // Geometry of a grid.  All cells are assumed non-degenerate.
    inline void geometry(const UnstructuredGrid* g, double tol = 1e-10, bool nonplanar_ok = false, bool check_centroid = true, bool check_closed = true)
    {
        const int d = g->dimensions;
        std::vector<FaceGeo> fg(g->number_of_faces);
        for (int f = 0; f < g->number_of_faces; ++f) {
            FaceGeo r = fg[f] = face_geo(g, f);
            V3 n = vec(g->face_normals + d * f, d), c = vec(g->face_centroids + d * f, d);
            double a = g->face_areas[f];
            double sc = std::sqrt(std::max(r.a, 1e-300)) + norm(r.c);
            if (!(norm(n - r.n) <= tol * r.a + 1e-14)) vh::fail("face-normal", "face %d normal (%g,%g,%g), expected (%g,%g,%g)", f, n.x, n.y, n.z, r.n.x, r.n.y, r.n.z);
            if (!r.planar) { if (!nonplanar_ok) vh::fail("planar", "face %d is not planar", f); continue; }
            if (!vh::close_to(a, r.a, tol, 1e-14)) vh::fail("face-area", "face %d area %.17g, expected %.17g", f, a, r.a);
            if (r.a > 1e-12 && !(norm(c - r.c) <= tol * sc)) vh::fail("face-centroid", "face %d centroid (%g,%g,%g), expected (%g,%g,%g)", f, c.x, c.y, c.z, r.c.x, r.c.y, r.c.z);
        }
        for (int c = 0; c < g->number_of_cells; ++c) {
            V3 sum = mk(0, 0, 0);
            double vol = 0, area = 0;
            V3 cen = mk(0, 0, 0);
            bool planar = true;
            V3 x0 = fg[g->cell_faces[g->cell_facepos[c]]].c;
            for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) {
                int f = g->cell_faces[k];
                double s = g->face_cells[2 * f] == c ? 1 : -1;
                sum = sum + s * fg[f].n;
                area += fg[f].a;
                double cv = s * dot(fg[f].n, fg[f].c - x0) / d;
                vol += cv;
                cen = cen + (cv * d / (d + 1.0)) * (fg[f].c - x0);
                planar = planar && fg[f].planar;
            }
            if (!check_closed) continue;
            if (!(norm(sum) <= 1e-9 * area)) vh::fail("closed", "cell %d is not closed: sum of outward normals (%g,%g,%g)", c, sum.x, sum.y, sum.z);
            if (!planar) continue;
            if (!(vol > 0)) { vh::fail("orientation", "cell %d: outward-oriented volume %g", c, vol); continue; }
            if (!vh::close_to(g->cell_volumes[c], vol, 1e-8)) vh::fail("cell-volume", "cell %d volume %.17g, expected %.17g", c, g->cell_volumes[c], vol);
            if (check_centroid) {
                cen = x0 + (1 / vol) * cen;
                V3 gcn = vec(g->cell_centroids + d * c, d);
                if (!(norm(gcn - cen) <= 1e-8 * (1 + norm(cen) + std::sqrt(area)))) vh::fail("cell-centroid", "cell %d centroid (%g,%g,%g), expected (%g,%g,%g)", c, gcn.x, gcn.y, gcn.z, cen.x, cen.y, cen.z);
            }
        }
    }
}
#endif
