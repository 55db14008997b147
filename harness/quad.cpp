// Quadrature, discontinuous Galerkin bases, barycentric coordinates and velocity interpolation, against exact integrals
// and definitions, on every lattice polygon, on affine images of five polyhedra and on small grids.
#include "flow.hpp"
#include "gridcheck.hpp"
#include <opm/core/grid/CellQuadrature.hpp>
#include <opm/core/grid/FaceQuadrature.hpp>
#include <opm/core/tof/DGBasis.hpp>
#include <opm/core/utility/VelocityInterpolation.hpp>
#include <opm/core/utility/WachspressCoord.hpp>
using gc::V3; using gc::mk; using gc::vec; using gc::dot; using gc::cross; using gc::norm; using gc::operator-; using gc::operator+; using gc::operator*;
typedef std::vector<double> V;
typedef std::vector<int> I;
typedef long double LD;
struct Poly { std::vector<V3> p; std::vector<I> faces; }; // faces oriented outwards
static UnstructuredGrid* onecell(const Poly& P, int dim, unsigned mask, int rot)
{
    int nf = P.faces.size(), nfn = 0; for (int f = 0; f < nf; ++f) nfn += P.faces[f].size();
    UnstructuredGrid* g = allocate_grid(dim, 1, nf, nfn, nf, P.p.size());
    g->dimensions = dim; g->number_of_cells = 1; g->number_of_faces = nf; g->number_of_nodes = P.p.size();
    for (size_t i = 0; i < P.p.size(); ++i) { const double x[3] = { P.p[i].x, P.p[i].y, P.p[i].z }; std::copy(x, x + dim, g->node_coordinates + dim * i); }
    int o = 0; g->face_nodepos[0] = 0;
    for (int f = 0; f < nf; ++f) {
        I q = P.faces[f]; bool flip = mask >> f & 1; if (flip) std::reverse(q.begin(), q.end());
        if (dim == 3) std::rotate(q.begin(), q.begin() + (rot % q.size()), q.end());
        std::copy(q.begin(), q.end(), g->face_nodes + o); g->face_nodepos[f + 1] = o += q.size();
        g->face_cells[2 * f] = flip ? -1 : 0; g->face_cells[2 * f + 1] = flip ? 0 : -1; g->cell_faces[f] = f;
    }
    g->cell_facepos[0] = 0; g->cell_facepos[1] = nf; compute_geometry(g);
    return g;
}
// integrals of 1, x_i, x_i x_j as [0], [1..3], [4 + 3 i + j]
typedef std::vector<LD> M;
static void simplex(M& m, LD vol, const V3* p, int n, V3 o)
{
    LD s[3] = { 0, 0, 0 }, q[3][3] = { { 0 } }; for (int k = 0; k < n; ++k) { LD x[3] = { (LD)p[k].x - o.x, (LD)p[k].y - o.y, (LD)p[k].z - o.z }; for (int i = 0; i < 3; ++i) { s[i] += x[i]; for (int j = 0; j < 3; ++j) q[i][j] += x[i] * x[j]; } }
    m[0] += vol; for (int i = 0; i < 3; ++i) { m[1 + i] += vol * s[i] / n; for (int j = 0; j < 3; ++j) m[4 + 3 * i + j] += vol * (q[i][j] + s[i] * s[j]) / (n * (n + 1)); }
}
static M cellmoments(const UnstructuredGrid* g, int c, V3 o)
{
    const int d = g->dimensions; M m(13, 0); V3 a = vec(g->node_coordinates + d * g->face_nodes[g->face_nodepos[g->cell_faces[g->cell_facepos[c]]]], d);
    for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
        const int f = g->cell_faces[j], b = g->face_nodepos[f], n = g->face_nodepos[f + 1] - b; const int* fn = g->face_nodes + b;
        if (d == 2) { V3 p[3] = { a, vec(g->node_coordinates + 2 * fn[0], 2), vec(g->node_coordinates + 2 * fn[1], 2) }; simplex(m, std::fabs(cross(p[1] - a, p[2] - a).z) / 2, p, 3, o); }
        else for (int k = 1; k + 1 < n; ++k) { V3 p[4] = { a, vec(g->node_coordinates + 3 * fn[0], 3), vec(g->node_coordinates + 3 * fn[k], 3), vec(g->node_coordinates + 3 * fn[k + 1], 3) }; simplex(m, std::fabs(dot(p[1] - a, cross(p[2] - a, p[3] - a))) / 6, p, 4, o); }
    }
    return m;
}
static M facemoments(const UnstructuredGrid* g, int f, V3 o)
{
    const int d = g->dimensions, b = g->face_nodepos[f], n = g->face_nodepos[f + 1] - b; const int* fn = g->face_nodes + b; M m(13, 0);
    if (d == 2) { V3 p[2] = { vec(g->node_coordinates + 2 * fn[0], 2), vec(g->node_coordinates + 2 * fn[1], 2) }; simplex(m, norm(p[1] - p[0]), p, 2, o); }
    else for (int k = 1; k + 1 < n; ++k) { V3 p[3] = { vec(g->node_coordinates + 3 * fn[0], 3), vec(g->node_coordinates + 3 * fn[k], 3), vec(g->node_coordinates + 3 * fn[k + 1], 3) }; simplex(m, norm(cross(p[1] - p[0], p[2] - p[0])) / 2, p, 3, o); }
    return m;
}
template <class Q> static bool exact(const Q& q, int deg, const M& m, V3 o, int d, const char* what, int id)
{
    M r(13, 0); double x[4] = { 0, 0, 0, -77 };
    for (int k = 0; k < q.numQuadPts(); ++k) {
        q.quadPtCoord(k, x); LD w = q.quadPtWeight(k), y[3] = { (LD)x[0] - o.x, (LD)x[1] - o.y, d == 3 ? (LD)x[2] - o.z : 0 };
        if (!(w >= 0)) { vh::fail("weight", "%s %d degree %d: weight %Lg", what, id, deg, w); return false; }
        r[0] += w; for (int i = 0; i < 3; ++i) { r[1 + i] += w * y[i]; for (int j = 0; j < 3; ++j) r[4 + 3 * i + j] += w * y[i] * y[j]; }
    }
    LD L = 1; for (int i = 0; i < 3; ++i) L = std::max(L, std::sqrt(m[4 + 4 * i] / m[0]));
    // the one-point rule is exact for linear functions where the cell's centre is its centroid (polygons: mean of the corners)
    bool centred = true; for (int i = 0; i < d; ++i) centred = centred && std::fabs(m[1 + i]) < 1e-11L * m[0] * L;
    const int n = deg == 2 ? 13 : centred ? 4 : 1;
    for (int i = 0; i < n; ++i) if (std::fabs(r[i] - m[i]) > 1e-11L * m[0] * (i == 0 ? 1 : i < 4 ? L : L * L)) { vh::fail("integral", "%s %d degree %d: integral of monomial %d is %.14Lg, should be %.14Lg", what, id, deg, i, r[i], m[i]); return false; }
    return true;
}
static bool quadrature(const UnstructuredGrid* g)
{
    const int d = g->dimensions;
    for (int c = 0; c < g->number_of_cells; ++c) {
        V3 o = vec(g->cell_centroids + d * c, d); M m = cellmoments(g, c, o);
        for (int deg = 0; deg < 3; ++deg) { vh::tr(); Opm::CellQuadrature q(*g, c, deg); if (!exact(q, deg, m, o, d, "cell", c)) return false; }
        bool refused = false; try { fl::Quiet z; Opm::CellQuadrature q(*g, c, 3); } catch (const std::exception&) { refused = true; }
        if (!refused) { vh::fail("degree", "cell quadrature of degree 3 is not refused"); return false; }
    }
    for (int f = 0; f < g->number_of_faces; ++f) {
        V3 o = vec(g->face_centroids + d * f, d); M m = facemoments(g, f, o);
        for (int deg = 0; deg < 3; ++deg) { vh::tr(); Opm::FaceQuadrature q(*g, f, deg); if (!exact(q, deg, m, o, d, "face", f)) return false; }
        bool refused = false; try { fl::Quiet z; Opm::FaceQuadrature q(*g, f, 3); } catch (const std::exception&) { refused = true; }
        if (!refused) { vh::fail("degree", "face quadrature of degree 3 is not refused"); return false; }
    }
    return true;
}
// corners, face centroids, edge and interior points of a cell; face >= 0: on that face
struct Pt { double x[3]; I on; };
static std::vector<Pt> points(const UnstructuredGrid* g, int c)
{
    const int d = g->dimensions; std::vector<Pt> r; std::map<int, I> vert;
    for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) { int f = g->cell_faces[j]; for (int k = g->face_nodepos[f]; k < g->face_nodepos[f + 1]; ++k) vert[g->face_nodes[k]].push_back(f); }
    Pt p; std::copy(g->cell_centroids + d * c, g->cell_centroids + d * c + d, p.x); r.push_back(p);
    for (std::map<int, I>::iterator v = vert.begin(); v != vert.end(); ++v) {
        const double* n = g->node_coordinates + d * v->first; Pt a; std::copy(n, n + d, a.x); a.on = v->second; r.push_back(a);
        for (int i = 0; i < d; ++i) a.x[i] = 0.3 * n[i] + 0.7 * r[0].x[i]; a.on.clear(); r.push_back(a);
    }
    for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) {
        int f = g->cell_faces[j], b = g->face_nodepos[f], n = g->face_nodepos[f + 1] - b; Pt a; a.on.assign(1, f);
        std::copy(g->face_centroids + d * f, g->face_centroids + d * f + d, a.x); r.push_back(a);
        for (int k = 0; k < n; ++k) { const double* u = g->node_coordinates + d * g->face_nodes[b + k]; const double* v = g->node_coordinates + d * g->face_nodes[b + (k + 1) % n]; for (int i = 0; i < d; ++i) a.x[i] = 0.6 * u[i] + 0.4 * v[i]; r.push_back(a); }
    }
    return r;
}
// every corner has as many faces as there are dimensions
static bool simple(const UnstructuredGrid* g)
{
    for (int c = 0; c < g->number_of_cells; ++c) { std::map<int, int> n; for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) for (int f = g->cell_faces[j], k = g->face_nodepos[f]; k < g->face_nodepos[f + 1]; ++k) ++n[g->face_nodes[k]]; for (std::map<int, int>::iterator i = n.begin(); i != n.end(); ++i) if (i->second != g->dimensions) return false; }
    return true;
}
static bool interpolation(const UnstructuredGrid* g, bool all)
{
    const int d = g->dimensions, nf = g->number_of_faces; fl::Quiet z; const bool s = simple(g);
    bool refused = false; try { Opm::WachspressCoord w(*g); } catch (const std::exception&) { refused = true; }
    if (refused == s) { vh::fail("corner", s ? "a grid of simple cells is refused" : "a cell whose corner has the wrong number of faces is not refused"); return false; }
    Opm::VelocityInterpolationConstant con(*g);
    Opm::VelocityInterpolationECVI* ecv = s ? new Opm::VelocityInterpolationECVI(*g) : 0; Opm::WachspressCoord* wac = s ? new Opm::WachspressCoord(*g) : 0;
    bool ok = true; double v[4] = { 0, 0, 0, 4.5 };
    for (int c = 0; c < g->number_of_cells && ok; ++c) {
        std::vector<Pt> P = points(g, c); double size = 0; for (size_t k = 0; k < P.size(); ++k) for (int i = 0; i < d; ++i) size = std::max(size, std::fabs(P[k].x[i] - P[0].x[i]));
        if (s) {
            const int n = wac->numCorners(c); V b(n + 1, 9.25);
            for (size_t k = 0; k < P.size() && ok; ++k) {
                wac->cartToBary(c, P[k].x, &b[0]); vh::tr(); double sum = 0, x[3] = { 0, 0, 0 };
                for (int i = 0; i < n; ++i) { sum += b[i]; if (!(b[i] >= -1e-11)) { vh::fail("barycentric", "cell %d point %d: coordinate %g", c, (int)k, b[i]); ok = false; }
                    const double* y = g->node_coordinates + d * wac->cornerInfo()[c][i].vertex; for (int j = 0; j < d; ++j) x[j] += b[i] * (y[j] - P[0].x[j]); }
                if (!(std::fabs(sum - 1) < 1e-11)) { vh::fail("barycentric", "cell %d point %d: coordinates sum to %.15g", c, (int)k, sum); ok = false; }
                for (int j = 0; j < d; ++j) if (!(std::fabs(x[j] + P[0].x[j] - P[k].x[j]) < 1e-10 * size)) { vh::fail("barycentric", "cell %d point %d: coordinates give component %d as %g, should be %g", c, (int)k, j, x[j] + P[0].x[j], P[k].x[j]); ok = false; }
                if (b[n] != 9.25) { vh::fail("barycentric", "writes more than one coordinate per corner"); ok = false; }
            }
        }
        // constant velocities
        for (int u = 0; u < (all ? 27 : 5) && ok; ++u) {
            double w[3] = { (u % 3) - 1.0, 0.5 * (u / 3 % 3) - 0.75, d == 3 ? 2 - 1.5 * (u / 9) : 0 }; V q(nf); for (int f = 0; f < nf; ++f) for (int i = 0; i < d; ++i) q[f] += w[i] * g->face_normals[d * f + i];
            con.setupFluxes(&q[0]); if (s) ecv->setupFluxes(&q[0]);
            for (size_t k = 0; k < P.size() && ok; ++k) for (int m = 0; m < (s ? 2 : 1) && ok; ++m) {
                if (m) ecv->interpolate(c, P[k].x, v); else con.interpolate(c, P[k].x, v); vh::tr();
                for (int i = 0; i < d; ++i) if (!(std::fabs(v[i] - w[i]) < 1e-9)) { vh::fail("constant", "%s: cell %d point %d component %d is %g, should be %g", m ? "ECVI" : "constant", c, (int)k, i, v[i], w[i]); ok = false; }
            }
        }
        // any fluxes on the cell's faces
        const int n = g->cell_facepos[c + 1] - g->cell_facepos[c]; int pat = 1; for (int i = 0; i < n; ++i) pat *= 3;
        for (int p = 0; p < pat && ok; p += all ? 1 : n > 6 ? 61 : 7) {
            V q(nf, 0.0); for (int f = 0; f < nf; ++f) q[f] = 0.01 * f; for (int i = 0, r = p; i < n; ++i, r /= 3) { int f = g->cell_faces[g->cell_facepos[c] + i]; q[f] = g->face_areas[f] * (r % 3 - 1) * (1 + 0.3 * i); }
            con.setupFluxes(&q[0]); con.interpolate(c, P[0].x, v); vh::tr();
            for (int i = 0; i < d; ++i) { double e = 0, sc = 0; for (int j = 0; j < n; ++j) { int f = g->cell_faces[g->cell_facepos[c] + j]; double o = g->face_cells[2 * f] == c ? q[f] : -q[f], t = o * (g->face_centroids[d * f + i] - P[0].x[i]) / g->cell_volumes[c]; e += t; sc += std::fabs(t); }
                if (!(std::fabs(v[i] - e) <= 1e-12 * (1 + sc))) { vh::fail("mean", "cell %d component %d of the constant velocity is %g, should be %g", c, i, v[i], e); ok = false; } }
            if (!s) continue;
            ecv->setupFluxes(&q[0]);
            for (size_t k = 0; k < P.size() && ok; ++k) {
                ecv->interpolate(c, P[k].x, v); vh::tr();
                for (size_t j = 0; j < P[k].on.size(); ++j) { int f = P[k].on[j]; double t = 0, sc = 0; for (int i = 0; i < d; ++i) { t += v[i] * g->face_normals[d * f + i]; sc += std::fabs(v[i] * g->face_normals[d * f + i]); } if (!(std::fabs(t - q[f]) <= 1e-9 * (1 + sc))) { vh::fail("normal", "cell %d point %d on face %d: normal velocity %g, flux %g", c, (int)k, f, t, q[f]); ok = false; } }
            }
            vh::outcome(vh::hash(v, sizeof v));
        }
    }
    delete ecv; delete wac;
    return ok;
}
static bool box(const UnstructuredGrid* g, int c)
{
    const int d = g->dimensions, n = g->cell_facepos[c + 1] - g->cell_facepos[c]; if (n != 2 * d) return false;
    for (int j = g->cell_facepos[c]; j < g->cell_facepos[c + 1]; ++j) { int f = g->cell_faces[j], nz = 0; for (int i = 0; i < d; ++i) nz += g->face_normals[d * f + i] != 0; if (nz != 1) return false; }
    return true;
}
static bool basis(const UnstructuredGrid* g)
{
    const int d = g->dimensions; fl::Quiet z;
    for (int kind = 0; kind < 2; ++kind) for (int deg = -1; deg < 3; ++deg) {
        Opm::DGBasisInterface* b = 0; try { if (kind) b = new Opm::DGBasisMultilin(*g, deg); else b = new Opm::DGBasisBoundedTotalDegree(*g, deg); } catch (const std::exception&) {}
        if ((b != 0) != (deg == 0 || deg == 1)) { vh::fail("degree", "degree %d %s", deg, b ? "is accepted" : "is refused"); delete b; return false; }
        if (!b) continue;
        const int nb = b->numBasisFunc(), want = deg == 0 ? 1 : kind ? 1 << d : 1 + d; bool ok = true, scaled = false;
        if (nb != want || b->dimensions() != d || b->degree() != deg) { vh::fail("size", "%d functions of degree %d in %d dimensions, should be %d of %d in %d", nb, b->degree(), b->dimensions(), want, deg, d); ok = false; }
        for (int c = 0; c < g->number_of_cells && ok; ++c) {
            std::vector<Pt> P = points(g, c); V coef(nb); V e(nb + 1, 3.5), ge(nb * d + 1, 3.5), e2(nb), e1(nb);
            for (int k = 0; k < nb; ++k) coef[k] = 0.7 * ((k * 5 + 2) % 7) - 1.1;
            for (size_t k = 0; k < P.size() && ok; ++k) {
                vh::tr(3); b->eval(c, P[k].x, &e[0]); b->evalGrad(c, P[k].x, &ge[0]);
                if (e[nb] != 3.5 || ge[nb * d] != 3.5) { vh::fail("size", "evaluation writes too much"); ok = false; }
                // values: monomials about the centroid, or products of one-dimensional hat functions
                for (int i = 0; i < nb; ++i) {
                    LD w = 1; if (deg && !kind && i) w = (LD)P[k].x[i - 1] - g->cell_centroids[d * c + i - 1];
                    if (deg && kind) for (int j = 0; j < d; ++j) { LD t = (LD)P[k].x[j] - g->cell_centroids[d * c + j]; w *= i >> (d - 1 - j) & 1 ? 0.5L + t : 0.5L - t; }
                    if (!(std::fabs(e[i] - w) <= 1e-12L * (1 + std::fabs(w)))) { vh::fail("value", "basis %d degree %d function %d at point %d is %g, should be %Lg", kind, deg, i, (int)k, e[i], w); ok = false; }
                    // multilinear functions are exact under central differences along the axes
                    for (int j = 0; j < d && ok; ++j) { double x[3]; std::copy(P[k].x, P[k].x + d, x); x[j] += 0.25; b->eval(c, x, &e1[0]); double xp = x[j]; x[j] -= 0.5; b->eval(c, x, &e2[0]); double der = (e1[i] - e2[i]) / (xp - x[j]);
                        if (!(std::fabs(ge[i * d + j] - der) <= 1e-10 * (1 + std::fabs(der) + std::fabs(e1[i]) + std::fabs(e2[i])))) { vh::fail("gradient", "basis %d degree %d function %d derivative %d at point %d is %g, should be %g", kind, deg, i, j, (int)k, ge[i * d + j], der); ok = false; } }
                }
                const double f0 = b->evalFunc(c, &coef[0], P[k].x); double s = 0, sc = 1; for (int i = 0; i < nb; ++i) s += coef[i] * e[i], sc += std::fabs(coef[i] * e[i]);
                if (!(std::fabs(f0 - s) <= 1e-13 * sc)) { vh::fail("function", "basis %d degree %d: function %g, should be %g", kind, deg, f0, s); ok = false; }
                for (int inc = 0; inc < 3; ++inc) { V a = coef; const double dv = inc - 0.8; b->addConstant(dv, &a[0]); const double f1 = b->evalFunc(c, &a[0], P[k].x); if (!(std::fabs(f1 - f0 - dv) <= 1e-12 * sc)) {
                    // recorded: the tensor basis of degree one adds only the increment over the number of functions
                    if (kind && deg && std::fabs(f1 - f0 - dv / nb) <= 1e-12 * sc) { scaled = true; continue; }
                    vh::fail("constant", "basis %d degree %d: adding %g changes the function by %g", kind, deg, dv, f1 - f0); ok = false; } }
                for (int q = 0; q < 4 && ok; ++q) {
                    V a = coef; const double fac = q * 0.5 - 0.25; b->multiplyGradient(fac, &a[0]);
                    for (int j = 0; j < d; ++j) { double g0 = 0, g1 = 0; for (int i = 0; i < nb; ++i) { g0 += coef[i] * ge[i * d + j]; g1 += a[i] * ge[i * d + j]; } if (!(std::fabs(g1 - fac * g0) <= 1e-11 * (sc + std::fabs(g0)) * (1 + std::fabs(ge[j])))) { vh::fail("slope", "basis %d degree %d: gradient component %d times %g is %g, was %g", kind, deg, j, fac, g1, g0); ok = false; } }
                    if (!(std::fabs(b->functionAverage(&a[0]) - b->functionAverage(&coef[0])) <= 1e-12 * sc)) { vh::fail("slope", "basis %d degree %d: scaling the gradient changes the average", kind, deg); ok = false; }
                }
            }
            // average against the exact integral (a box for the tensor basis: the cross terms then vanish)
            if (ok && (!kind || box(g, c))) {
                V3 o = vec(g->cell_centroids + d * c, d); LD s = 0;
                if (!kind) { M m = cellmoments(g, c, o); s = coef[0]; for (int i = 1; i < nb; ++i) if (d == 3 || std::fabs(m[1]) + std::fabs(m[2]) < 1e-11L * m[0]) s += coef[i] * m[i] / m[0]; }
                else if (deg == 0) s = coef[0];
                else for (int i = 0; i < nb; ++i) s += coef[i] / (LD)nb;
                if (!(std::fabs(b->functionAverage(&coef[0]) - s) <= 1e-10L)) { vh::fail("average", "basis %d degree %d: average %g, should be %Lg", kind, deg, b->functionAverage(&coef[0]), s); ok = false; }
            }
        }
        delete b; if (!ok) return false;
        if (scaled) vh::fail("constant-divided", "basis %d degree %d: adding a constant changes the function by that constant divided by the number of functions (%d)", kind, deg, nb);
    }
    return true;
}
static I faces(const char* s) { I r; for (; *s; ++s) r.push_back(*s - '0'); return r; }
static Poly shape(int k)
{
    Poly P;
    if (k == 0 || k == 1) { for (int i = 0; i < 8; ++i) { double t = k && i >= 4 ? 0.5 : 1; P.p.push_back(mk(t * (i & 1), t * (i >> 1 & 1), i >> 2)); } const char* f[] = { "0231", "4576", "0462", "1375", "0154", "2673" }; for (int i = 0; i < 6; ++i) P.faces.push_back(faces(f[i])); }
    if (k == 2) { P.p.push_back(mk(0, 0, 0)); P.p.push_back(mk(1, 0, 0)); P.p.push_back(mk(0, 1, 0)); P.p.push_back(mk(0, 0, 1)); const char* f[] = { "021", "013", "032", "123" }; for (int i = 0; i < 4; ++i) P.faces.push_back(faces(f[i])); }
    if (k == 3) { for (int i = 0; i < 2; ++i) { P.p.push_back(mk(0, 0, i)); P.p.push_back(mk(1, 0, i)); P.p.push_back(mk(0, 1, i)); } const char* f[] = { "021", "345", "0143", "1254", "2035" }; for (int i = 0; i < 5; ++i) P.faces.push_back(faces(f[i])); }
    if (k == 4) { P.p.push_back(mk(0, 0, 0)); P.p.push_back(mk(1, 0, 0)); P.p.push_back(mk(1, 1, 0)); P.p.push_back(mk(0, 1, 0)); P.p.push_back(mk(0.25, 0.5, 1)); const char* f[] = { "0321", "014", "124", "234", "304" }; for (int i = 0; i < 5; ++i) P.faces.push_back(faces(f[i])); }
    if (k > 4) { // a pentagonal prism and a hexagonal frustum
        static const double q[2][6][2] = { { { 0, 0 }, { 1, 0 }, { 1.5, 0.75 }, { 0.5, 1.5 }, { -0.25, 1 } }, { { 0, 0 }, { 1, -0.25 }, { 1.75, 0.5 }, { 1.5, 1.25 }, { 0.5, 1.5 }, { -0.25, 0.75 } } };
        const int n = k; const double t = k == 6 ? 0.5 : 1; I lo, hi;
        for (int l = 0; l < 2; ++l) for (int i = 0; i < n; ++i) { const double w = l ? t : 1; P.p.push_back(mk(w * q[k - 5][i][0], w * q[k - 5][i][1], l)); }
        for (int i = 0; i < n; ++i) { lo.push_back(n - 1 - i); hi.push_back(n + i); const int j = (i + 1) % n; I f; f.push_back(i); f.push_back(j); f.push_back(n + j); f.push_back(n + i); P.faces.push_back(f); }
        P.faces.push_back(lo); P.faces.push_back(hi);
    }
    return P;
}
void explore()
{
    const bool T = vh::thorough();
    for (int gi = 0; gi < fl::NGRID; ++gi) {
        if (!vh::begin(vh::fmt("grid/%s", fl::gridname(gi)))) continue;
        UnstructuredGrid* g = fl::grid(gi); vh::state();
        if (quadrature(g) && basis(g)) interpolation(g, true);
        destroy_grid(g);
    }
    // convex polygons with corners on a lattice
    const int n = T ? 5 : 4; std::vector<I> poly;
    for (unsigned s = 1; s < 1u << (n * n); ++s) {
        if (__builtin_popcount(s) < 3 || __builtin_popcount(s) > 6) continue;
        I id; for (int i = 0; i < n * n; ++i) if (s >> i & 1) id.push_back(i);
        // order around the lowest point; strictly convex or skip
        const int x0 = id[0] % n, y0 = id[0] / n;
        std::sort(id.begin() + 1, id.end(), [&](int a, int b) { return (a % n - x0) * (b / n - y0) - (a / n - y0) * (b % n - x0) > 0; });
        bool ok = true; for (size_t k = 0; k < id.size() && ok; ++k) { int a = id[k], b = id[(k + 1) % id.size()], c = id[(k + 2) % id.size()]; ok = (b % n - a % n) * (c / n - b / n) - (b / n - a / n) * (c % n - b % n) > 0; }
        if (ok) poly.push_back(id);
    }
    const int block = 40;
    for (size_t b = 0; b < poly.size(); b += block) {
        if (!vh::begin(vh::fmt("polygon/%d", (int)(b / block)))) continue;
        for (size_t k = b; k < std::min(poly.size(), b + block); ++k) {
            Poly P; for (size_t i = 0; i < poly[k].size(); ++i) { P.p.push_back(mk(poly[k][i] % n * 0.75 + 3, poly[k][i] / n - 2, 0)); I f; f.push_back(i); f.push_back((i + 1) % poly[k].size()); P.faces.push_back(f); }
            UnstructuredGrid* g = onecell(P, 2, (unsigned)(k * 2654435761u >> 7), 0); vh::state();
            bool ok = quadrature(g) && basis(g) && interpolation(g, T); destroy_grid(g); if (!ok) break;
        }
    }
    // affine images of polyhedra
    for (int sh = 0; sh < 7; ++sh) for (int a = 0; a < 729; ++a) {
        if (!vh::begin(vh::fmt("solid/%d/%d", sh, a))) continue;
        for (int a2 = 0; a2 < 27; a2 += T ? sh > 4 ? 4 : 1 : sh > 4 ? 8 : 2) {
            const int k = a + 729 * a2; double A[9]; for (int i = 0, r = k; i < 9; ++i, r /= 3) A[i] = (r % 3) * 0.75 - 0.5; // -0.5, 0.25, 1
            const double det = A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]);
            if (std::fabs(det) < 0.05) continue;
            Poly P = shape(sh); for (size_t i = 0; i < P.p.size(); ++i) { V3 x = P.p[i]; P.p[i] = mk(A[0] * x.x + A[1] * x.y + A[2] * x.z - 1, A[3] * x.x + A[4] * x.y + A[5] * x.z + 2, A[6] * x.x + A[7] * x.y + A[8] * x.z); }
            if (det < 0) for (size_t f = 0; f < P.faces.size(); ++f) std::reverse(P.faces[f].begin(), P.faces[f].end());
            UnstructuredGrid* g = onecell(P, 3, (unsigned)((k * 2654435761u) >> 9), k % 4); vh::state();
            bool ok = quadrature(g) && (k % 4 || basis(g)) && ((!T && k % 8) || interpolation(g, false)); destroy_grid(g); if (!ok) break;
        }
    }
}
