// EclipseGridInspector queries and CornerPointChopper sub-grids against direct geometry.
#include "deck.hpp"
#include <opm/core/io/eclipse/EclipseGridInspector.hpp>
#include <opm/core/io/eclipse/CornerpointChopper.hpp>
#include <opm/core/io/eclipse/SpecialEclipseFields.hpp>

struct Model {
    int n[3];
    std::vector<double> coord, z, poro, permx, permy, permz;
    std::vector<int> act, sat;
    double x(int i, int j, int end) const { return coord[6 * (i + (n[0] + 1) * j) + 3 * end]; }
    double y(int i, int j, int end) const { return coord[6 * (i + (n[0] + 1) * j) + 3 * end + 1]; }
    // corner q (bit 0: i, bit 1: j, bit 2: k) of cell (i,j,k)
    double corner(int i, int j, int k, int q) const {
        return z[(2 * i + (q & 1)) + 2 * n[0] * ((2 * j + (q >> 1 & 1)) + 2 * n[1] * (2 * k + (q >> 2)))];
    }
    int cell(int i, int j, int k) const { return i + n[0] * (j + n[1] * k); }
};
// kind 0: flat and regular; 1: dipping, irregular pillars, uneven layers; 2: faulted columns and zero layers, far from the origin; 3: tilted pillars; 4: pillars leaning outwards, every corner at its own height
static Model model(int nx, int ny, int nz, int kind)
{
    Model m; m.n[0] = nx; m.n[1] = ny; m.n[2] = nz;
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
        double X = 2.0 * i, Y = 1.5 * j, t = 0;
        if (kind == 1) { X += 0.1 * j + 0.05 * i * i; Y += 0.2 * i + 0.07 * i * j; }
        if (kind == 2) { X += 458123.375; Y += 6700012.625; }
        if (kind == 3) t = 0.75;
        if (kind == 4) t = i || j ? 0.25 : -0.5;
        double a[6] = { X, Y, kind == 2 ? 2000. : 0., X + t, Y - t / 2, kind == 2 ? 2100. : 20. };
        m.coord.insert(m.coord.end(), a, a + 6);
    }
    m.z.resize(8 * nx * ny * nz);
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) for (int q = 0; q < 8; ++q) {
        int ii = i + (q & 1), jj = j + (q >> 1 & 1), kk = k + (q >> 2);
        double v = 1.0 + kk;
        if (kind == 1) v = 1.0 + 1.5 * kk + 0.25 * kk * kk + 0.125 * ii - 0.0625 * jj + 0.03125 * ii * jj;
        if (kind == 2) v = 2010.5 + 4.0 * (kk > 1 ? kk - (i == 1) : kk) + 1.25 * i - 0.5 * j;
        if (kind == 3) v = 1.0 + 1.5 * kk + 0.25 * ii;
        if (kind == 4) v = 1.0 + 2.0 * kk + 0.03125 * ((i * 7 + j * 5 + kk * 3 + (q & 3) * 11 + i * j * 2 + 3) % 23);
        m.z[(2 * i + (q & 1)) + 2 * nx * ((2 * j + (q >> 1 & 1)) + 2 * ny * (2 * k + (q >> 2)))] = v;
    }
    for (int c = 0; c < nx * ny * nz; ++c) {
        m.act.push_back(c % 3 != 1); m.sat.push_back(1 + c % 4);
        m.poro.push_back((c + 1) / 64.0); m.permx.push_back(100 + c / 3.0); m.permy.push_back(c == 2 ? 0 : 1e-3 * (c + 1)); m.permz.push_back(c + 0.5);
    }
    return m;
}
template <class V> static std::string kw(const char* k, const V& v) { return std::string(k) + "\n" + dk::list(v) + "\n/\n\n"; }
// fields: bit 0 ACTNUM+SATNUM, 1 PORO+PERMX, 2 PERMY+PERMZ
static std::string text(const Model& m, bool dimens, int fields, const char* unit = "")
{
    std::string s = unit;
    s += dimens ? vh::fmt("DIMENS\n%d %d %d /\n\n", m.n[0], m.n[1], m.n[2]) : vh::fmt("SPECGRID\n%d %d %d 1 F /\n\n", m.n[0], m.n[1], m.n[2]);
    s += kw("COORD", m.coord) + kw("ZCORN", m.z);
    if (fields & 1) s += kw("ACTNUM", m.act) + kw("SATNUM", m.sat);
    if (fields & 2) s += kw("PORO", m.poro) + kw("PERMX", m.permx);
    if (fields & 4) s += kw("PERMY", m.permy) + kw("PERMZ", m.permz);
    return s;
}
#define THROWS(e) ([&]() { try { e; } catch (const std::exception&) { return true; } return false; }())

static void inspect(const Model& m, bool dimens, bool noz)
{
    std::string t = text(m, dimens, 0);
    dk::Deck d = dk::parse(t, false);
    Opm::EclipseGridInspector in(*d);
    std::tr1::array<int, 3> s = in.gridSize();
    VH_CHECK(s[0] == m.n[0] && s[1] == m.n[1] && s[2] == m.n[2], "size", "%d %d %d", s[0], s[1], s[2]);
    double lim[6] = { 1e300, -1e300, 1e300, -1e300, *std::min_element(m.z.begin(), m.z.end()), *std::max_element(m.z.begin(), m.z.end()) };
    for (int p = 0; p < (int)m.coord.size() / 6; ++p) for (int e = 0; e < 2; ++e) for (int a = 0; a < 2; ++a) {
        lim[2 * a] = std::min(lim[2 * a], m.coord[6 * p + 3 * e + a]); lim[2 * a + 1] = std::max(lim[2 * a + 1], m.coord[6 * p + 3 * e + a]);
    }
    std::tr1::array<double, 6> L = {{ 0, 0, 0, 0, 0, 0 }};
    try { L = in.getGridLimits(); } catch (const std::exception& e) { vh::fail("limits", "refused"); return; }
    for (int a = 0; a < 6; ++a) VH_CHECK(L[a] == lim[a], "limits", "%d: %g for %g", a, L[a], lim[a]);
    int c = 0;
    for (int k = 0; k < m.n[2]; ++k) for (int j = 0; j < m.n[1]; ++j) for (int i = 0; i < m.n[0]; ++i, ++c) {
        vh::tr();
        std::tr1::array<int, 3> x = in.cellIdxToLogicalCoords(c);
        VH_CHECK(x[0] == i && x[1] == j && x[2] == k, "coordinates", "cell %d: %d %d %d", c, x[0], x[1], x[2]);
        std::tr1::array<double, 8> z = in.cellZvals(i, j, k);
        for (int q = 0; q < 8; ++q) VH_CHECK(z[q] == m.corner(i, j, k, q), "corners", "cell %d corner %d", c, q);
        // base area by the shoelace formula; exact volume where the base is a parallelogram
        const int qi[4] = { 0, 1, 1, 0 }, qj[4] = { 0, 0, 1, 1 };
        double area = 0, h = 0;
        for (int q = 0; q < 4; ++q) {
            int r = (q + 1) % 4;
            double xa = m.x(i + qi[q], j + qj[q], 0) - m.x(i, j, 0), ya = m.y(i + qi[q], j + qj[q], 0) - m.y(i, j, 0), xb = m.x(i + qi[r], j + qj[r], 0) - m.x(i, j, 0), yb = m.y(i + qi[r], j + qj[r], 0) - m.y(i, j, 0);
            area += (xa * yb - xb * ya) / 2;
            h += (m.corner(i, j, k, 4 + q) - m.corner(i, j, k, q)) / 4;
        }
        double v = in.cellVolumeVerticalPillars(i, j, k), w = in.cellVolumeVerticalPillars(c);
        VH_CHECK(vh::close_to(v, area * h, 1e-9, 1e-12) && v == w, "volume", "cell %d: %.15g, %.15g for %.15g", c, v, w, area * h);
        // dips: mean slope of the edges that do not touch the top or bottom of the model
        double dx = m.x(i + 1, j, 0) - m.x(i, j, 0), dy = m.y(i, j + 1, 0) - m.y(i, j, 0), sx = 0, sy = 0; int nx = 0, ny = 0; bool odd = false;
        for (int q = 0; q < 8; ++q) {
            double lo = m.corner(i, j, k, q), bad = q < 4 ? lim[4] : lim[5], other = q < 4 ? lim[5] : lim[4];
            if (lo == other) odd = true;
            if (!(q & 1)) { double hi = m.corner(i, j, k, q | 1); if (lo != bad && hi != bad) { ++nx; sx += (hi - lo) / dx; } }
            if (!(q & 2)) { double hi = m.corner(i, j, k, q | 2); if (lo != bad && hi != bad) { ++ny; sy += (hi - lo) / dy; } }
        }
        if (!odd) {
            std::pair<double, double> p = in.cellDips(i, j, k), r = in.cellDips(c);
            if (nx) VH_CHECK(vh::close_to(p.first, sx / nx, 1e-9, 1e-12) && r.first == p.first, "dip", "cell %d x: %.15g for %.15g", c, p.first, sx / nx);
            if (ny) VH_CHECK(vh::close_to(p.second, sy / ny, 1e-9, 1e-12) && r.second == p.second, "dip", "cell %d y: %.15g for %.15g", c, p.second, sy / ny);
        }
    }
    for (int a = 0; a < 3; ++a) for (int hi = 0; hi < 2; ++hi) {
        int b[3] = { 0, 0, 0 }; b[a] = hi ? m.n[a] : -1;
        VH_CHECK(THROWS(in.cellVolumeVerticalPillars(b[0], b[1], b[2])), "outside", "volume outside the grid");
        VH_CHECK(THROWS(in.cellDips(b[0], b[1], b[2])), "outside", "dips outside the grid");
    }
}

static void expect(const std::vector<double>& got, const std::vector<double>& want, const char* what, const std::string& at, double tol, double abs)
{
    if (got.size() != want.size()) { vh::fail("field", "%s: %s has %d values, expected %d", at.c_str(), what, (int)got.size(), (int)want.size()); return; }
    for (size_t i = 0; i < got.size(); ++i) if (!vh::close_to(got[i], want[i], tol, abs)) { vh::fail("field", "%s: %s[%d] = %.17g, expected %.17g", at.c_str(), what, (int)i, got[i], want[i]); return; }
}
static void compare(const Opm::EclipseGridParser& p, const int* n, const std::vector<double>& coord, bool reset, const std::vector<double>& z, const Model& m, const std::vector<int>& map, int fields, const std::string& at, double tol, double abs)
{
    if (!p.hasField("SPECGRID") || !p.hasField("COORD") || !p.hasField("ZCORN")) { vh::fail("field", "%s: geometry missing", at.c_str()); return; }
    const std::vector<int>& d = p.getSPECGRID().dimensions;
    if (d.size() < 3 || d[0] != n[0] || d[1] != n[1] || d[2] != n[2]) { vh::fail("field", "%s: dimensions", at.c_str()); return; }
    std::vector<double> c = p.getFloatingPointValue("COORD");
    if (reset && c.size() == coord.size()) for (size_t i = 2; i < c.size(); i += 3) { if (i % 6 == 5 && !(c[i] > 0)) vh::fail("field", "%s: pillar without height", at.c_str()); else if (i % 6 == 2 && c[i] != 0) vh::fail("field", "%s: pillar does not start at 0", at.c_str()); c[i] = coord[i]; }
    expect(c, coord, "COORD", at, tol, abs);
    expect(p.getFloatingPointValue("ZCORN"), z, "ZCORN", at, tol, abs);
    const std::vector<double>* f[4] = { &m.poro, &m.permx, &m.permy, &m.permz }; const char* nm[4] = { "PORO", "PERMX", "PERMY", "PERMZ" };
    for (int q = 0; q < 4; ++q) {
        if (p.hasField(nm[q]) != bool(fields & (q < 2 ? 2 : 4))) { vh::fail("field", "%s: %s present or missing", at.c_str(), nm[q]); continue; }
        if (!p.hasField(nm[q])) continue;
        std::vector<double> w; for (size_t i = 0; i < map.size(); ++i) w.push_back((*f[q])[map[i]]);
        expect(p.getFloatingPointValue(nm[q]), w, nm[q], at, tol, 0);
    }
    for (int q = 0; q < 2; ++q) {
        const char* k = q ? "SATNUM" : "ACTNUM";
        if (p.hasField(k) != bool(fields & 1)) { vh::fail("field", "%s: %s present or missing", at.c_str(), k); continue; }
        if (!p.hasField(k)) continue;
        std::vector<int> w; for (size_t i = 0; i < map.size(); ++i) w.push_back(q ? m.sat[map[i]] : m.act[map[i]]);
        VH_CHECK(p.getIntegerValue(k) == w, "field", "%s: %s", at.c_str(), k);
    }
}

static void chop(const Model& m, int fields, int order)
{
    const std::string path = vh::scratch() + "/deck.grdecl", outp = vh::scratch() + "/out.grdecl";
    { std::ofstream o(path.c_str()); o << text(m, false, fields); }
    Opm::CornerPointChopper ch(path);
    const int* n = m.n;
    double top = -1e300, bot = 1e300, lo = *std::min_element(m.z.begin(), m.z.end()), hi = *std::max_element(m.z.begin(), m.z.end());
    for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) for (int q = 0; q < 4; ++q) { top = std::max(top, m.corner(i, j, 0, q)); bot = std::min(bot, m.corner(i, j, n[2] - 1, 4 + q)); }
    VH_CHECK(ch.zLimits().first == top && ch.zLimits().second == bot, "limits", "z limits");
    VH_CHECK(ch.abszLimits().first == lo && ch.abszLimits().second == hi, "limits", "absolute z limits");
    for (int a = 0; a < 3; ++a) VH_CHECK(ch.dimensions()[a] == n[a], "limits", "dimensions");
    // a box is accepted exactly when it lies within the model
    for (int w = 0; w < 10; ++w) {
        int v[6] = { 0, n[0], n[0], 0, n[1], n[1] }; double u[3] = { lo, hi - lo, hi };
        switch (w) { case 0: v[0] = -1; break; case 1: ++v[1]; break; case 2: ++v[2]; break; case 3: v[3] = -1; break; case 4: ++v[4]; break; case 5: ++v[5]; break; case 6: u[0] -= 0.5; break; case 7: u[1] += 0.5; break; case 8: u[2] += 0.5; break; }
        VH_CHECK(THROWS(ch.verifyInscribedShoebox(v[0], v[1], v[2], v[3], v[4], v[5], u[0], u[1], u[2])) == (w < 9), "box", "case %d", w);
    }
    std::set<double> zs; zs.insert(lo); zs.insert(hi); zs.insert(top); zs.insert(bot); zs.insert(lo - 1); zs.insert(hi + 1); zs.insert((top + bot) / 2); zs.insert(m.corner(0, 0, n[2] - 1, 0)); zs.insert(m.corner(n[0] - 1, 0, 0, 5));
    zs.insert(top + 0.25 * (bot - top) + 1e-3); zs.insert(bot - 0.125 * (bot - top));
    std::vector<double> zv(zs.begin(), zs.end()); if (order) std::reverse(zv.begin(), zv.end());
    for (int i0 = 0; i0 < n[0]; ++i0) for (int i1 = i0 + 1; i1 <= n[0]; ++i1) for (int j0 = 0; j0 < n[1]; ++j0) for (int j1 = j0 + 1; j1 <= n[1]; ++j1)
        for (size_t a = 0; a < zv.size(); ++a) for (size_t b = 0; b < zv.size(); ++b) for (int reset = 0; reset < 2; ++reset) {
            double z0 = std::max(zv[a], top), z1 = std::min(zv[b], bot);
            std::string at = vh::fmt("i %d-%d j %d-%d z %.17g-%.17g reset %d", i0, i1, j0, j1, zv[a], zv[b], reset);
            bool threw = THROWS(ch.chop(i0, i1, j0, j1, zv[a], zv[b], reset));
            vh::tr();
            if (z0 >= z1) { VH_CHECK(threw, "empty", "%s accepted", at.c_str()); continue; }
            if (threw) { vh::fail("refused", "%s", at.c_str()); continue; }
            int k0 = n[2], k1 = 0;
            for (int k = 0; k < n[2]; ++k) {
                double mx = -1e300, mn = 1e300;
                for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) for (int q = 0; q < 8; ++q) { mx = std::max(mx, m.corner(i, j, k, q)); mn = std::min(mn, m.corner(i, j, k, q)); }
                if (mx > z0) k0 = std::min(k0, k);
                if (mn < z1) k1 = std::max(k1, k + 1);
            }
            const int nn[3] = { i1 - i0, j1 - j0, k1 - k0 };
            bool same = true; for (int q = 0; q < 3; ++q) same = same && ch.newDimensions()[q] == nn[q];
            if (!same) { vh::fail("size", "%s: %d layers for %d", at.c_str(), ch.newDimensions()[2], nn[2]); continue; }
            std::vector<double> coord, z(8 * nn[0] * nn[1] * nn[2]); std::vector<int> map;
            for (int j = j0; j <= j1; ++j) for (int i = i0; i <= i1; ++i) {
                const double* c = &m.coord[6 * (i + (n[0] + 1) * j)];
                for (int e = 0; e < 2; ++e) { coord.push_back(c[3 * e] - (reset ? m.x(i0, j0, 0) : 0)); coord.push_back(c[3 * e + 1] - (reset ? m.y(i0, j0, 0) : 0)); coord.push_back(c[3 * e + 2]); }
            }
            std::vector<double> thick(nn[0] * nn[1] * 4, 0.0);
            for (int k = k0; k < k1; ++k) for (int j = j0; j < j1; ++j) for (int i = i0; i < i1; ++i) {
                map.push_back(m.cell(i, j, k));
                for (int q = 0; q < 8; ++q) z[(2 * (i - i0) + (q & 1)) + 2 * nn[0] * ((2 * (j - j0) + (q >> 1 & 1)) + 2 * nn[1] * (2 * (k - k0) + (q >> 2)))] = std::min(z1, std::max(z0, m.corner(i, j, k, q))) - (reset ? z0 : 0);
            }
            Opm::EclipseGridParser sp = ch.subparser();
            vh::outcome(vh::fmt("%d %d %d %d %d", nn[0], nn[1], k0, k1, reset));
            compare(sp, nn, coord, reset, z, m, map, fields, at, 1e-15, 0);
            if (sp.hasField("ZCORN")) {     // the box is filled: every column of corners spans it exactly
                const std::vector<double>& zz = sp.getFloatingPointValue("ZCORN");
                for (size_t q = 0; q < zz.size(); ++q) {
                    int x = q % (2 * nn[0]), y = q / (2 * nn[0]) % (2 * nn[1]), l = q / (4 * nn[0] * nn[1]);
                    thick[(x / 2 + nn[0] * (y / 2)) * 4 + x % 2 + 2 * (y % 2)] += l % 2 ? zz[q] : -zz[q];
                }
                for (size_t q = 0; q < thick.size(); ++q) if (!vh::close_to(thick[q], z1 - z0, 1e-9)) { vh::fail("column", "%s: column fills %.15g of %.15g", at.c_str(), thick[q], z1 - z0); break; }
            }
            if ((a + 2 * b + reset + i0 + j1) % (vh::thorough() ? 1 : 4) == 0) {
                ch.writeGrdecl(outp);
                std::ifstream f(outp.c_str()); std::stringstream ss; ss << f.rdbuf();
                try {
                    dk::Deck d = dk::parse(ss.str(), false);
                    compare(*d, nn, coord, reset, z, m, map, fields, at + " (file)", 1e-13, 1e-10);
                } catch (const std::exception& e) { vh::fail("file", "%s: written file refused", at.c_str()); }
            }
        }
}

void explore()
{
    dk::quiet();
    const int mx = vh::thorough() ? 4 : 3;
    for (int nx = 1; nx <= 5; ++nx) for (int ny = 1; ny <= 5; ++ny) for (int nz = 1; nz <= 5; ++nz) for (int kind = 0; kind < 5; ++kind) for (int dim = 0; dim < 2; ++dim)
        if (vh::begin(vh::fmt("inspect:%dx%dx%d:geometry=%d:%s", nx, ny, nz, kind, dim ? "DIMENS" : "SPECGRID"))) inspect(model(nx, ny, nz, kind), dim, false);
    for (int skip = 0; skip < 3; ++skip) for (int w = 0; w < 3; ++w) {
        if (!vh::begin(vh::fmt("inspect:missing=%d:%d", skip, w))) continue;
        Model m = model(2, 1, 2, 1); std::string t;
        if (w == 0) { if (skip != 0) t += kw("COORD", m.coord); if (skip != 1) t += kw("ZCORN", m.z); if (skip != 2) t += "SPECGRID\n2 1 2 1 F /\n"; VH_CHECK(THROWS(dk::Deck d = dk::parse(t, false); Opm::EclipseGridInspector in(*d)), "missing", "accepted"); }
        else {
            std::vector<double> c = m.coord, z = m.z; if (skip == 0) c.pop_back(); if (skip == 1) z.pop_back(); if (skip == 2) z.push_back(1);
            t = "SPECGRID\n2 1 2 1 F /\n" + kw("COORD", c) + kw("ZCORN", z);
            dk::Deck d = dk::parse(t, false); Opm::EclipseGridInspector in(*d);
            if (w == 1) VH_CHECK(THROWS(in.cellVolumeVerticalPillars(0, 0, 0)), "missing", "wrong size accepted");
            else VH_CHECK(THROWS(in.cellDips(0, 0, 0)) && (skip == 0 || THROWS(in.cellZvals(0, 0, 0))), "missing", "wrong size accepted");
        }
    }
    static const char* few[] = { "2 /", "2 1 /", "2* 2 /", "2 1" };
    for (int k = 0; k < 4; ++k) if (vh::begin(vh::fmt("inspect:few=%d", k))) {
        Model m = model(2, 1, 2, 1);
        VH_CHECK(THROWS(dk::Deck d = dk::parse(std::string("DIMENS\n ") + few[k] + "\n\n" + kw("COORD", m.coord) + kw("ZCORN", m.z), false); Opm::EclipseGridInspector in(*d); in.cellZvals(0, 0, 0)), "missing", "dimensions %s accepted", few[k]);
    }
    for (int nx = 1; nx <= mx; ++nx) for (int ny = 1; ny <= mx; ++ny) for (int nz = 1; nz <= mx + 1; ++nz) for (int kind = 0; kind < 5; ++kind) for (int f = 0; f < 8; ++f) {
        if (!vh::thorough() && f != (nx + 3 * ny + 5 * nz + kind) % 8 && (nx > 2 || ny > 2)) continue;
        if (kind == 2 && nz < 2) continue;
        if (vh::begin(vh::fmt("chop:%dx%dx%d:geometry=%d:fields=%d", nx, ny, nz, kind, f))) chop(model(nx, ny, nz, kind), f, (f + nx) & 1);
    }
    for (int kind = 0; kind < 5; ++kind) for (int f = 0; f < 8; f += 7) {
        static const int big[3][3] = { { 9, 1, 3 }, { 1, 8, 7 }, { 5, 4, 2 } };
        for (int b = 0; b < 3; ++b) if (vh::begin(vh::fmt("chop:large=%d:geometry=%d:fields=%d", b, kind, f))) chop(model(big[b][0], big[b][1], big[b][2], kind), f, b & 1);
    }
    static const char* unit[] = { "FIELD\n\n", "LAB\n\n", "METRIC\n\n", "" };
    for (int u = 0; u < 4; ++u) {
        if (!vh::begin(vh::fmt("unit:%d", u))) continue;
        const std::string path = vh::scratch() + "/deck.grdecl";
        Model m = model(2, 2, 2, 0);
        { std::ofstream o(path.c_str()); o << text(m, false, 2, unit[u]); }
        if (u < 2) { VH_CHECK(THROWS(Opm::CornerPointChopper c(path); c.chop(0, 2, 0, 1, 1, 3, true); c.subparser()), "unit", "%s", unit[u]); continue; }
        Opm::CornerPointChopper ch(path); ch.chop(0, 2, 0, 1, 1, 3, true);
        { Opm::EclipseGridParser sp = ch.subparser(); sp.convertToSI(); double md = 9.869232667160130e-16; VH_CHECK(vh::close_to(sp.getFloatingPointValue("PERMX")[0], m.permx[0] * md, 1e-12), "unit", "PERMX %g", sp.getFloatingPointValue("PERMX")[0]); }
    }
}
