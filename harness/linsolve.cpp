// Sparse matrices and the direct solver: every small matrix over a few values, every order and repetition of its entries,
// against exact integer elimination; every small structure built entry by entry; output files read back.
#include "vh.hpp"
#include "flow.hpp"
#include <fstream>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/linalg/LinearSolverFactory.hpp>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
using namespace Opm;
typedef std::vector<double> V;
typedef std::vector<int> I;
typedef __int128 Z;
typedef long double LD;

// fraction-free elimination; entries are multiplied by 4 first
static Z det(std::vector<Z> a, int n)
{
    Z prev = 1; int sg = 1;
    for (int k = 0; k < n; ++k) {
        int p = k; while (p < n && a[p * n + k] == 0) ++p;
        if (p == n) return 0;
        if (p != k) { for (int j = 0; j < n; ++j) std::swap(a[p * n + j], a[k * n + j]); sg = -sg; }
        for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) a[i * n + j] = (a[i * n + j] * a[k * n + k] - a[i * n + k] * a[k * n + j]) / prev;
        prev = a[k * n + k];
    }
    return sg * prev;
}
static bool exact(const V& d, const V& b, int n, std::vector<LD>& x)
{
    if (n > 8) { std::vector<LD> A(d.begin(), d.end()), B(b.begin(), b.end()); return fl::dense(A, B, x); }   // only diagonally dominant ones
    std::vector<Z> a(n * n); for (int i = 0; i < n * n; ++i) a[i] = (Z)(long)(d[i] * 4);
    const Z D = det(a, n); x.assign(n, 0);
    if (D == 0) return false;
    for (int k = 0; k < n; ++k) { std::vector<Z> t(a); for (int i = 0; i < n; ++i) t[i * n + k] = (Z)(long)(b[i] * 4); x[k] = (LD)det(t, n) / (LD)D; }
    return true;
}
// one system given as rows of (column, value)
static bool system(const LinearSolverInterface& s, const std::vector<std::vector<std::pair<int, double> > >& rows, const V& b, const std::string& what, bool viamatrix)
{
    const int n = rows.size();
    I ia(1, 0), ja; V sa, d(n * n, 0.0);
    for (int i = 0; i < n; ++i) { for (size_t j = 0; j < rows[i].size(); ++j) { ja.push_back(rows[i][j].first); sa.push_back(rows[i][j].second); d[i * n + rows[i][j].first] += rows[i][j].second; } ia.push_back(ja.size()); }
    ja.push_back(-5); sa.push_back(1e30);   // one beyond the end
    I ia0(ia), ja0(ja); V sa0(sa), b0(b), x(n, -777.25);
    vh::tr();
    LinearSolverInterface::LinearSolverReport r;
    if (viamatrix) { CSRMatrix A = { (size_t)n, (size_t)(ja.size() - 1), &ia[0], &ja[0], &sa[0] }; r = s.solve(&A, &b[0], &x[0]); }
    else r = s.solve(n, ja.size() - 1, &ia[0], &ja[0], &sa[0], &b[0], &x[0]);
    if (ia != ia0 || ja != ja0 || sa != sa0 || b != b0) { vh::fail("input", "%s: the system was changed", what.c_str()); return false; }
    std::vector<LD> y; const bool reg = exact(d, b, n, y);
    LD nx = 0, na = 0, nb = 0; for (int i = 0; i < n; ++i) { nx = std::max(nx, (LD)std::fabs(x[i])); nb = std::max(nb, (LD)std::fabs(b[i])); LD t = 0; for (int j = 0; j < n; ++j) t += std::fabs(d[i * n + j]); na = std::max(na, t); }
    if (reg && !r.converged) { vh::fail("gave up", "%s: regular, but reported as not solved", what.c_str()); return false; }
    if (reg) for (int i = 0; i < n; ++i) {
        LD my = 0; for (int j = 0; j < n; ++j) my = std::max(my, std::fabs(y[j]));
        if (!(std::fabs(x[i] - y[i]) <= 1e-11L * (1e-3L + my))) { vh::fail("solution", "%s: unknown %d is %.15g, should be %.15Lg", what.c_str(), i, x[i], y[i]); return false; }
    }
    if (r.converged) for (int i = 0; i < n; ++i) {
        LD res = -b[i]; for (int j = 0; j < n; ++j) res += (LD)d[i * n + j] * x[j];
        if (!(std::fabs(res) <= 1e-13L * (na * nx + nb))) { vh::fail("residual", "%s: said to be solved, but equation %d is off by %Lg", what.c_str(), i, res); return false; }
    }
    vh::outcome(vh::hash(&x[0], 8 * n, r.converged));
    return true;
}
typedef std::vector<std::vector<std::pair<int, double> > > Rows;
static void dense(const LinearSolverInterface& s, int n, int nv, const double* val, int part, int parts)
{
    if (!vh::begin(vh::fmt("matrix/%d/%d", n, part))) return;
    I k(n * n, 0); long idx = 0;
    do {
        if (idx++ % parts != part) continue;
        vh::state();
        Rows rows(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (k[i * n + j]) rows[i].push_back(std::make_pair(j, val[k[i * n + j]]));
        V b; for (int i = 0; i < n; ++i) b.push_back(((idx + i) % 3) - (i % 2 ? 0.5 : 1));
        bool any = false; for (int i = 0; i < n; ++i) any |= !rows[i].empty();
        if (!any) continue;
        if (!system(s, rows, b, "entries " + vh::str(k), idx & 1)) return;
    } while (vh::next(k, nv));
}
// entries of each row in every order, each entry possibly given in two parts
static void orders(const LinearSolverInterface& s, int n, const I& pattern)
{
    if (!vh::begin(vh::fmt("order/%d/%s", n, vh::str(pattern).c_str()))) return;
    Rows base(n); for (int i = 0, k = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i == j || pattern[k++]) base[i].push_back(std::make_pair(j, i == j ? 4.0 + i : -1.0 - 0.5 * ((i + 2 * j) % 3)));
    V b; for (int i = 0; i < n; ++i) b.push_back(1.0 - 0.75 * i);
    int nz = 0; for (int i = 0; i < n; ++i) nz += base[i].size();
    for (int mask = 0; mask < 1 << nz; ++mask) {
        Rows rows(base);
        for (int i = 0, e = 0; i < n; ++i) for (size_t j = 0; j < base[i].size(); ++j, ++e) if (mask >> e & 1) { rows[i].push_back(std::make_pair(base[i][j].first, 0.25)); rows[i][j].second -= 0.25; if (e % 2) rows[i].push_back(std::make_pair(base[i][j].first, 0.0)); }
        // rotate and reverse each row in all combinations of the first row's order with a shift of the others
        std::vector<std::pair<int, double> > first(rows[0]); std::sort(first.begin(), first.end());
        int guard = 0;
        do {
            rows[0] = first; for (int i = 1; i < n; ++i) std::rotate(rows[i].begin(), rows[i].begin() + 1 % rows[i].size(), rows[i].end());
            vh::state();
            if (!system(s, rows, b, vh::fmt("parts %d, order %d", mask, guard), guard & 1)) return;
        } while (std::next_permutation(first.begin(), first.end()) && ++guard < 24);
    }
}
// flow between cells of a graph, with a well joined to some of them
static void graph(const LinearSolverInterface& s, int n, unsigned edges, int part)
{
    (void)part;
    for (int wells = 0; wells < 1 << n; wells += vh::thorough() ? 1 : 3) {
        vh::state();
        const int m = n + (wells ? 1 : 0); Rows rows(m); V diag(m, 0.0);
        for (int i = 0; i < n; ++i) rows[i].push_back(std::make_pair(i, 0.0));
        if (wells) rows[n].push_back(std::make_pair(n, 0.0));
        int e = 0;
        for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++e) if (edges >> e & 1) { double t = 1 + 0.5 * (e % 3); rows[i].push_back(std::make_pair(j, -t)); rows[j].push_back(std::make_pair(i, -t)); diag[i] += t; diag[j] += t; }
        for (int i = 0; i < n; ++i) if (wells >> i & 1) { double t = 2 + 0.25 * i; for (int rep = 0; rep < 1 + (i == 1); ++rep) { rows[i].push_back(std::make_pair(n, -t)); rows[n].push_back(std::make_pair(i, -t)); diag[i] += t; diag[n] += t; } }
        diag[0] *= 2;   // the level is fixed by the first cell, if the graph is connected
        if (wells % 4 == 1) diag[m - 1] += 1;
        for (int i = 0; i < m; ++i) rows[i][0].second = diag[i];
        V b(m, 0.0); for (int i = 0; i < m; ++i) b[i] = (i * 5 + edges) % 4 - 1.5;
        if (!system(s, rows, b, vh::fmt("well cells %d", wells), edges & 1)) return;
    }
}
// every structure with n rows, built as the assembly codes do
static void structure(int n, const I& entries)
{
    if (!vh::begin(n > 8 ? vh::fmt("structure/%d/%016llx", n, (unsigned long long)vh::hash(&entries[0], 4 * n * n)) : vh::fmt("structure/%d/%s", n, vh::str(entries).c_str()))) return;
    std::vector<std::set<int> > m(n); int nz = 0;
    for (int k = 0; k < n * n; ++k) if (entries[k]) { m[k / n].insert(k % n); ++nz; }
    if (nz == 0) return;
    for (int ord = 0; ord < 3; ++ord) {
        vh::state(); vh::tr();
        CSRMatrix* A = csrmatrix_new_count_nnz(n);
        bool ok = A && A->m == (size_t)n && A->nnz == 0; for (int i = 0; ok && i <= n; ++i) ok = A->ia[i] == 0;
        if (!ok) { vh::fail("count", "not an empty matrix"); csrmatrix_delete(A); return; }
        for (int i = 0; i < n; ++i) A->ia[i + 1] += m[i].size();
        size_t got = csrmatrix_new_elms_pushback(A);
        if (got != (size_t)nz || A->nnz != got || A->ia[0] != 0) { vh::fail("allocate", "%d elements, should be %d", (int)got, nz); csrmatrix_delete(A); return; }
        for (int k = 0; k < n * n; ++k) { int e = ord == 0 ? k : ord == 1 ? n * n - 1 - k : (k * 5 + 3) % (n * n); if (n * n % 5 == 0 && ord == 2) e = k ^ (k > 1 && n * n > 3 && (k ^ 1) < n * n); if (entries[e]) A->ja[A->ia[e / n + 1]++] = e % n; }
        csrmatrix_sortrows(A);
        csrmatrix_zero(A);
        int p = 0;
        for (int i = 0; i < n; ++i) {
            if (A->ia[i] != p) vh::fail("rows", "row %d starts at %d, should be %d", i, A->ia[i], p);
            for (std::set<int>::iterator j = m[i].begin(); j != m[i].end(); ++j, ++p) {
                if (A->ja[p] != *j || A->sa[p] != 0) vh::fail("columns", "element %d: column %d value %g", p, A->ja[p], A->sa[p]);
                if (csrmatrix_elm_index(i, *j, A) != (size_t)p) vh::fail("index", "element (%d,%d) is at %d, should be %d", i, *j, (int)csrmatrix_elm_index(i, *j, A), p);
                A->sa[p] = (p % 2 ? -1 : 1) * (1.0 / 3 + p) * std::pow(10.0, (p % 5 - 2) * 4);
            }
        }
        if (A->ia[n] != nz) vh::fail("rows", "ends at %d, should be %d", A->ia[n], nz);
        // written and read back
        const std::string fn = vh::scratch() + "/matrix.txt";
        if (ord == 0) {
            csrmatrix_write(A, fn.c_str());
            std::ifstream f(fn.c_str()); long i, j; double v; p = 0;
            for (int r = 0; r < n; ++r) for (std::set<int>::iterator c = m[r].begin(); c != m[r].end(); ++c, ++p)
                if (!(f >> i >> j >> v) || i != r + 1 || j != *c + 1 || v != A->sa[p]) { vh::fail("file", "element %d read back as (%ld,%ld) %.17g", p, i, j, v); break; }
            if (f >> i) vh::fail("file", "more elements than the matrix has");
            vector_write(nz, A->sa, fn.c_str());
            std::ifstream g(fn.c_str()); for (p = 0; p < nz; ++p) if (!(g >> v) || v != A->sa[p]) { vh::fail("file", "number %d read back as %.17g", p, v); break; }
            if (g >> v) vh::fail("file", "more numbers than were written");
        }
        vector_zero(nz, A->sa); for (p = 0; p < nz; ++p) if (A->sa[p] != 0) vh::fail("zero", "number %d is %g", p, A->sa[p]);
        csrmatrix_delete(A);
        CSRMatrix* B = csrmatrix_new_known_nnz(n, nz);
        if (!B || B->m != (size_t)n || B->nnz != (size_t)nz) vh::fail("known", "size %d, %d", (int)B->m, (int)B->nnz); else { std::fill(B->ia, B->ia + n + 1, 1); std::fill(B->ja, B->ja + nz, 1); std::fill(B->sa, B->sa + nz, 1.0); }
        csrmatrix_delete(B);
    }
}
// rows with up to four entries far apart, in every order: sorted, found again, and solved
static void wide()
{
    const int C[12] = { 0, 1, 127, 128, 255, 256, 32767, 32768, 33000, 65535, 65536, 70000 }, n = 70001, k = 12;
    std::vector<I> rows;
    for (int m = 1; m < 1 << k; ++m) if (__builtin_popcount(m) <= 4) { I r; for (int i = 0; i < k; ++i) if (m >> i & 1) r.push_back(C[i]); do rows.push_back(r); while (std::next_permutation(r.begin(), r.end())); }
    if (vh::begin("wide/structure")) {
        CSRMatrix* A = csrmatrix_new_count_nnz(n); size_t nz = 0;
        for (size_t r = 0; r < rows.size(); ++r) { A->ia[5 * r + 3 + 1] = rows[r].size(); nz += rows[r].size(); }
        if (csrmatrix_new_elms_pushback(A) != nz) vh::fail("allocate", "not %d elements", (int)nz);
        else {
            for (size_t r = 0; r < rows.size(); ++r) for (size_t j = 0; j < rows[r].size(); ++j) A->ja[A->ia[5 * r + 4]++] = rows[r][j];
            csrmatrix_sortrows(A);
            for (size_t r = 0; r < rows.size(); ++r) {
                const int i = 5 * r + 3; I want(rows[r]); std::sort(want.begin(), want.end()); vh::state(); vh::tr(want.size());
                if (I(A->ja + A->ia[i], A->ja + A->ia[i + 1]) != want) { vh::fail("sorted", "row with %s is not sorted", vh::str(rows[r]).c_str()); break; }
                for (size_t j = 0; j < want.size(); ++j) if (csrmatrix_elm_index(i, want[j], A) != (size_t)A->ia[i] + j) { vh::fail("find", "column %d not found in row with %s", want[j], vh::str(want).c_str()); r = rows.size(); break; }
            }
        }
        csrmatrix_delete(A);
    }
    // a system of that size with these rows off the diagonal: x known, b made from it
    for (int v = 0; v < 3; ++v) if (vh::begin(vh::fmt("wide/system/%d", v))) {
        I ia(1, 0), ja; V sa, x(n), b(n, 0.0), y(n, 1e9); std::vector<LD> e(n);
        for (int i = 0; i < n; ++i) x[i] = (i * 7 + v) % 9 - 4;
        for (int i = 0; i < n; ++i) {
            const I& r = rows[(i / 5 + v) % rows.size()]; const bool full = v == 0 ? i % 50 == 3 : v == 1 ? i < 300 : i > n - 200;
            bool self = false;
            if (full) for (size_t j = 0; j < r.size(); ++j) { const bool d = r[j] == i; ja.push_back(r[j]); sa.push_back(d ? 6 : -1); self = self || d; }
            if (!self) { ja.push_back(i); sa.push_back(6); }
            ia.push_back(ja.size());
            for (int j = ia[i]; j < ia[i + 1]; ++j) b[i] += sa[j] * x[ja[j]];
        }
        LinearSolverUmfpack s; vh::state(); vh::tr();
        LinearSolverInterface::LinearSolverReport q = s.solve(n, ja.size(), &ia[0], &ja[0], &sa[0], &b[0], &y[0]);
        if (!q.converged) { vh::fail("gave up", "regular, but reported as not solved"); continue; }
        for (int i = 0; i < n; ++i) if (!(std::fabs(y[i] - x[i]) < 1e-9)) { vh::fail("solution", "unknown %d is %.15g, should be %g", i, y[i], x[i]); break; }
    }
}
void explore()
{
    wide();
    const bool T = vh::thorough();
    LinearSolverUmfpack direct; LinearSolverFactory def;
    const double v1[8] = { 0, 0.0, -1, 1, 2, 0.5, 3, -0.25 }, v3[5] = { 0, -1, 1, 3, 0.5 };
    dense(direct, 1, 8, v1, 0, 1);
    for (int p = 0; p < 8; ++p) dense(direct, 2, 8, v1, p, 8);
    for (int p = 0; p < (T ? 256 : 64); ++p) dense(def, 3, T ? 5 : 4, v3, p, T ? 256 : 64);
    const double v4[2] = { 0, 1 };
    if (T) for (int p = 0; p < 64; ++p) dense(direct, 4, 2, v4, p, 64);
    for (int n = 2; n <= (T ? 4 : 3); ++n) { I p(n * n - n, 0); do { int on = 0; for (size_t i = 0; i < p.size(); ++i) on += p[i]; if (n == 4 && on > 6) continue; orders(direct, n, p); } while (vh::next(p, 2)); }
    for (int n = 3; n <= 5; ++n) for (unsigned e = 0; e < 1u << (n * (n - 1) / 2); ++e) if (vh::begin(vh::fmt("graph/%d/%u", n, e))) graph(def, n, e, 0);
    if (T) for (unsigned e = 0; e < 1u << 15; e += 5) if (vh::begin(vh::fmt("graph/6/%u", e))) graph(def, 6, e, 0);
    for (int n = 12; n <= (T ? 300 : 150); n += n < 40 ? 9 : 37) for (int k = 0; k < 12; ++k) if (vh::begin(vh::fmt("large/%d/%d", n, k))) {
        Rows rows(n); V b; vh::state();
        for (int i = 0; i < n; ++i) {
            double sum = 0; const int w = k % 4;
            for (int j = 0; j < n; ++j) { if (i == j || !(w == 0 ? abs(i - j) == 1 || abs(i - j) == 7 : w == 1 ? (i * j) % 11 == 3 : w == 2 ? i < j && j < i + 6 : j == 0 || i == 0)) continue; double v = -0.25 * (1 + (i * 3 + j) % 5); rows[i].push_back(std::make_pair(j, v)); sum += std::fabs(v); if ((i + j) % 9 == k % 9) { rows[i].push_back(std::make_pair(j, 0.125)); sum += 0.125; } }
            rows[i].push_back(std::make_pair(i, sum + 1)); if (k % 3) std::rotate(rows[i].begin(), rows[i].begin() + (i * k) % rows[i].size(), rows[i].end());
            b.push_back((i * 7 + k) % 5 - 2);
        }
        system(k & 1 ? (const LinearSolverInterface&)direct : def, rows, b, "large", k & 2);
    }
    for (int n = 11; n <= 61; n += 25) for (int k = 0; k < 4; ++k) { I p(n * n, 0); for (int i = 0; i < n * n; ++i) p[i] = k == 0 ? i % n == i / n || i % 7 == 0 : k == 1 ? (i / n) % 3 == 1 || i % n > n - 3 : k == 2 ? i % n <= i / n : i * 5 % 13 < 4; structure(n, p); }
    for (int n = 1; n <= 3; ++n) { I p(n * n, 0); do structure(n, p); while (vh::next(p, 2)); }
    { I p(16, 0); long k = 0; do { if (k++ % (T ? 1 : 23) == 0) structure(4, p); } while (vh::next(p, 2)); }
    if (vh::begin("unwritable")) {
        CSRMatrix* A = csrmatrix_new_known_nnz(1, 1); A->ia[0] = 0; A->ia[1] = 1; A->ja[0] = 0; A->sa[0] = 1;
        vh::tr(2);
        csrmatrix_write(A, (vh::scratch() + "/no/such/dir/f").c_str()); vector_write(1, A->sa, (vh::scratch() + "/no/such/dir/f").c_str());
        csrmatrix_delete(A); csrmatrix_delete(0);
    }
    const char* names[6] = { "", "umfpack", "istl", "agmg", "Umfpack", "none" };
    for (int k = 0; k < 6; ++k) {
        if (!vh::begin(std::string("choice/") + names[k])) continue;
        fl::Quiet q; parameter::ParameterGroup p; p.disableOutput(); if (k) p.insertParameter("linsolver", names[k]);
        bool threw = false; vh::tr();
        try {
            LinearSolverFactory s(p); Rows rows(2); rows[0].push_back(std::make_pair(1, 2.0)); rows[1].push_back(std::make_pair(0, 4.0)); V b(2, 1.0); b[1] = 3;
            system(s, rows, b, "chosen solver", false);
            s.setTolerance(1e-3); if (s.getTolerance() != direct.getTolerance()) vh::fail("tolerance", "%g", s.getTolerance());
        } catch (const std::exception&) { threw = true; }
        if (threw != (k > 1)) vh::fail("choice", threw ? "refused" : "accepted");
    }
}
