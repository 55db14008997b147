// Every memory request of every creating, growing or copying function of the C libraries refused in turn (once, or
// from then on; retries refused likewise), with garbage-filled memory and exact tracking of live blocks and files.
// link: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free -Wl,--wrap=process_grdecl -Wl,--wrap=fopen -Wl,--wrap=fclose
#include "vh.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/wells.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/linalg/call_umfpack.h>
#include <opm/core/pressure/tpfa/ifs_tpfa.h>
#include <opm/core/pressure/tpfa/cfs_tpfa_residual.h>
#include <opm/core/pressure/tpfa/compr_quant_general.h>
#include <opm/core/pressure/tpfa/compr_source.h>
// the older well and boundary descriptions use the same names for other enumerators
#define INJECTOR LEGACY_INJECTOR
#define PRODUCER LEGACY_PRODUCER
#define BHP LEGACY_BHP
#define RATE LEGACY_RATE
#define surface_component legacy_surface_component
#define WATER LEGACY_WATER
#define OIL LEGACY_OIL
#define GAS LEGACY_GAS
#include <opm/core/pressure/legacy_well.h>
#undef INJECTOR
#undef PRODUCER
#undef BHP
#undef RATE
#undef WATER
#undef OIL
#undef GAS
#include <opm/core/pressure/flow_bc.h>
#define BC_PRESSURE COMPR_BC_PRESSURE
#include <opm/core/pressure/tpfa/compr_bc.h>
#undef BC_PRESSURE
#include <opm/core/pressure/fsh.h>
#include <opm/core/pressure/mimetic/hybsys.h>
#include <opm/core/pressure/mimetic/hybsys_global.h>
#include <opm/core/pressure/msmfem/partition.h>
#include <opm/core/pressure/msmfem/coarse_conn.h>
#include <opm/core/pressure/msmfem/coarse_sys.h>
#include <opm/core/pressure/msmfem/ifsh_ms.h>
#include <opm/core/pressure/msmfem/hash_set.h>
extern "C" {
#include <opm/core/transport/implicit/transport_source.h>
struct cfs_tpfa_data { struct CSRMatrix* A; double *b, *x; struct cfs_tpfa_impl* pimpl; };
struct cfs_tpfa_data* cfs_tpfa_construct(struct UnstructuredGrid*, well_t*, int);
void cfs_tpfa_destroy(struct cfs_tpfa_data*);
}
#include <suitesparse/SuiteSparse_config.h>
#include <memory>
#include <unordered_map>
typedef std::vector<int> IV;
typedef std::vector<double> DV;

// ---- the controlled allocator -----------------------------------------------------------------------------------
namespace {
    struct Mem {
        std::unordered_map<void*, size_t> live;
        long files, count, at, fired;
        bool armed, on, from;
        Mem() : files(0), count(0), at(-1), fired(0), armed(false), on(false), from(false) {}
        bool refuse() {
            if (!armed) return false;
            const long k = count++;
            if (at < 0 || !(k == at || (from && k > at))) return false;
            ++fired;
            return true;
        }
    };
    Mem& mem() { static Mem* m = new Mem; return *m; }
    void arm(long at, bool from) { Mem& m = mem(); m.armed = true; m.count = m.fired = 0; m.at = at; m.from = from; }
    long disarm() { mem().armed = false; return mem().fired; }
}
extern "C" {
void* __real_malloc(size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*);
void __real_process_grdecl(const struct grdecl*, double, struct processed_grid*);
void* __wrap_malloc(size_t n)
{
    Mem& m = mem();
    if (m.refuse()) return 0;
    void* p = __real_malloc(n);
    if (p && m.on) { memset(p, 0xA5, n); m.live[p] = n; }
    return p;
}
void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void* p) { if (p) mem().live.erase(p); __real_free(p); }
void* __wrap_realloc(void* q, size_t n)
{
    // always moves, so that references to the old block are found
    if (!q) return __wrap_malloc(n);
    Mem& m = mem();
    if (m.refuse()) return 0;
    std::unordered_map<void*, size_t>::iterator i = m.live.find(q);
    if (i == m.live.end()) return __real_realloc(q, n);
    void* p = __real_malloc(n);
    memset(p, 0xA5, n);
    memcpy(p, q, std::min(n, i->second));
    m.live.erase(i);
    m.live[p] = n;
    __real_free(q);
    return p;
}
FILE* __wrap_fopen(const char* f, const char* m) { FILE* p = __real_fopen(f, m); if (p) ++mem().files; return p; }
int __wrap_fclose(FILE* f) { --mem().files; return __real_fclose(f); }
// corner-point preprocessing promises nothing for missing memory
void __wrap_process_grdecl(const struct grdecl* g, double tol, struct processed_grid* out)
{
    bool a = mem().armed; mem().armed = false;
    __real_process_grdecl(g, tol, out);
    mem().armed = a;
}
}

// ---- scenarios --------------------------------------------------------------------------------------------------
enum Ret { REFUSED = 0, DONE = 1, WRONG = 2 };   // WRONG: neither of the documented answers
struct Sc {
    std::string id;
    std::function<void()> prep, done;
    std::function<Ret()> op;
    std::function<std::string()> input, result, loose;   // loose: result when a harmless part may be missing
};
struct Out {
    std::string s;
    template <class T> Out& a(const char* n, const T* p, long k) { s += n; if (k > 0 && !p) { s += "=null "; return *this; } std::ostringstream o; o.precision(17); o << '='; for (long i = 0; i < k; ++i) o << p[i] << ','; s += o.str(); s += ' '; return *this; }
    template <class T> Out& v(const char* n, T x) { std::ostringstream o; o.precision(17); o << n << '=' << x << ' '; s += o.str(); return *this; }
};
static std::string csr(const struct CSRMatrix* A)
{
    if (!A) return "none";
    Out o;
    return o.v("m", A->m).v("nnz", A->nnz).a("ia", A->ia, A->m + 1).a("ja", A->ja, A->nnz).s;
}
static std::string none() { return ""; }

static std::string differ(const std::string& a, const std::string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t k = a.rfind(' ', i ? i - 1 : 0);
    k = k == std::string::npos ? 0 : k + 1;
    return "'" + a.substr(k, i - k + 40) + "' instead of '" + b.substr(k, i - k + 40) + "'";
}
static void run(const Sc& s)
{
    Mem& m = mem();
    m.on = true;
    // undisturbed run
    s.prep();
    arm(-1, false);
    Ret r = s.op();
    const long n = m.count;
    disarm();
    std::string ref = s.result(), lref = s.loose ? s.loose() : ref;
    bool ok0 = r == DONE;
    s.done();
    long left = m.live.size();
    if (vh::begin(s.id + " undisturbed")) {
        VH_CHECK(ok0, "undisturbed", "answered %d although memory was available", r);
        VH_CHECK(left == 0, "leak", "%ld blocks left", left);
        VH_CHECK(m.files == 0, "leak", "%ld files left open", m.files);
        vh::tr(n);
        vh::outcome(ref);
        vh::sample(vh::fmt("%s: %ld requests", s.id.c_str(), n));
    }
    m.live.clear();
    // deepest number of consecutive refused attempts
    for (long k = 0; k < n; ++k) for (int from = 0; from < 2; ++from) {
        for (long k2 = -2; k2 < n; ++k2) {       // -2: give up, -1: successful retry, else: retry refused again, then retry
            if (k2 >= 0 && from != 0 && !vh::thorough()) continue;
            if (!vh::begin(s.id + vh::fmt(" request %ld%s", k, from ? "+" : "") + (k2 == -2 ? std::string(" give up") : k2 == -1 ? std::string(" retry") : vh::fmt(" then %ld retry", k2)))) continue;
            s.prep();
            const std::string in = s.input();
            arm(k, from != 0);
            r = s.op();
            long fired = disarm();
            vh::tr(k + 1);
            bool ok = r == DONE;
            VH_CHECK(r != WRONG, "answer", "neither success nor the documented failure was reported");
            VH_CHECK(fired > 0, "harness", "request %ld was not reached", k);
            if (!ok) VH_CHECK(s.input() == in, "input", "refused, but what was passed in changed to %s", differ(s.input(), in).c_str());
            for (int step = 0; !ok && k2 > -2 && step < 2; ++step) {
                if (step == 0) { if (k2 < 0) continue; arm(k2, from != 0); }
                r = s.op();
                if (step == 0) disarm();
                VH_CHECK(r != WRONG, "answer", "neither success nor the documented failure was reported by a retry");
                ok = r == DONE;
                if (!ok) VH_CHECK(step == 0, "retry", "fails although memory is available again");
                if (!ok) VH_CHECK(s.input() == in, "input", "refused again, but what was passed in changed to %s", differ(s.input(), in).c_str());
            }
            if (ok) {
                bool whole = s.result() == ref, part = s.loose && s.loose() == lref;
                VH_CHECK(whole || part, "result", "reported success with %s", differ(s.result(), ref).c_str());
                if (k2 == -1 && r == DONE && !s.loose) VH_CHECK(whole, "result", "differs");
            }
            vh::outcome(vh::fmt("%s %d", ok ? "done" : "refused", (int)r) + s.input());
            s.done();
            VH_CHECK(m.live.empty(), "leak", "%ld blocks of memory were lost", (long)m.live.size());
            VH_CHECK(m.files == 0, "leak", "%ld files left open", m.files);
            m.live.clear(); m.files = 0;
        }
    }
    m.on = false;
}

// ---- wells ------------------------------------------------------------------------------------------------------
static std::string wells(const struct Wells* W, bool names)
{
    if (!W) return "none";
    Out o;
    const int n = W->number_of_wells, np = W->number_of_phases, nc = W->well_connpos[n];
    o.v("n", n).v("np", np).a("pos", W->well_connpos, n + 1);
    if (n) o.a("type", W->type, n).a("ref", W->depth_ref, n).a("cf", W->comp_frac, n * np);
    if (nc) o.a("cells", W->well_cells, nc).a("WI", W->WI, nc);
    for (int w = 0; w < n; ++w) {
        const struct WellControls* c = W->ctrls[w];
        if (names) o.v("name", W->name[w] ? W->name[w] : "(none)");
        o.v("cur", c->current).v("num", c->num);
        if (c->num) o.a("ct", c->type, c->num).a("tg", c->target, c->num).a("ds", c->distr, c->num * np);
    }
    return o.s;
}
static int addone(struct Wells* W, int w, int nperf, bool named)
{
    DV cf(W->number_of_phases, 0.0), wi(nperf + 1);
    IV cells(nperf + 1);
    cf[w % cf.size()] = 1;
    for (int i = 0; i < nperf; ++i) { cells[i] = 7 * w + i; wi[i] = w + 0.1 * i; }
    return add_well(w % 2 ? PRODUCER : INJECTOR, 10. * w, nperf, &cf[0], &cells[0], &wi[0], named ? ("well" + vh::fmt("%d", w)).c_str() : 0, W);
}
static int ctrlone(struct Wells* W, int w, int c)
{
    DV d(W->number_of_phases, 0.25);
    d[c % d.size()] = 1;
    return append_well_controls(c % 2 ? RESERVOIR_RATE : BHP, 100. * w + c, &d[0], w, W);
}
static void wellscenarios()
{
    struct St { struct Wells *W, *C; };
    for (int np = 1; np <= 3; ++np) for (int nw = 0; nw <= 3; ++nw) for (int npf = 0; npf <= 5; npf += 5) {
        std::shared_ptr<St> st(new St()); Sc s;
        s.id = vh::fmt("create_wells np%d nw%d perf%d", np, nw, npf);
        s.prep = [=] { st->W = 0; };
        s.op = [=]() -> Ret { st->W = create_wells(np, nw, npf); return st->W ? DONE : REFUSED; };
        s.input = none;
        // usable up to the capacity asked for
        s.result = [=]() -> std::string {
            if (!st->W) return "none";
            for (int w = 0; w < nw; ++w) { if (!addone(st->W, w, npf ? 1 : 0, true)) return "cannot add"; if (!ctrlone(st->W, w, 0)) return "cannot control"; }
            return wells(st->W, true);
        };
        s.done = [=] { destroy_wells(st->W); };
        run(s);
    }
    for (int np = 1; np <= 3; np += 2) for (int cap = 0; cap <= 2; ++cap) for (int have = 0; have <= 3; ++have) for (int npf = 0; npf <= 3; ++npf) for (int named = 0; named < 2; ++named) {
        std::shared_ptr<St> st(new St()); Sc s;
        s.id = vh::fmt("add_well np%d cap%d have%d perf%d named%d", np, cap, have, npf, named);
        s.prep = [=] {
            st->W = create_wells(np, cap, 2 * cap);
            for (int w = 0; w < have; ++w) { addone(st->W, w, 1 + w % 2, w != 1); for (int c = 0; c <= w; ++c) ctrlone(st->W, w, c); set_current_control(w, 0, st->W); }
        };
        s.op = [=]() -> Ret { int r = addone(st->W, have, npf, named != 0); return r == 0 ? REFUSED : DONE; };
        s.input = [=] { return wells(st->W, true); };
        s.result = s.input;
        s.loose = [=] { return wells(st->W, false); };   // a well may lack its name if there is no memory for it
        s.done = [=] { destroy_wells(st->W); };
        run(s);
    }
    for (int np = 1; np <= 3; ++np) for (int have = 0; have <= 5; ++have) {
        std::shared_ptr<St> st(new St()); Sc s;
        s.id = vh::fmt("append_well_controls np%d have%d", np, have);
        s.prep = [=] {
            st->W = create_wells(np, 0, 0);
            for (int w = 0; w < 3; ++w) addone(st->W, w, 1, true);
            for (int c = 0; c < have; ++c) ctrlone(st->W, 1, c);
            if (have) set_current_control(1, have - 1, st->W);
            ctrlone(st->W, 2, 0);
        };
        s.op = [=]() -> Ret { int r = ctrlone(st->W, 1, have); return r == 0 ? REFUSED : DONE; };
        s.input = [=] { return wells(st->W, true); };
        s.result = s.input;
        s.done = [=] { destroy_wells(st->W); };
        run(s);
    }
    for (int np = 1; np <= 3; ++np) for (int nw = 0; nw <= 3; ++nw) for (int nctl = 0; nctl <= 2; ++nctl) for (int perf0 = 0; perf0 < 2; ++perf0) {
        std::shared_ptr<St> st(new St()); Sc s;
        s.id = vh::fmt("clone_wells np%d nw%d ctl%d perf%d", np, nw, nctl, perf0);
        s.prep = [=] {
            st->C = 0;
            st->W = create_wells(np, 0, 0);
            for (int w = 0; w < nw; ++w) { addone(st->W, w, perf0 + w, w != 1); for (int c = 0; c < nctl + (w & 1); ++c) ctrlone(st->W, w, c); if (nctl) set_current_control(w, 0, st->W); }
        };
        s.op = [=]() -> Ret { st->C = clone_wells(st->W); return st->C ? DONE : REFUSED; };
        s.input = [=] { return wells(st->W, true); };
        s.result = [=] { return wells(st->C, true); };
        s.loose = [=] { return wells(st->C, false); };
        s.done = [=] { destroy_wells(st->W); destroy_wells(st->C); };
        run(s);
    }
}

// ---- grids ------------------------------------------------------------------------------------------------------
static std::string griddig(const struct UnstructuredGrid* g)
{
    if (!g) return "none";
    Out o;
    const int nd = g->dimensions, nc = g->number_of_cells, nf = g->number_of_faces, nn = g->number_of_nodes;
    o.v("nd", nd).v("nc", nc).v("nf", nf).v("nn", nn).a("cd", g->cartdims, nd);
    const long ncf = g->cell_facepos ? g->cell_facepos[nc] : 0, nfn = g->face_nodepos ? g->face_nodepos[nf] : 0;
    o.a("fn", g->face_nodes, nfn).a("fnp", g->face_nodepos, nf + 1).a("fc", g->face_cells, 2 * nf).a("cf", g->cell_faces, ncf).a("cfp", g->cell_facepos, nc + 1);
    o.a("x", g->node_coordinates, nn * nd).a("fx", g->face_centroids, nf * nd).a("fa", g->face_areas, nf).a("fN", g->face_normals, nf * nd);
    o.a("cx", g->cell_centroids, nc * nd).a("cv", g->cell_volumes, nc).a("gc", g->global_cell, nc).a("tag", g->cell_facetag, ncf);
    return o.s;
}
static void gridscenario(const std::string& id, std::function<struct UnstructuredGrid*()> make, bool raw = false)
{
    std::shared_ptr<struct UnstructuredGrid*> g(new struct UnstructuredGrid*(0));
    Sc s;
    s.id = id;
    s.prep = [=] { *g = 0; };
    s.op = [=]() -> Ret { *g = make(); return *g ? DONE : REFUSED; };
    s.input = none;
    s.result = [=]() -> std::string { return raw ? std::string(*g ? "grid" : "none") : griddig(*g); };
    s.done = [=] { destroy_grid(*g); };
    run(s);
}
static void writegrid(const std::string& file, bool tag, bool map)
{
    struct UnstructuredGrid* g = create_grid_hexa3d(2, 1, 2, 1., 2., 3.);
    FILE* f = fopen(file.c_str(), "w");
    const int nc = g->number_of_cells, nf = g->number_of_faces, nn = g->number_of_nodes;
    fprintf(f, "3 %d %d %d %d %d\n%d %d\n2 1 2\n", nc, nf, nn, g->face_nodepos[nf], g->cell_facepos[nc], tag, map);
    for (int i = 0; i < 3 * nn; ++i) fprintf(f, "%g ", g->node_coordinates[i]);
    for (int i = 0; i <= nf; ++i) fprintf(f, "%d ", g->face_nodepos[i]);
    for (int i = 0; i < g->face_nodepos[nf]; ++i) fprintf(f, "%d ", g->face_nodes[i]);
    for (int i = 0; i < 2 * nf; ++i) fprintf(f, "%d ", g->face_cells[i]);
    for (int i = 0; i < nf; ++i) fprintf(f, "%g ", g->face_areas[i]);
    for (int i = 0; i < 3 * nf; ++i) fprintf(f, "%g ", g->face_centroids[i]);
    for (int i = 0; i < 3 * nf; ++i) fprintf(f, "%g ", g->face_normals[i]);
    for (int i = 0; i <= nc; ++i) fprintf(f, "%d ", g->cell_facepos[i]);
    for (int i = 0; i < g->cell_facepos[nc]; ++i) { fprintf(f, "%d ", g->cell_faces[i]); if (tag) fprintf(f, "%d ", g->cell_facetag[i]); }
    if (map) for (int i = 0; i < nc; ++i) fprintf(f, "%d ", 10 + i);
    for (int i = 0; i < nc; ++i) fprintf(f, "%g ", g->cell_volumes[i]);
    for (int i = 0; i < 3 * nc; ++i) fprintf(f, "%g ", g->cell_centroids[i]);
    fclose(f);
    destroy_grid(g);
}
static struct UnstructuredGrid* cornerpoint(int fault)
{
    const int nx = 2, ny = 1, nz = 2;
    DV coord, z(8 * nx * ny * nz);
    IV act(nx * ny * nz, 1);
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { double a[6] = { 2. * i, 1.5 * j, 0, 2. * i, 1.5 * j, 10 }; coord.insert(coord.end(), a, a + 6); }
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) for (int q = 0; q < 8; ++q)
        z[2 * i + (q & 1) + 2 * nx * (2 * j + (q >> 1 & 1) + 2 * ny * (2 * k + (q >> 2)))] = k + (q >> 2) + 1.0 + 0.6 * i * (fault > 0);
    if (fault > 1) act[1] = 0;
    struct grdecl g; g.dims[0] = nx; g.dims[1] = ny; g.dims[2] = nz;
    g.coord = &coord[0]; g.zcorn = &z[0]; g.actnum = fault > 1 ? &act[0] : 0; g.mapaxes = 0;
    return create_grid_cornerpoint(&g, 0.0);
}
static void gridscenarios()
{
    gridscenario("create_grid_empty", [] { return create_grid_empty(); });
    for (int nd = 2; nd <= 3; ++nd) gridscenario(vh::fmt("allocate_grid %dd", nd), [=] { return allocate_grid(nd, 3, 10, 20, 12, 8); }, true);
    for (int n = 1; n <= 3; ++n) {
        gridscenario(vh::fmt("create_grid_cart2d %d", n), [=] { return create_grid_cart2d(n, 2, 1., 2.); });
        gridscenario(vh::fmt("create_grid_cart3d %d", n), [=] { return create_grid_cart3d(n, 1, 2); });
        gridscenario(vh::fmt("create_grid_hexa3d %d", n), [=] { return create_grid_hexa3d(1, n, 2, 1., 2., 3.); });
        gridscenario(vh::fmt("create_grid_tensor2d %d", n), [=] { double x[] = { 0, 1, 3, 6 }, y[] = { 0, 2 }; return create_grid_tensor2d(n, 1, x, y); });
        for (int dz = 0; dz < 2; ++dz)
            gridscenario(vh::fmt("create_grid_tensor3d %d dz%d", n, dz), [=] {
                double x[] = { 0, 1, 3, 6 }, y[] = { 0, 2 }, z[] = { 0, 1, 2.5 }, d[] = { 0, 1, 2, 3, 1, 2, 3, 4 };
                return create_grid_tensor3d(n, 1, 2, x, y, z, dz ? d : 0); });
    }
    for (int k = 0; k < 4; ++k) {
        const std::string f = vh::scratch() + vh::fmt("/fault%d.%d.grid", (int)getpid(), k);
        writegrid(f, k & 1, k & 2);
        gridscenario(vh::fmt("read_grid tag%d map%d", k & 1, k >> 1), [=] { return read_grid(f.c_str()); });
        unlink(f.c_str());
    }
    for (int k = 0; k < 3; ++k) gridscenario(vh::fmt("create_grid_cornerpoint %d", k), [=] { return cornerpoint(k); });
}

// ---- lists of conditions and sources -----------------------------------------------------------------------------
static void listscenarios()
{
    struct St { struct FlowBoundaryConditions* f; struct compr_src* s; struct compr_bc* b; struct TransportSource* t; };
    for (int cap = 0; cap <= 3; ++cap) for (int have = -1; have <= 4; ++have) {
        // have -1: construction itself
        auto fdig = [](const struct FlowBoundaryConditions* f) -> std::string {
            if (!f) return "none";
            Out o; o.v("n", f->nbc).a("pos", f->cond_pos, f->nbc + 1);
            if (f->nbc) o.a("type", f->type, f->nbc).a("val", f->value, f->nbc).a("face", f->face, f->cond_pos[f->nbc]);
            return o.s;
        };
        for (int nf = 0; nf <= 3; ++nf) {
            if (have < 0 && nf) continue;
            std::shared_ptr<St> st(new St()); Sc s;
            s.id = vh::fmt("flow_conditions cap%d have%d faces%d", cap, have, nf);
            auto app = [=](int i, int n) { int faces[] = { 3 * i, 3 * i + 1, 3 * i + 2, 99 }; return n == 1 ? flow_conditions_append(i % 2 ? BC_PRESSURE : BC_FLUX_TOTVOL, faces[0], 1. + i, st->f) : flow_conditions_append_multi(i % 2 ? BC_PRESSURE : BC_FLUX_TOTVOL, n, faces, 1. + i, st->f); };
            s.prep = [=] { st->f = 0; if (have >= 0) { st->f = flow_conditions_construct(cap); for (int i = 0; i < have; ++i) app(i, i % 3); } };
            s.op = [=]() -> Ret {
                if (have < 0) { st->f = flow_conditions_construct(cap); return st->f ? DONE : REFUSED; }
                int r = app(have, nf); return r == 1 ? DONE : r == 0 ? REFUSED : WRONG; };
            s.input = [=] { return fdig(st->f); };
            s.result = s.input;
            s.done = [=] { flow_conditions_destroy(st->f); };
            run(s);
        }
        for (int np = 1; np <= 3; ++np) {
            const DV sat(3, 0.25 * np), z(3, 0.5);
            {
                std::shared_ptr<St> st(new St()); Sc s;
                s.id = vh::fmt("compr_src np%d cap%d have%d", np, cap, have);
                s.prep = [=] { st->s = 0; if (have >= 0) { st->s = compr_src_allocate(np, cap); for (int i = 0; i < have; ++i) append_compr_source_term(i, np, 1. + i, &sat[0], st->s); } };
                s.op = [=]() -> Ret {
                    if (have < 0) { st->s = compr_src_allocate(np, cap); return st->s ? DONE : REFUSED; }
                    int r = append_compr_source_term(have, np, 1. + have, &sat[0], st->s); return r == 1 ? DONE : r == 0 ? REFUSED : WRONG; };
                s.input = [=]() -> std::string { if (!st->s) return "none"; Out o; o.v("n", st->s->nsrc).v("np", st->s->nphases); if (st->s->nsrc) o.a("c", st->s->cell, st->s->nsrc).a("v", st->s->flux, st->s->nsrc).a("s", st->s->saturation, np * st->s->nsrc); return o.s; };
                s.result = s.input;
                s.done = [=] { compr_src_deallocate(st->s); };
                run(s);
            }
            {
                std::shared_ptr<St> st(new St()); Sc s;
                s.id = vh::fmt("compr_bc np%d cap%d have%d", np, cap, have);
                auto app = [=](int i) { return compr_bc_append(i % 2 ? COMPR_BC_PRESSURE : BC_RESV, 5 + i, np, 1. + i, 2. + i, &sat[0], st->b); };
                s.prep = [=] { st->b = 0; if (have >= 0) { st->b = compr_bc_allocate(np, cap); for (int i = 0; i < have; ++i) app(i); } };
                s.op = [=]() -> Ret {
                    if (have < 0) { st->b = compr_bc_allocate(np, cap); return st->b ? DONE : REFUSED; }
                    int r = app(have); return r == 1 ? DONE : r == 0 ? REFUSED : WRONG; };
                s.input = [=]() -> std::string { if (!st->b) return "none"; Out o; int n = st->b->nbc; o.v("n", n).v("np", st->b->nphases); if (n) o.a("t", st->b->type, n).a("f", st->b->face, n).a("p", st->b->press, n).a("v", st->b->flux, n).a("s", st->b->saturation, np * n); return o.s; };
                s.result = s.input;
                s.done = [=] { compr_bc_deallocate(st->b); };
                run(s);
            }
            {
                std::shared_ptr<St> st(new St()); Sc s;
                s.id = vh::fmt("transport_source np%d cap%d have%d", np, cap, have);
                auto app = [=](int i) { return append_transport_source(i, np, 5. + i, 1. + i, &sat[0], &z[0], st->t); };
                s.prep = [=] { st->t = 0; if (have >= 0) { st->t = create_transport_source(cap, np); for (int i = 0; i < have; ++i) app(i); } };
                s.op = [=]() -> Ret {
                    if (have < 0) { st->t = create_transport_source(cap, np); return st->t ? DONE : REFUSED; }
                    int r = app(have); return r == 1 ? DONE : r == 0 ? REFUSED : WRONG; };
                s.input = [=]() -> std::string { if (!st->t) return "none"; Out o; int n = st->t->nsrc; o.v("n", n).v("np", st->t->nphase); if (n) o.a("c", st->t->cell, n).a("p", st->t->pressure, n).a("v", st->t->flux, n).a("s", st->t->saturation, np * n).a("z", st->t->surfvolume, np * n); return o.s; };
                s.result = s.input;
                s.done = [=] { destroy_transport_source(st->t); };
                run(s);
            }
        }
    }
}

// ---- matrices and linear systems ----------------------------------------------------------------------------------
static void matrixscenarios()
{
    struct St { struct CSRMatrix* A; DV x; };
    for (int m = 1; m <= 4; ++m) {
        std::shared_ptr<St> st(new St()); Sc s;
        s.id = vh::fmt("csrmatrix_new_count_nnz %d", m);
        s.prep = [=] { st->A = 0; };
        s.op = [=]() -> Ret { st->A = csrmatrix_new_count_nnz(m); return st->A ? DONE : REFUSED; };
        s.input = none;
        s.result = [=] { return csr(st->A); };
        s.done = [=] { csrmatrix_delete(st->A); };
        run(s);
        s.id = vh::fmt("csrmatrix_new_known_nnz %d", m);
        s.op = [=]() -> Ret { st->A = csrmatrix_new_known_nnz(m, 2 * m); return st->A ? DONE : REFUSED; };
        s.result = [=]() -> std::string { if (!st->A) return "none"; memset(st->A->ia, 0, (m + 1) * sizeof(int)); memset(st->A->ja, 0, 2 * m * sizeof(int)); memset(st->A->sa, 0, 2 * m * sizeof(double)); return csr(st->A); };
        run(s);
        s.id = vh::fmt("csrmatrix_new_elms_pushback %d", m);
        s.prep = [=] { st->A = csrmatrix_new_count_nnz(m); for (int i = 0; i < m; ++i) st->A->ia[i + 1] = 1 + i % 2; };
        s.op = [=]() -> Ret {
            // a new attempt starts from row counts again
            for (int i = 0; i < m; ++i) st->A->ia[i + 1] = 1 + i % 2;
            size_t r = csrmatrix_new_elms_pushback(st->A);
            if (r == 0) { if (st->A->ja || st->A->sa || st->A->nnz) return WRONG; return REFUSED; }
            return r == (size_t)(m + m / 2) ? DONE : WRONG; };
        s.input = none;
        s.result = [=]() -> std::string { if (!st->A->ja) return "none"; memset(st->A->ja, 0, st->A->nnz * sizeof(int)); memset(st->A->sa, 0, st->A->nnz * sizeof(double)); return csr(st->A); };
        run(s);
        // direct solver, including the factorisation's own requests
        s.id = vh::fmt("call_UMFPACK %d", m);
        s.prep = [=] {
            st->A = csrmatrix_new_known_nnz(m, 3 * m - 2);
            int k = 0; st->A->ia[0] = 0;
            for (int i = 0; i < m; ++i) { for (int j = std::max(0, i - 1); j <= std::min(m - 1, i + 1); ++j) { st->A->ja[k] = j; st->A->sa[k++] = i == j ? 4 + i : -1 - 0.5 * j; } st->A->ia[i + 1] = k; }
            st->x.assign(m, -7);
        };
        s.op = [=]() -> Ret { DV b(m); for (int i = 0; i < m; ++i) b[i] = i + 1; int r = call_UMFPACK(st->A, &b[0], &st->x[0]); return r == 1 ? DONE : r == 0 ? REFUSED : WRONG; };
        s.input = [=] { return csr(st->A) + Out().a("sa", st->A->sa, st->A->nnz).s; };
        s.result = [=] { return Out().a("x", &st->x[0], m).s; };
        run(s);
    }
    struct Hs { struct hash_set* h; };
    for (int cap = 0; cap <= 4; ++cap) for (int have = -1; have <= 4; ++have) {
        std::shared_ptr<Hs> st(new Hs()); Sc s;
        s.id = vh::fmt("hash_set cap%d have%d", cap, have);
        s.prep = [=] { st->h = 0; if (have >= 0) { st->h = hash_set_allocate(cap); for (int i = 0; i < have; ++i) hash_set_insert(5 * i + 1, st->h); } };
        s.op = [=]() -> Ret { if (have < 0) { st->h = hash_set_allocate(cap); return st->h ? DONE : REFUSED; } int r = hash_set_insert(5 * have + 1, st->h); return r == 5 * have + 1 ? DONE : r < 0 ? REFUSED : WRONG; };
        s.input = [=]() -> std::string { if (!st->h) return "none"; IV v; for (size_t i = 0; i < st->h->m; ++i) if (st->h->s[i] >= 0) v.push_back(st->h->s[i]); std::sort(v.begin(), v.end()); return vh::str(v) + vh::fmt(" %d", (int)hash_set_count_elms(st->h)); };
        s.result = s.input;
        s.done = [=] { hash_set_deallocate(st->h); };
        run(s);
    }
}

// ---- pressure solvers --------------------------------------------------------------------------------------------
struct LegW { well_t W; IV pos, cells; };
static std::shared_ptr<LegW> legacy(int nw, int nc)
{
    std::shared_ptr<LegW> l(new LegW);
    l->pos.push_back(0);
    for (int w = 0; w < nw; ++w) { for (int i = 0; i <= w; ++i) l->cells.push_back((w * 2 + i) % nc); l->pos.push_back(l->cells.size()); }
    l->cells.push_back(-1);
    l->W.number_of_wells = nw; l->W.well_connpos = &l->pos[0]; l->W.well_cells = &l->cells[0];
    return l;
}
static void solverscenarios()
{
    struct St { struct UnstructuredGrid* g; struct Wells* W; struct ifs_tpfa_data* i; struct cfs_tpfa_res_data* r; struct cfs_tpfa_res_wells rw; struct cfs_tpfa_data* c; struct fsh_data* f; struct CSRMatrix* A; int *cp, *cw; };
    for (int gk = 0; gk < 3; ++gk) for (int nw = -1; nw <= 3; ++nw) {
        // nw -1: no wells at all; 0: an empty set of wells
        std::shared_ptr<St> st(new St()); Sc s;
        auto prep = [=] {
            memset(st.get(), 0, sizeof(St));
            st->g = gk == 0 ? create_grid_cart2d(1, 1, 1., 1.) : gk == 1 ? create_grid_cart2d(3, 2, 1., 2.) : create_grid_hexa3d(2, 1, 2, 1., 1., 1.);
            if (nw >= 0) { st->W = create_wells(2, 0, 0); for (int w = 0; w < nw; ++w) { int c[] = { w % st->g->number_of_cells, (w + 1) % st->g->number_of_cells }; double wi[] = { 1, 2 }; add_well(INJECTOR, 0, gk ? 2 : 1, 0, c, wi, "w", st->W); } }
            st->rw.W = st->W;
        };
        s.prep = prep;
        s.input = [=] { return griddig(st->g) + wells(st->W, true); };
        s.done = [=] { ifs_tpfa_destroy(st->i); cfs_tpfa_res_destroy(st->r); cfs_tpfa_destroy(st->c); fsh_destroy(st->f); csrmatrix_delete(st->A); deallocate_cell_wells(st->cp, st->cw); destroy_wells(st->W); destroy_grid(st->g); };
        s.id = vh::fmt("ifs_tpfa_construct grid%d wells%d", gk, nw);
        s.op = [=]() -> Ret { st->i = ifs_tpfa_construct(st->g, st->W); return st->i ? DONE : REFUSED; };
        s.result = [=] { return csr(st->i ? st->i->A : 0); };
        run(s);
        for (int np = 1; np <= 3; ++np) {
            s.id = vh::fmt("cfs_tpfa_res_construct grid%d wells%d np%d", gk, nw, np);
            s.op = [=]() -> Ret { st->r = cfs_tpfa_res_construct(st->g, nw == -1 ? 0 : &st->rw, np); return st->r ? DONE : REFUSED; };
            s.result = [=] { return csr(st->r ? st->r->J : 0); };
            run(s);
        }
        if (nw == 0) continue;
        std::shared_ptr<LegW> l = nw > 0 ? legacy(nw, gk == 0 ? 1 : 4) : std::shared_ptr<LegW>();
        if (nw > 0 && gk == 0) { l->pos.resize(nw + 1); for (int w = 0; w <= nw; ++w) l->pos[w] = w; }
        well_t* lw = l ? &l->W : 0;
        if (lw) lw->well_connpos = &l->pos[0];
        s.id = vh::fmt("cfs_tpfa_construct grid%d wells%d", gk, nw);
        s.op = [=]() -> Ret { st->c = cfs_tpfa_construct(st->g, l ? &l->W : 0, 2); return st->c ? DONE : REFUSED; };
        s.result = [=] { return csr(st->c ? st->c->A : 0); };
        run(s);
        s.id = vh::fmt("ifsh_construct grid%d wells%d", gk, nw);
        s.op = [=]() -> Ret { st->f = ifsh_construct(st->g, l ? &l->W : 0); return st->f ? DONE : REFUSED; };
        s.result = [=] { return csr(st->f ? st->f->A : 0); };
        run(s);
        s.id = vh::fmt("cfsh_construct grid%d wells%d", gk, nw);
        s.op = [=]() -> Ret { st->f = cfsh_construct(st->g, l ? &l->W : 0); return st->f ? DONE : REFUSED; };
        run(s);
        s.id = vh::fmt("hybsys_define_globconn grid%d wells%d", gk, nw);
        s.op = [=]() -> Ret { st->A = hybsys_define_globconn(st->g, l ? &l->W : 0); return st->A ? DONE : REFUSED; };
        s.result = [=] { return csr(st->A); };
        run(s);
        if (!lw) continue;
        s.id = vh::fmt("allocate_cell_wells grid%d wells%d", gk, nw);
        s.op = [=]() -> Ret { int r = allocate_cell_wells(st->g->number_of_cells, &l->W, &st->cp, &st->cw); if (r == 0) return st->cp || st->cw ? WRONG : REFUSED; return r == l->pos[nw] ? DONE : WRONG; };
        s.result = [=]() -> std::string { return Out().a("cp", st->cp, st->g->number_of_cells + 1).s; };
        run(s);
    }
    for (int np = 1; np <= 3; ++np) for (int nc = 1; nc <= 3; ++nc) {
        std::shared_ptr<struct compr_quantities_gen*> q(new struct compr_quantities_gen*(0)); Sc s;
        s.id = vh::fmt("compr_quantities_gen_allocate np%d nc%d", np, nc);
        s.prep = [=] { *q = 0; };
        s.op = [=]() -> Ret { *q = compr_quantities_gen_allocate(nc, 2 * nc, np); return *q ? DONE : REFUSED; };
        s.input = none;
        s.result = [=]() -> std::string { if (!*q) return "none"; return Out().v("np", (*q)->nphases).a("Ac", (*q)->Ac, nc * np * np).a("dAc", (*q)->dAc, nc * np * np).a("Af", (*q)->Af, 2 * nc * np * np).a("pm", (*q)->phasemobf, 2 * nc * np).a("vd", (*q)->voldiscr, nc).s; };
        s.done = [=] { compr_quantities_gen_deallocate(*q); };
        run(s);
    }
    struct Hy { struct hybsys* s; struct hybsys_well* w; };
    for (int nc = 1; nc <= 3; ++nc) for (int kind = 0; kind < 4; ++kind) {
        std::shared_ptr<Hy> q(new Hy()); Sc s;
        std::shared_ptr<IV> pos(new IV);
        for (int c = 0; c <= nc; ++c) pos->push_back(c ? 1 + c / 2 : 0);
        s.id = vh::fmt("hybsys kind%d nc%d", kind, nc);
        s.prep = [=] { q->s = 0; q->w = 0; };
        s.op = [=]() -> Ret {
            if (kind == 0) q->s = hybsys_allocate_symm(4, nc, 4 * nc);
            else if (kind == 1) q->s = hybsys_allocate_unsymm(4, nc, 4 * nc);
            else if (kind == 2) q->w = hybsys_well_allocate_symm(4, nc, &(*pos)[0]);
            else q->w = hybsys_well_allocate_unsymm(4, nc, &(*pos)[0]);
            return q->s || q->w ? DONE : REFUSED; };
        s.input = none;
        s.result = [=]() -> std::string {
            if (q->s) { hybsys_init(4, q->s); return Out().a("one", q->s->one, 4).v("same", q->s->F1 == q->s->F2).s; }
            return q->w ? "well" : "none"; };
        s.done = [=] { hybsys_free(q->s); hybsys_well_free(q->w); };
        run(s);
    }
}

// ---- partitions and multi-scale pressure --------------------------------------------------------------------------
static void solve(struct CSRMatrix* A, double* b, double* x)
{
    bool a = mem().armed; mem().armed = false;   // the caller's solver has no way to report
    call_UMFPACK(A, b, x);
    mem().armed = a;
}
static std::string topo(const struct coarse_topology* t)
{
    if (!t) return "none";
    Out o;
    o.v("nb", t->nblocks).v("nf", t->nfaces).a("nei", t->neighbours, 2 * t->nfaces).a("bfp", t->blkfacepos, t->nblocks + 1).a("bf", t->blkfaces, t->blkfacepos[t->nblocks]);
    o.a("sfp", t->subfacepos, t->nfaces + 1);
    if (t->subfacepos) { IV v(t->subfaces, t->subfaces + t->subfacepos[t->nfaces]); for (int f = 0; f < t->nfaces; ++f) std::sort(v.begin() + t->subfacepos[f], v.begin() + t->subfacepos[f + 1]); o.a("sf", v.empty() ? (int*)0 : &v[0], v.size()); }
    return o.s;
}
static void coarsescenarios()
{
    struct St { struct UnstructuredGrid* g; IV p; int *pi, *inv; int res; struct coarse_topology* ct; struct coarse_sys* cs; struct ifsh_ms_data* h; DV src, mob, perm; };
    static const int parts[6][6] = { { 0, 0, 0, 1, 1, 1 }, { 0, 0, 1, 0, 0, 1 }, { 0, 1, 2, 0, 1, 2 }, { 0, 1, 2, 3, 4, 5 }, { 0, 0, 1, 2, 2, 1 }, { 0, 1, 1, 0, 2, 3 } };
    for (int pk = 0; pk < 6; ++pk) {
        std::shared_ptr<St> st(new St()); Sc s;
        s.prep = [=] {
            st->g = create_grid_cart2d(3, 2, 1., 2.);
            st->p.assign(parts[pk], parts[pk] + 6);
            st->pi = st->inv = 0; st->ct = 0; st->cs = 0; st->h = 0; st->res = -9;
            st->src.assign(6, 0.0); st->src[0] = 1; st->src[5] = -1;
            st->mob.assign(6, 1.0); for (int i = 0; i < 6; ++i) st->mob[i] += 0.25 * i;
            st->perm.assign(24, 0.0); for (int i = 0; i < 6; ++i) st->perm[4 * i] = st->perm[4 * i + 3] = 1 + i % 2;
        };
        s.done = [=] { partition_deallocate_inverse(st->pi, st->inv); ifsh_ms_destroy(st->h); coarse_sys_destroy(st->cs); coarse_topology_destroy(st->ct); destroy_grid(st->g); };
        s.input = [=] { return vh::str(st->p) + griddig(st->g); };
        s.id = vh::fmt("partition_compress %d", pk);
        s.op = [=]() -> Ret { int r = partition_compress(6, &st->p[0]); return r >= 0 ? DONE : r == -1 ? REFUSED : WRONG; };
        s.result = s.input;
        run(s);
        s.id = vh::fmt("partition_unif_idx %d", pk);
        s.op = [=]() -> Ret { int fine[] = { 3, 2 }, coarse[] = { 1 + pk % 3, 1 + pk / 3 }; IV idx(6); for (int i = 0; i < 6; ++i) idx[i] = i; int r = partition_unif_idx(2, 6, fine, coarse, &idx[0], &st->p[0]); return r == 6 ? DONE : r == -1 ? REFUSED : WRONG; };
        run(s);
        s.id = vh::fmt("partition_allocate_inverse %d", pk);
        s.op = [=]() -> Ret {
            int mx = *std::max_element(st->p.begin(), st->p.end());
            st->pi = st->inv = (int*)1;
            int r = partition_allocate_inverse(6, mx, &st->pi, &st->inv);
            if (r <= 0) { bool z = !st->pi && !st->inv; st->pi = st->inv = 0; return z ? REFUSED : WRONG; }
            partition_invert(6, &st->p[0], st->pi, st->inv);
            return r == 6 ? DONE : WRONG; };
        s.result = [=] { int mx = *std::max_element(st->p.begin(), st->p.end()); return Out().a("pi", st->pi, mx + 2).a("inv", st->inv, 6).s; };
        run(s);
        s.id = vh::fmt("partition_split_disconnected %d", pk);
        s.op = [=]() -> Ret { int r = partition_split_disconnected(6, st->g->number_of_faces, st->g->face_cells, &st->p[0]); st->res = r; return r >= 0 ? DONE : r == -1 ? REFUSED : WRONG; };
        s.result = [=] { return vh::str(st->p) + vh::fmt(" %d", st->res); };
        run(s);
        for (int ex = 0; ex <= 4; ++ex) {
            s.id = vh::fmt("coarse_topology_create %d expect%d", pk, ex);
            s.op = [=]() -> Ret { st->ct = coarse_topology_create(6, st->g->number_of_faces, ex, &st->p[0], st->g->face_cells); return st->ct ? DONE : REFUSED; };
            s.result = [=] { return topo(st->ct); };
            run(s);
        }
        std::function<void()> prep = s.prep;
        s.prep = [=] { prep(); st->ct = coarse_topology_create(6, st->g->number_of_faces, 4, &st->p[0], st->g->face_cells); };
        s.input = [=] { return vh::str(st->p) + griddig(st->g) + topo(st->ct); };
        s.id = vh::fmt("coarse_sys_construct %d", pk);
        s.op = [=]() -> Ret { st->cs = coarse_sys_construct(st->g, &st->p[0], st->ct, &st->perm[0], &st->src[0], &st->mob[0], solve); return st->cs ? DONE : REFUSED; };
        s.result = [=]() -> std::string {
            if (!st->cs) return "none";
            int nb = st->ct->nblocks; Out o;
            return o.a("dp", st->cs->blkdof_pos, nb + 1).a("bp", st->cs->basis_pos, nb + 1).a("cp", st->cs->cell_ip_pos, nb + 1).a("d", st->cs->blkdof, st->cs->blkdof_pos[nb]).a("basis", st->cs->basis, st->cs->basis_pos[nb]).a("ip", st->cs->cell_ip, st->cs->cell_ip_pos[nb]).s; };
        run(s);
        s.prep = prep;
        s.input = [=] { return vh::str(st->p) + griddig(st->g); };
        s.id = vh::fmt("ifsh_ms_construct %d", pk);
        s.op = [=]() -> Ret { st->h = ifsh_ms_construct(st->g, &st->p[0], &st->perm[0], &st->src[0], &st->mob[0], solve); return st->h ? DONE : REFUSED; };
        s.result = [=]() -> std::string {
            if (!st->h) return "none";
            DV src(st->src);
            ifsh_ms_assemble(&src[0], &st->mob[0], st->h);
            int m = st->h->A->m;
            return csr(st->h->A) + Out().a("sa", st->h->A->sa, st->h->A->ia[m]).a("b", st->h->b, m).s; };
        run(s);
    }
}

void explore()
{
    SuiteSparse_config_malloc_func_set(__wrap_malloc);
    SuiteSparse_config_calloc_func_set(__wrap_calloc);
    SuiteSparse_config_realloc_func_set(__wrap_realloc);
    SuiteSparse_config_free_func_set(__wrap_free);
    wellscenarios();
    gridscenarios();
    listscenarios();
    matrixscenarios();
    solverscenarios();
    coarsescenarios();
}
