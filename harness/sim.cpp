// Whole simulations: the incompressible and compressible two-phase simulators against step-by-step composition of their
// public parts, with balances of every phase, written files and switching of well controls.
#include "flow.hpp"
#include "deck.hpp"
#include <map>
#include <dirent.h>
#include <sys/stat.h>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/simulator/SimulatorReport.hpp>
#include <opm/core/simulator/SimulatorIncompTwophase.hpp>
#include <opm/core/simulator/SimulatorCompressibleTwophase.hpp>
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/pressure/CompressibleTpfa.hpp>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
#include <opm/core/transport/implicit/TransportSolverTwophaseImplicit.hpp>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/utility/miscUtilities.hpp>
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>
#include <opm/core/grid/ColumnExtract.hpp>
#include <opm/core/io/vtk/writeVtkData.hpp>
#include <opm/core/wells/WellsManager.hpp>
using namespace Opm;
typedef std::vector<double> V;
typedef long double LD;
static const double BAR = 1e5, DAY = 86400;

struct IP : public fl::Incomp {
    IP(const UnstructuredGrid* g) : fl::Incomp(g, 2) {
        fl::setperm(*this, 1);
        for (size_t i = 0; i < perm.size(); ++i) perm[i] *= 1e-13;
        for (int c = 0; c < nc; ++c) { poro[c] = 0.2 + 0.05 * (c % 3); if (perm[c * dim * dim] < 1e-15) for (int i = 0; i < dim; ++i) perm[c * dim * dim + i * (dim + 1)] = 2e-14; }
        mu[0] = 1e-3; mu[1] = 4e-3; rho[0] = 1000; rho[1] = 750;
    }
};
struct BP : public fl::Black {
    BP(const UnstructuredGrid* g, int kind) : fl::Black(g, 2, 0) {
        for (size_t i = 0; i < perm.size(); ++i) perm[i] *= 1e-13;
        for (int i = 0; i < nc; ++i) poro[i] = 0.2 + 0.05 * (i % 3);
        mu0[0] = 1e-3; mu0[1] = 4e-3; rs[0] = 1000; rs[1] = 750; b0[0] = 0.98; b0[1] = 0.9;
        if (kind) { c[0] = 1e-9; c[1] = 4e-9; muc[1] = 1e-9; }
    }
};
// A simulation
struct Cfg {
    int grid, wells, src, bc, grav, rock, solver, sub, nsteps; double dt; int out, fluid, deck;
    std::string id;
};
static const double G3[3] = { 0, 0, 9.81 }, G2[2] = { 0, 9.81 };
static FlowBoundaryConditions* makebc(const UnstructuredGrid* g, int bc)
{
    if (!bc) return 0;
    FlowBoundaryConditions* b = flow_conditions_construct(0);
    // pressure on faces at the low and high end in x; bc 2: one end only
    for (int f = 0; f < g->number_of_faces; ++f) if (g->face_cells[2 * f] < 0 || g->face_cells[2 * f + 1] < 0) {
        const int c = std::max(g->face_cells[2 * f], g->face_cells[2 * f + 1]);
        const double dx = g->face_centroids[g->dimensions * f] - g->cell_centroids[g->dimensions * c];
        double n = 0; for (int i = 0; i < g->dimensions; ++i) n += std::pow(g->face_normals[g->dimensions * f + i], 2);
        if (std::pow(g->face_normals[g->dimensions * f], 2) < 0.9 * n) continue;
        if (dx < 0 && c == 0) flow_conditions_append(BC_PRESSURE, f, 101 * BAR, b);
        else if (dx > 0 && c == g->number_of_cells - 1 && bc == 1) flow_conditions_append(BC_PRESSURE, f, 100.5 * BAR, b);
    }
    return b;
}
static Wells* makewells(const UnstructuredGrid* g, int kind)
{
    if (!kind) return 0;
    const int nc = g->number_of_cells;
    Wells* W = create_wells(2, 2, 3);
    const double wat[2] = { 1, 0 }, oil[2] = { 0, 1 }, dist[2] = { 1, 1 };
    int ic[2] = { 0, nc > 2 ? 1 : 0 }, pc[1] = { nc - 1 };
    double iw[2] = { 2e-12, 1e-12 }, pw[1] = { 3e-12 };
    const int d = g->dimensions;
    add_well(INJECTOR, d == 3 ? g->cell_centroids[2] - 0.2 : 0, 2, wat, ic, iw, "I", W);
    add_well(PRODUCER, d == 3 ? g->cell_centroids[3 * nc - 1] : 0, 1, oil, pc, pw, "P", W);
    // 1 rate injector and pressure producer, 2 two rates (pressure free), 3 pressures, 4 rate injector, shut producer, 5 as 1 with a rate producer besides, 6 as 2 with a shut producer besides
    if (kind == 3) append_well_controls(BHP, 102 * BAR, dist, 0, W); else append_well_controls(RESERVOIR_RATE, 1e-6, dist, 0, W);
    if (kind == 2 || kind == 6) append_well_controls(RESERVOIR_RATE, -1e-6, dist, 1, W); else append_well_controls(BHP, 99.5 * BAR, dist, 1, W);
    if (kind >= 5) {
        int qc[1] = { nc > 3 ? 2 : 0 }; double qw[1] = { 1e-12 };
        add_well(PRODUCER, d == 3 ? g->cell_centroids[3 * qc[0] + 2] : 0, 1, oil, qc, qw, "Q", W);
        append_well_controls(RESERVOIR_RATE, -0.1e-6, dist, 2, W); set_current_control(2, kind == 6 ? -1 : 0, W);
    }
    set_current_control(0, 0, W); set_current_control(1, kind == 4 ? -1 : 0, W);
    return W;
}
// deck: 1 producer rate limited by pressure, 2 injector rate limited by pressure, 3 voidage replacement of the group, 4 pressure injector limited by rate, 5 by surface rate
static std::string decktext(int deck, const UnstructuredGrid* g)
{
    std::string t = vh::fmt("RUNSPEC\nDIMENS\n %d %d %d /\nWATER\nOIL\nMETRIC\nGRID\nSCHEDULE\n", g->cartdims[0], g->cartdims[1], g->cartdims[2]);
    if (deck == 3) t += "GRUPTREE\n 'G' 'FIELD' /\n/\n";
    const char* grp = deck == 3 ? "G" : "FIELD";
    t += vh::fmt("WELSPECS\n 'I' '%s' 1 1 1.0 'WATER' /\n 'P' '%s' %d %d 1.0 'OIL' /\n/\n", grp, grp, g->cartdims[0], g->cartdims[1]);
    t += vh::fmt("COMPDAT\n 'I' 1 1 1 1 'OPEN' 1* 10.0 0.2 /\n 'P' %d %d %d %d 'OPEN' 1* 10.0 0.2 /\n/\n", g->cartdims[0], g->cartdims[1], g->cartdims[2], g->cartdims[2]);
    if (deck == 3) {
        t += "GCONINJE\n 'G' 'WATER' 'VREP' 1* 1* 1* 1.0 /\n/\n";
        t += "WCONINJE\n 'I' 'WATER' 'OPEN' 'GRUP' 1* 5.0 300 /\n/\nWCONPROD\n 'P' 'OPEN' 'BHP' 5* 99.5 /\n/\n";
    } else {
        t += vh::fmt("WCONINJE\n 'I' 'WATER' 'OPEN' '%s' %s %g /\n/\n", deck >= 4 ? "BHP" : "RESV", deck == 5 ? "0.2 1*" : "1* 0.2", deck == 2 ? 101.5 : deck == 4 ? 110.0 : deck == 5 ? 100.8 : 500.0);
        t += vh::fmt("WCONPROD\n 'P' 'OPEN' '%s' 4* %s %g /\n/\n", deck == 1 ? "RESV" : "BHP", deck == 5 ? "5.0" : "0.2", deck == 1 ? 99.9 : 99.5);
    }
    return t;
}
struct World {
    UnstructuredGrid* g; FlowBoundaryConditions* bc; std::unique_ptr<WellsManager> wm; V src;
    std::unique_ptr<RockCompressibility> rock; LinearSolverUmfpack ls; const double* grav;
    World(const Cfg& c) : g(fl::grid(c.grid)), bc(makebc(g, c.bc)) {
        const int nc = g->number_of_cells;
        if (c.deck) {
            const IP p(g);
            dk::Deck d = dk::parse(decktext(c.deck, g));
            wm.reset(new WellsManager(*d, *g, p.permeability()));
        } else if (c.wells) { Wells* W = makewells(g, c.wells); wm.reset(new WellsManager(W)); destroy_wells(W); }
        else wm.reset(new WellsManager());
        src.assign(nc, 0.0);
        if (c.src == 1) { src[0] = 8e-7; src[nc - 1] = -8e-7; }
        if (c.src == 2) { src[nc - 1] = 5e-7; }
        if (c.rock) {
            parameter::ParameterGroup p; p.disableOutput();
            p.insertParameter("rock_compressibility_pref", "100"); p.insertParameter("rock_compressibility", c.rock == 2 ? "0.0" : "2e-2");
            rock.reset(new RockCompressibility(p));
        }
        grav = !c.grav ? 0 : g->dimensions == 3 ? G3 : G2;
    }
    ~World() { destroy_grid(g); if (bc) flow_conditions_destroy(bc); }
    const RockCompressibility* rc() const { return rock && rock->isActive() ? rock.get() : 0; }
};
static void setparam(parameter::ParameterGroup& p, const Cfg& c, const std::string& dir)
{
    p.disableOutput();
    p.insertParameter("nl_pressure_change_tolerance", "1e-4");
    p.insertParameter("nl_pressure_maxiter", "25");
    p.insertParameter("nl_tolerance", "1e-11");
    p.insertParameter("nl_maxiter", "80");
    if (c.sub != 1) p.insertParameter("num_transport_substeps", vh::fmt("%d", c.sub));
    if (c.solver == 1) p.insertParameter("use_segregation_split", "true");
    if (c.solver == 2) p.insertParameter("use_reorder", "false");
    if (c.deck || c.sub == 2) p.insertParameter("check_well_controls", "true");
    if (c.out == 0) p.insertParameter("output", "false");
    else { p.insertParameter("output_dir", dir); if (c.out > 1) p.insertParameter("output_interval", vh::fmt("%d", c.out)); if (c.out == 3) p.insertParameter("output_vtk", "false"); }
}
static void clock(SimulatorTimer& t, int n, double dt)
{
    parameter::ParameterGroup p; p.disableOutput();
    p.insertParameter("num_psteps", vh::fmt("%d", n)); p.insertParameter("stepsize_days", dk::num(dt));
    t.init(p);
}
struct Snap { V s, p, z, q, bhp, rate; std::vector<int> it; };
struct Row { double t, frac, cum; };
struct Ref { std::vector<Snap> snaps; std::vector<Row> cut; V sat, inj, prod, res; double vol; bool thrown; LD bal[2], scale; bool cross; V well; std::string text; };
static double tot(const V& v) { return std::accumulate(v.begin(), v.end(), 0.0); }

// Incompressible ----------------------------------------------------------------------------------------------------
static void start(const World& w, TwophaseState& st, WellState& ws)
{
    st.init(*w.g, 2);
    const int d = w.g->dimensions;
    for (int c = 0; c < w.g->number_of_cells; ++c) {
        st.saturation()[2 * c] = 0.15 + 0.2 * (c * 2 % 3); st.saturation()[2 * c + 1] = 1 - st.saturation()[2 * c];
        st.pressure()[c] = 100 * BAR + (w.grav ? 8000 * w.g->cell_centroids[d * c + d - 1] : 0);
    }
    ws.init(w.wm->c_wells(), st);
}
static void snap(Ref& r, const TwophaseState& st, const WellState& ws, const std::vector<int>* it)
{
    Snap s; s.s = st.saturation(); s.p = st.pressure(); s.q = st.faceflux(); s.bhp = ws.bhp(); s.rate = ws.perfRates(); if (it) s.it = *it;
    r.snaps.push_back(s);
}
static void sat2(const V& pv, const V& s, LD* o) { o[0] = o[1] = 0; for (size_t c = 0; c < pv.size(); ++c) for (int q = 0; q < 2; ++q) o[q] += (LD)pv[c] * s[2 * c + q]; }
static void pvol(const World& w, const double* poro, const V& p, V& pv)
{
    pv.resize(w.g->number_of_cells);
    for (int c = 0; c < w.g->number_of_cells; ++c) pv[c] = poro[c] * w.g->cell_volumes[c] * (w.rc() ? w.rc()->poroMult(p[c]) : 1.0);
}
static void renorm(const World& w, const V& before, V& p, V& bhp)
{
    LD a = 0, v = 0; for (int c = 0; c < w.g->number_of_cells; ++c) { a += ((LD)before[c] - p[c]) * w.g->cell_volumes[c]; v += w.g->cell_volumes[c]; }
    for (size_t c = 0; c < p.size(); ++c) p[c] += a / v;
    for (size_t k = 0; k < bhp.size(); ++k) bhp[k] += a / v;
}
static void mix(const V& a, const V& b, double x, V& o) { o.resize(a.size()); for (size_t i = 0; i < a.size(); ++i) o[i] = x == 0 ? a[i] : x == 1 ? b[i] : a[i] + x * (b[i] - a[i]); }
static void wellrow(Ref& r, const Wells* W, double t, const WellState& ws, const V& frac)
{
    r.well.push_back(t / DAY);
    for (int k = 0; k < W->number_of_wells; ++k) {
        double q = 0, wq = 0;
        for (int j = W->well_connpos[k]; j < W->well_connpos[k + 1]; ++j) { double x = ws.perfRates()[j] * DAY; q += x; wq += x * (x > 0 ? W->comp_frac[2 * k] : frac[W->well_cells[j]]); }
        r.well.push_back(ws.bhp()[k] / BAR); r.well.push_back(q); r.well.push_back(q == 0 ? 0 : wq / q);
    }
}
static void phaserates(const Wells* W, const V& rate, const V& frac, V& o)
{
    for (int k = 0; k < W->number_of_wells; ++k) {
        o[2 * k] = o[2 * k + 1] = 0;
        for (int j = W->well_connpos[k]; j < W->well_connpos[k + 1]; ++j) {
            const double f = frac[W->well_cells[j]];
            o[2 * k] += rate[j] * f; o[2 * k + 1] += rate[j] * (1 - f);
        }
    }
}
static void fractions(const IP& f, const V& s, V& o)
{
    o.resize(f.nc);
    for (int c = 0; c < f.nc; ++c) { double a = s[2 * c] * s[2 * c] / f.mu[0], b = s[2 * c + 1] * s[2 * c + 1] / f.mu[1]; o[c] = a / (a + b); }
}
static std::string g_out; struct Keep { fl::Quiet& q; Keep(fl::Quiet& q_) : q(q_) {} ~Keep() { g_out = q.s.str(); } };
static Ref incomp(const Cfg& cfg, World& w)
{
    fl::Quiet quiet; Keep keep(quiet);
    Ref r; r.thrown = r.cross = false;
    IP f(w.g);
    TwophaseState st; WellState ws; start(w, st, ws);
    const Wells* W = w.wm->c_wells();
    IncompTpfa ps(*w.g, f, w.rock.get(), w.ls, 0.0, 1e-4, 25, w.grav, W, w.src, w.bc);
    std::unique_ptr<TransportSolverTwophaseReorder> re; std::unique_ptr<TransportSolverTwophaseImplicit> im;
    V pv, pv0, a, b, ts, frac, resrate(W ? 2 * W->number_of_wells : 0, 0.0); pvol(w, f.porosity(), st.pressure(), pv); pv0 = pv;
    const double pvtot = tot(pv);
    if (cfg.solver == 2) { parameter::ParameterGroup par; setparam(par, cfg, ""); im.reset(new TransportSolverTwophaseImplicit(*w.g, f, pv, w.grav, ps.getHalfTrans(), par)); }
    else re.reset(new TransportSolverTwophaseReorder(*w.g, f, cfg.solver == 1 ? w.grav : 0, 1e-11, 80));
    std::vector<int> all; for (int c = 0; c < f.nc; ++c) all.push_back(c);
    bool freep = !W || true;
    LD v0[2], v1[2]; sat2(pv, st.saturation(), v0);
    double ti[2] = { 0, 0 }, tp[2] = { 0, 0 };
    fractions(f, st.saturation(), frac);
    { Row c0 = { 0, 0, 0 }; r.cut.push_back(c0); }
    if (W) wellrow(r, W, 0, ws, frac);
    const double dt = cfg.dt * DAY;
    for (int n = 0; n < cfg.nsteps; ++n) {
        snap(r, st, ws, re ? &re->getReorderIterations() : 0);
        const V before = st.pressure();
        const WellState wbefore = ws;
        V frac0; fractions(f, st.saturation(), frac0); if (cfg.deck) { w.wm->applyExplicitReinjectionControls(resrate, resrate); }
        for (int tries = 0; ; ++tries) {
            st.pressure() = before; ws = wbefore;
            ps.solve(dt, st, ws);
            freep = !w.rc();
            if (w.bc) for (size_t i = 0; i < w.bc->nbc; ++i) if (w.bc->type[i] == BC_PRESSURE) freep = false;
            if (W) for (int k = 0; k < W->number_of_wells; ++k) if (W->ctrls[k]->current >= 0 && W->ctrls[k]->type[W->ctrls[k]->current] == BHP) freep = false;
            if (freep) renorm(w, before, st.pressure(), ws.bhp());
            if (!cfg.deck) break;
            if (W) {
                phaserates(W, ws.perfRates(), frac0, resrate);
                if (w.wm->conditionsMet(ws.bhp(), resrate, resrate)) break;
            } else break;
            if (tries > 12) { r.thrown = true; return r; }
        }
        pv0 = pv; pvol(w, f.porosity(), st.pressure(), pv);
        computeTransportSource(*w.g, w.src, st.faceflux(), 1.0, W, ws.perfRates(), ts);
        // inflow through a producer is left out of the transport, with a warning
        if (W) for (int k = 0; k < W->number_of_wells; ++k) if (W->type[k] == PRODUCER) for (int j = W->well_connpos[k]; j < W->well_connpos[k + 1]; ++j) if (ws.perfRates()[j] > 0) r.cross = true;
        double inj[2] = { 0, 0 }, prod[2] = { 0, 0 };
        const double h = dt / cfg.sub;
        for (int k = 0; k < cfg.sub; ++k) {
            mix(pv0, pv, double(k) / cfg.sub, a); mix(pv0, pv, double(k + 1) / cfg.sub, b);
            if (re) re->solve(&a[0], &ts[0], h, st); else im->solve(&a[0], &ts[0], h, st);
            fractions(f, st.saturation(), frac);
            for (int c = 0; c < f.nc; ++c) { if (ts[c] > 0) inj[0] += ts[c] * h; else { prod[0] -= ts[c] * h * frac[c]; prod[1] -= ts[c] * h * (1 - frac[c]); } }
            if (re && cfg.solver == 1) re->solveGravity(&b[0], h, st);
        }
        for (int q = 0; q < 2; ++q) { ti[q] += inj[q]; tp[q] += prod[q]; }
        sat2(pv, st.saturation(), v1);
        for (int q = 0; q < 2; ++q) { r.sat.push_back(v1[q] / pvtot); r.res.push_back((v0[q] - v1[q] - tp[q] + ti[q]) / pvtot); r.inj.push_back(ti[q] / pvtot); r.prod.push_back(tp[q] / pvtot); }
        Row row = { (n + 1) * dt, prod[0] + prod[1] > 1e-12 * pvtot ? prod[0] / (prod[0] + prod[1]) : NAN, tp[0] / pvtot }; r.cut.push_back(row);
        fractions(f, st.saturation(), frac);
        if (W) wellrow(r, W, (n + 1) * dt, ws, frac);
    }
    for (int q = 0; q < 2; ++q) r.bal[q] = (v0[q] - v1[q] - tp[q] + ti[q]) / pvtot;
    r.scale = 1 + (ti[0] + ti[1]) / pvtot; r.vol = 1;
    snap(r, st, ws, re ? &re->getReorderIterations() : 0);
    return r;
}
// Compressible ------------------------------------------------------------------------------------------------------
static void start(const World& w, const BP& f, BlackoilState& st, WellState& ws)
{
    st.init(*w.g, 2);
    const int d = w.g->dimensions, nc = w.g->number_of_cells;
    for (int c = 0; c < nc; ++c) {
        st.saturation()[2 * c] = 0.15 + 0.2 * (c * 2 % 3); st.saturation()[2 * c + 1] = 1 - st.saturation()[2 * c];
        st.pressure()[c] = 100 * BAR + (w.grav ? 8000 * w.g->cell_centroids[d * c + d - 1] : 0);
        if (!c) st.surfacevol().resize(2 * nc); double A[4]; f.matrix(1, &st.pressure()[c], 0, 0, A, 0);
        st.surfacevol()[2 * c] = A[0] * st.saturation()[2 * c]; st.surfacevol()[2 * c + 1] = A[3] * st.saturation()[2 * c + 1];
    }
    ws.init(w.wm->c_wells(), st);
}
static void fractions(const BP& f, const V& p, const V& s, V& o)
{
    o.resize(f.nc);
    for (int c = 0; c < f.nc; ++c) { double m[2]; f.viscosity(1, &p[c], 0, 0, m, 0); double a = s[2 * c] * s[2 * c] / m[0], b = s[2 * c + 1] * s[2 * c + 1] / m[1]; o[c] = a / (a + b); }
}
static void snap(Ref& r, const BlackoilState& st, const WellState& ws)
{
    Snap s; s.s = st.saturation(); s.p = st.pressure(); s.z = st.surfacevol(); s.q = st.faceflux(); s.bhp = ws.bhp(); s.rate = ws.perfRates();
    r.snaps.push_back(s);
}
static Ref compr(const Cfg& cfg, World& w)
{
    fl::Quiet quiet; Keep keep(quiet);
    Ref r; r.thrown = r.cross = false;
    BP f(w.g, cfg.fluid - 1);
    BlackoilState st; WellState ws; start(w, f, st, ws);
    const Wells* W = w.wm->c_wells();
    CompressibleTpfa ps(*w.g, f, w.rock.get(), w.ls, 0.0, 1e-4, 25, w.grav, W);
    TransportSolverCompressibleTwophaseReorder tr(*w.g, f, 1e-11, 80);
    std::vector<std::vector<int> > cols;
    if (w.grav && cfg.solver == 1) { tr.initGravity(w.grav); extractColumn(*w.g, cols); }
    V pv, pv0, a, b, ts, frac, resrate(W ? 2 * W->number_of_wells : 0, 0.0); pvol(w, f.porosity(), st.pressure(), pv); pv0 = pv;
    const double pvtot = tot(pv), dt = cfg.dt * DAY;
    LD v0[2], v1[2]; sat2(pv, st.surfacevol(), v0);
    double ti[2] = { 0, 0 }, tp[2] = { 0, 0 };
    fractions(f, st.pressure(), st.saturation(), frac);
    { Row c0 = { 0, 0, 0 }; r.cut.push_back(c0); }
    if (W) wellrow(r, W, 0, ws, frac);
    for (int n = 0; n < cfg.nsteps; ++n) {
        snap(r, st, ws);
        const V before = st.pressure(); const WellState wbefore = ws;
        V frac0; fractions(f, st.pressure(), st.saturation(), frac0); if (cfg.deck) { w.wm->applyExplicitReinjectionControls(resrate, resrate); }
        for (int tries = 0; ; ++tries) {
            st.pressure() = before; ws = wbefore;
            ps.solve(dt, st, ws);
            if (ps.singularPressure()) renorm(w, before, st.pressure(), ws.bhp());
            if (!cfg.deck || !W) break;
            phaserates(W, ws.perfRates(), frac0, resrate);
            if (w.wm->conditionsMet(ws.bhp(), resrate, resrate)) break;
            if (tries > 12) { r.thrown = true; return r; }
        }
        pv0 = pv; pvol(w, f.porosity(), st.pressure(), pv);
        computeTransportSource(f, W, ws, ts);
        if (W) for (int k = 0; k < W->number_of_wells; ++k) if (W->type[k] == PRODUCER) for (int j = W->well_connpos[k]; j < W->well_connpos[k + 1]; ++j) if (ws.perfRates()[j] > 0) r.cross = true;
        double inj[2] = { 0, 0 }, prod[2] = { 0, 0 };
        const double h = dt / cfg.sub;
        if (!W) ts.assign(f.nc, 0.0);
        for (int k = 0; k < cfg.sub; ++k) {
            mix(pv0, pv, double(k) / cfg.sub, a); mix(pv0, pv, double(k + 1) / cfg.sub, b);
            tr.solve(&st.faceflux()[0], &st.pressure()[0], &a[0], &b[0], &ts[0], h, st.saturation(), st.surfacevol());
            fractions(f, st.pressure(), st.saturation(), frac);
            // sources in are surface volumes, out are reservoir volumes
            for (int c = 0; c < f.nc; ++c) {
                double A[4]; f.matrix(1, &st.pressure()[c], 0, 0, A, 0);
                if (ts[c] > 0) inj[0] += ts[c] * h; else { prod[0] -= ts[c] * h * frac[c] * A[0]; prod[1] -= ts[c] * h * (1 - frac[c]) * A[3]; }
            }
            if (w.grav && cfg.solver == 1) tr.solveGravity(cols, h, st.saturation(), st.surfacevol());
        }
        for (int q = 0; q < 2; ++q) { ti[q] += inj[q]; tp[q] += prod[q]; }
        sat2(pv, st.surfacevol(), v1);
        for (int q = 0; q < 2; ++q) { r.res.push_back(v0[q] - v1[q] - tp[q] + ti[q]); r.inj.push_back(ti[q]); r.prod.push_back(tp[q]); }
        Row row = { (n + 1) * dt, prod[0] + prod[1] > 1e-12 * pvtot ? prod[0] / (prod[0] + prod[1]) : NAN, tp[0] / pvtot }; r.cut.push_back(row);
        fractions(f, st.pressure(), st.saturation(), frac);
        if (W) wellrow(r, W, (n + 1) * dt, ws, frac);
    }
    for (int q = 0; q < 2; ++q) r.bal[q] = (v0[q] - v1[q] - tp[q] + ti[q]) / pvtot;
    r.scale = 1 + (ti[0] + ti[1]) / pvtot; r.vol = v0[0] + v0[1];
    snap(r, st, ws);
    return r;
}
// -------------------------------------------------------------------------------------------------------------------
static bool eq(const char* what, const V& a, const V& b, double rel, const std::string& id, double floor = 0)
{
    if (a.size() != b.size()) { vh::fail("size", "%s: %s has %d values, expected %d", id.c_str(), what, (int)a.size(), (int)b.size()); return false; }
    double big = floor; for (size_t i = 0; i < b.size(); ++i) big = std::max(big, std::fabs(b[i]));
    for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= rel * big) && !(std::isnan(a[i]) && std::isnan(b[i]))) { vh::fail(what, "%s: entry %d is %.12g, expected %.12g", id.c_str(), (int)i, a[i], b[i]); return false; }
    return true;
}
static bool read(const std::string& file, V& v)
{
    std::ifstream is(file.c_str()); if (!is) return false;
    std::string w; v.clear(); while (is >> w) v.push_back(strtod(w.c_str(), 0));
    return true;
}
static std::string slurp(const std::string& file) { std::ifstream is(file.c_str()); std::ostringstream o; o << is.rdbuf(); return o.str(); }
static std::vector<std::string> list(const std::string& dir)
{
    std::vector<std::string> r; DIR* d = opendir(dir.c_str()); if (!d) return r;
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name);
    closedir(d); std::sort(r.begin(), r.end()); return r;
}
static void wipe(const std::string& dir)
{
    std::vector<std::string> l = list(dir);
    for (size_t i = 0; i < l.size(); ++i) { const std::string p = dir + "/" + l[i]; struct stat s; if (!lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) wipe(p); else unlink(p.c_str()); }
    rmdir(dir.c_str());
}
static void files(const Cfg& cfg, const World& w, const Ref& r, const std::string& dir)
{
    const std::string& id = cfg.id; const int nc = w.g->number_of_cells;
    std::vector<std::string> names; std::vector<int> at;
    for (int n = 0; n <= cfg.nsteps; ++n) if (n == cfg.nsteps || n % cfg.out == 0) { at.push_back(n); names.push_back(vh::fmt("%03d.txt", n)); }
    std::vector<std::string> q; q.push_back("saturation"); q.push_back("pressure"); q.push_back("velocity");
    if (cfg.fluid) q.push_back("surfvolume"); else if (cfg.solver != 2) q.push_back("reorder_it");
    for (size_t i = 0; i < q.size(); ++i) {
        if (list(dir + "/" + q[i]) != names) { vh::fail("files", "%s: %s has %d files, expected %d", id.c_str(), q[i].c_str(), (int)list(dir + "/" + q[i]).size(), (int)names.size()); return; }
        for (size_t k = 0; k < at.size(); ++k) {
            const Snap& s = r.snaps[at[k]]; V got, want;
            if (q[i] == "saturation") want = s.s; else if (q[i] == "pressure") want = s.p; else if (q[i] == "surfvolume") want = s.z;
            else if (q[i] == "velocity") estimateCellVelocity(*w.g, s.q, want);
            else want.assign(s.it.begin(), s.it.end());
            read(dir + "/" + q[i] + "/" + names[k], got);
            if (q[i] == "reorder_it") { VH_CHECK(got.size() == want.size(), "files", "%s: %s", id.c_str(), q[i].c_str()); continue; }
            if (!eq(("file-" + q[i]).c_str(), got, want, q[i] == "velocity" ? 1e-5 : 1e-6, id + " " + names[k], q[i] == "velocity" ? 1e-10 : 0)) return;
        }
    }
    std::vector<std::string> vtk; if (cfg.out != 3) for (size_t k = 0; k < at.size(); ++k) vtk.push_back(vh::fmt("output-%03d.vtu", at[k]));
    if (list(dir + "/vtk_files") != vtk) { vh::fail("files", "%s: %d visualisation files, expected %d", id.c_str(), (int)list(dir + "/vtk_files").size(), (int)vtk.size()); return; }
    for (size_t k = 0; k < vtk.size(); ++k) {
        const std::string t = slurp(dir + "/vtk_files/" + vtk[k]); const Snap& s = r.snaps[at[k]];
        V vel; estimateCellVelocity(*w.g, s.q, vel);
        const char* nm[4] = { "saturation", "pressure", "velocity", "surfvolume" }; const V* want[4] = { &s.s, &s.p, &vel, &s.z };
        for (int i = 0; i < 3; ++i) {
            size_t a = t.find(vh::fmt("Name=\"%s\"", nm[i])); V got;
            if (a == std::string::npos) { vh::fail("files", "%s: no %s in %s", id.c_str(), nm[i], vtk[k].c_str()); return; }
            a = t.find('>', a) + 1; std::istringstream is(t.substr(a, t.find('<', a) - a)); double x; while (is >> x) got.push_back(x);
            if (!eq((std::string("vtk-") + nm[i]).c_str(), got, *want[i], i == 2 ? 1e-5 : 1e-6, id + " " + vtk[k], i == 2 ? 1e-10 : 0)) return;
        }
    }
    V cut, want; read(dir + "/watercut.txt", cut);
    for (size_t k = 0; k < r.cut.size(); ++k) { want.push_back(r.cut[k].t / DAY); want.push_back(r.cut[k].frac); want.push_back(r.cut[k].cum); }
    if (cut.size() != want.size()) { vh::fail("watercut", "%s: %d rows, expected %d", id.c_str(), (int)cut.size() / 3, (int)want.size() / 3); return; }
    for (size_t k = 0; k < cut.size(); ++k) if (!(std::isnan(want[k]) || std::fabs(cut[k] - want[k]) <= 2e-5 * std::fabs(want[k]) + 1e-9)) { vh::fail("watercut", "%s: row %d column %d is %g, expected %g", id.c_str(), (int)k / 3, (int)k % 3, cut[k], want[k]); return; }
    V rep; const bool has = read(dir + "/wellreport.txt", rep);
    VH_CHECK(has == !r.well.empty(), "wellreport", "%s: present %d", id.c_str(), has);
    if (rep.size() != r.well.size()) { vh::fail("wellreport", "%s: %d values, expected %d", id.c_str(), (int)rep.size(), (int)r.well.size()); return; }
    for (size_t k = 0; k < rep.size(); ++k) if (!(std::fabs(rep[k] - r.well[k]) <= 2e-5 * std::fabs(r.well[k]) + 1e-8)) { vh::fail("wellreport", "%s: value %d is %g, expected %g", id.c_str(), (int)k, rep[k], r.well[k]); return; }
    const std::string tm = slurp(dir + "/step_timing.param"); int n = 0;
    for (size_t a = tm.find("/timing/total_time="); a != std::string::npos; a = tm.find("/timing/total_time=", a + 1)) ++n;
    VH_CHECK(n == cfg.nsteps, "timing", "%s: %d entries for %d steps", id.c_str(), n, cfg.nsteps);
    (void)nc;
}
// numbers printed after a label, two per occurrence
static V printed(const std::string& t, const char* label)
{
    V v; const size_t n = strlen(label);
    for (size_t a = t.find(label); a != std::string::npos; a = t.find(label, a + 1)) { std::istringstream is(t.substr(a + n, 60)); double x, y; if (is >> x >> y) { v.push_back(x); v.push_back(y); } }
    return v;
}
template <class St> static bool final(const Cfg& cfg, const Ref& r, const St& st, const WellState& ws, const std::string& id)
{
    const Snap& e = r.snaps.back();
    double q = 1e-9; for (size_t i = 0; i < e.q.size(); ++i) q = std::max(q, std::fabs(e.q[i]));
    return eq("saturation", st.saturation(), e.s, 1e-6, id) && eq("pressure", st.pressure(), e.p, 1e-9, id) && eq("flux", st.faceflux(), e.q, 1e-5, id, 1e-9)
        && eq("bhp", ws.bhp(), e.bhp, 1e-9, id) && eq("rates", ws.perfRates(), e.rate, 1e-5, id, 1e-9);
}
// split: 0 one run, 1 one run per step with a fresh simulator, 2 the same simulator run once per step
static void incompressible(const Cfg& cfg, const Ref& r, int split)
{
    const std::string dir = vh::scratch() + "/sim", id = cfg.id + (split ? vh::fmt(" split %d", split) : "");
    wipe(dir);
    World w(cfg); IP f(w.g);
    std::string out; bool thrown = false;
    TwophaseState st; WellState ws; start(w, st, ws);
    SimulatorReport rep;
    {
        fl::Quiet quiet;
        parameter::ParameterGroup par; setparam(par, cfg, dir);
        std::unique_ptr<SimulatorIncompTwophase> sim;
        try {
            for (int n = 0; n < (split ? cfg.nsteps : 1); ++n) {
                SimulatorTimer t; clock(t, split ? 1 : cfg.nsteps, cfg.dt);
                if (!sim || split != 2) sim.reset(new SimulatorIncompTwophase(par, *w.g, f, w.rock.get(), *w.wm, w.src, w.bc, w.ls, w.grav));
                rep = sim->run(t, st, ws);
                if (!t.done()) thrown = true;
            }
        } catch (const std::exception& e) { thrown = true; out = e.what(); }
        if (!thrown) out = quiet.s.str();
        if (getenv("SIM_OUT")) fprintf(stderr, "SIM %s\n%s\n", id.c_str(), quiet.s.str().c_str());
    }
    vh::tr();
    if (thrown) { vh::fail("failed", "%s: %s", id.c_str(), out.c_str()); return; }
    if (!final(cfg, r, st, ws, id)) return;
    VH_CHECK(rep.pressure_time >= 0 && rep.transport_time >= 0 && rep.total_time + 1e-9 >= rep.pressure_time + rep.transport_time, "report", "%s: %g %g %g", id.c_str(), rep.pressure_time, rep.transport_time, rep.total_time);
    if (split) return;
    if (cfg.out) files(cfg, w, r, dir);
    const char* lab[3] = { "Saturated volumes:", "Total inj volumes:", "Total prod volumes:" }; const V* want[3] = { &r.sat, &r.inj, &r.prod };
    for (int i = 0; i < 3; ++i) if (!eq(lab[i], printed(out, lab[i]), *want[i], 6e-5, id, 1e-6)) return;
    if (!eq("volume error", printed(out, "Init - now - pr + inj:"), r.res, 6e-5, id, 0.02 * (double)r.scale)) return;
    vh::outcome(vh::hash(&st.saturation()[0], 8 * st.saturation().size()));
    wipe(dir);
}
static void compressible(const Cfg& cfg, const Ref& r, int split)
{
    const std::string dir = vh::scratch() + "/sim", id = cfg.id + (split ? vh::fmt(" split %d", split) : "");
    wipe(dir);
    World w(cfg); BP f(w.g, cfg.fluid - 1);
    std::string out; bool thrown = false;
    BlackoilState st; WellState ws; start(w, f, st, ws);
    SimulatorReport rep;
    {
        fl::Quiet quiet;
        parameter::ParameterGroup par; setparam(par, cfg, dir);
        std::unique_ptr<SimulatorCompressibleTwophase> sim;
        try {
            for (int n = 0; n < (split ? cfg.nsteps : 1); ++n) {
                SimulatorTimer t; clock(t, split ? 1 : cfg.nsteps, cfg.dt);
                if (!sim || split != 2) sim.reset(new SimulatorCompressibleTwophase(par, *w.g, f, w.rock.get(), *w.wm, V(), 0, w.ls, w.grav));
                rep = sim->run(t, st, ws);
                if (!t.done()) thrown = true;
            }
        } catch (const std::exception& e) { thrown = true; out = e.what(); }
        if (!thrown) out = quiet.s.str();
        if (getenv("SIM_OUT")) fprintf(stderr, "SIM %s\n%s\n", id.c_str(), quiet.s.str().c_str());
    }
    vh::tr();
    if (thrown) { vh::fail("failed", "%s: %s", id.c_str(), out.c_str()); return; }
    if (!final(cfg, r, st, ws, id) || !eq("surfacevol", st.surfacevol(), r.snaps.back().z, 1e-6, id)) return;
    if (split) return;
    if (cfg.out) files(cfg, w, r, dir);
    const char* lab[2] = { "Total inj surface volumes:", "Total prod surface volumes:" }; const V* want[2] = { &r.inj, &r.prod };
    for (int i = 0; i < 2; ++i) if (!eq(lab[i], printed(out, lab[i]), *want[i], 6e-5, id, 1e-6)) return;
    if (!eq("volume error", printed(out, "Initial - inplace + inj - prod:"), r.res, 6e-5, id, 0.02 * r.vol)) return;
    vh::outcome(vh::hash(&st.saturation()[0], 8 * st.saturation().size()));
    wipe(dir);
}
// every combination of the indices below with a few excluded because they are refused or not determined
static std::string name(const Cfg& c)
{
    return vh::fmt("%s:%s:w%d:d%d:s%d:b%d:g%d:r%d:m%d:k%d:n%d:t%g:o%d:f%d", c.fluid ? "compressible" : "incompressible", fl::gridname(c.grid), c.wells, c.deck, c.src, c.bc, c.grav, c.rock, c.solver, c.sub, c.nsteps, c.dt, c.out, c.fluid);
}
static bool usable(const Cfg& c)
{
    const bool d3 = c.grid == 1 || c.grid == 2 || c.grid == 3 || c.grid == 4 || c.grid == 6;
    if (!d3 && (c.grav || c.out == 1 || c.out == 2)) return false;              // vertical is the third direction, and visualisation needs 3D
    if (c.solver == 2 && (c.rock == 1 || c.fluid)) return false;                // refused
    if (!c.fluid && c.rock != 1 && c.src == 2 && !c.bc && c.wells != 1 && c.wells != 3 && c.wells != 5 && !c.deck) return false;   // no outlet
    if (c.fluid < 2 && c.rock != 1 && c.wells == 4 && !c.bc) return false;         // no outlet
    if (c.deck && c.wells) return false;
    if (c.deck == 5 && !c.fluid) return false;                                  // surface rates are refused
    return true;
}
static void run(Cfg c)
{
    c.id = name(c);
    if (!usable(c) || !vh::begin(c.id)) return;
    vh::state();
    World w(c);
    Ref r;
    try { r = c.fluid ? compr(c, w) : incomp(c, w); } catch (const std::exception& e) { if (getenv("SIM_OUT")) fprintf(stderr, "%s\n", g_out.c_str()); vh::fail("reference", "%s: parts failed: %s", c.id.c_str(), e.what()); return; }
    if (getenv("SIM_OUT")) fprintf(stderr, "%s\n%g\n", g_out.c_str(), r.snaps.back().rate[0] * DAY);
    if (r.thrown) { if (getenv("SIM_OUT")) fprintf(stderr, "%s\n", g_out.c_str()); vh::fail("reference", "%s: controls never met", c.id.c_str()); return; }
    // what the parts promise together: phases are neither created nor lost (water only where oil is found from the volume error)
    const bool seg = c.fluid && c.solver == 1 && c.grav;
    for (int q = 0; q < (c.fluid ? 1 : 2); ++q) if (!seg && !r.cross && !(std::fabs(r.bal[q]) <= (c.solver == 2 ? 1e-5 : 1e-7) * r.scale)) { vh::fail("balance", "%s: phase %d changes by %Lg of the pore volume (%Lg exchanged)", c.id.c_str(), q, r.bal[q], r.scale - 1); return; }
    // limits hold after every step; voidage is replaced with the rate of the step before
    const double lim[6] = { 0, 99.9 * BAR, 101.5 * BAR, 0, 0.2 / DAY, 0.2 / DAY / 0.98 };
    for (size_t k = 1; c.deck && k < r.snaps.size(); ++k) {
        const Snap& e = r.snaps[k];
        if (c.deck == 1) VH_CHECK(e.bhp[1] >= lim[1] - 1, "limit", "%s: producer at %.12g after step %d", c.id.c_str(), e.bhp[1], (int)k);
        if (c.deck == 2) VH_CHECK(e.bhp[0] <= lim[2] + 1, "limit", "%s: injector at %.12g after step %d", c.id.c_str(), e.bhp[0], (int)k);
        if (c.deck >= 4) VH_CHECK(e.rate[0] <= lim[c.deck] * (1 + 2e-6), "limit", "%s: injector injects %.12g after step %d", c.id.c_str(), e.rate[0], (int)k);
        if (c.deck == 3) VH_CHECK(std::fabs(e.rate[0] + (k > 1 ? r.snaps[k - 1].rate[1] : 0)) <= 1e-6 * std::fabs(e.rate[0]) + 1e-15, "voidage", "%s: %.12g injected in step %d after %.12g", c.id.c_str(), e.rate[0], (int)k, r.snaps[k - 1].rate[1]);
    }
    for (int s = 0; s < 3; ++s) {
        if (s && (c.deck == 3 || c.nsteps == 1)) continue;   // the rates to be replaced are those of the simulator's last step
        if (c.fluid) compressible(c, r, s); else incompressible(c, r, s);
    }
    if (!vh::thorough() && c.nsteps == 3 && c.sub == 2) vh::sample(c.id);
}
// times of several runs add up and are written as they are
static void reports(const std::vector<int>& ops)
{
    if (!vh::begin("reports/" + vh::str(ops))) return;
    SimulatorReport sum; double w[3] = { 0, 0, 0 };
    for (size_t i = 0; i < ops.size(); ++i) {
        SimulatorReport r; r.pressure_time = ops[i] == 0 ? 0 : 0.5 * (i + 1); r.transport_time = ops[i] == 2 ? 0.25 : 0.125 * i; r.total_time = r.pressure_time + r.transport_time + ops[i];
        w[0] += r.pressure_time; w[1] += r.transport_time; w[2] += r.total_time;
        if (ops[i] == 3) { SimulatorReport copy(r); copy += sum; sum = copy; } else sum += r;
        vh::tr();
        VH_CHECK(sum.pressure_time == w[0] && sum.transport_time == w[1] && sum.total_time == w[2], "report", "%g %g %g after %d", sum.pressure_time, sum.transport_time, sum.total_time, (int)i);
    }
    std::ostringstream a, b; sum.report(a); sum.reportParam(b);
    V x; std::string both = a.str() + b.str();
    for (size_t i = 0; i < both.size(); ++i) if ((both[i] == ' ' || both[i] == '=') && i + 1 < both.size() && isdigit(both[i + 1])) x.push_back(atof(both.c_str() + i + 1));
    VH_CHECK(x.size() == 6, "report", "%s", both.c_str());
    for (int k = 0; k < 6 && x.size() == 6; ++k) VH_CHECK(std::fabs(x[k] - w[(k + 2) % 3]) <= 1e-5 * x[k], "report", "%s", both.c_str());
    VH_CHECK(b.str().find("/timing/total_time=") == 0 && b.str().find("\n/timing/pressure/total_time=") != std::string::npos && b.str().find("\n/timing/transport/total_time=") != std::string::npos, "report", "%s", b.str().c_str());
}
void explore()
{
    const bool T = vh::thorough();
    for (int len = 0; len <= (T ? 6 : 4); ++len) { std::vector<int> ops(len, 0); do reports(ops); while (len && vh::next(ops, 4)); }
    for (int g = 0; g < fl::NGRID; ++g) for (int fluid = 0; fluid < 3; ++fluid) for (int wl = 0; wl < 7; ++wl) for (int src = 0; src < 3; ++src) for (int bc = 0; bc < 3; ++bc) {
        if (fluid && (src || bc)) continue;
        for (int gr = 0; gr < 2; ++gr) for (int rock = 0; rock < 3; ++rock) for (int sol = 0; sol < 3; ++sol) for (int sub = 1; sub <= 3; ++sub) for (int n = 1; n <= (T ? 4 : 3); ++n) for (int dt = 0; dt < (T ? 2 : 1); ++dt) {
            if ((g * 3 + wl + 2 * src + bc + gr * 5 + rock * 7 + sol * 2 + sub + n * 3) % (T ? 2 : 11)) continue;
            static const double DT[3] = { 0.5, 2, 0.1 };
            Cfg c = { g, wl, src, bc, gr, rock, sol, sub, n, DT[dt], (g + wl + sub + n) % 4, fluid, 0, "" };
            run(c);
        }
    }
    for (int g = 0; g < fl::NGRID; ++g) for (int fluid = 0; fluid < 3; ++fluid) for (int deck = 1; deck <= 5; ++deck) for (int gr = 0; gr < 2; ++gr) for (int rock = 0; rock < 2; ++rock) for (int sol = 0; sol < 2; ++sol) for (int sub = 1; sub <= 2; ++sub) for (int n = 1; n <= 3; ++n) {
        Cfg c = { g, 0, 0, 0, gr, rock, sol, sub, n, 0.5, (g + sub) % 4, fluid, deck, "" };
        if (g != 1 && g != 2 && g != 6) continue;
        if (!T && (g + deck + fluid + gr + rock + sub + sol + n) % 3) continue;
        run(c);
    }
    // larger grids
    for (int g = fl::LARGE; g < fl::NLARGE; ++g) for (int fluid = 0; fluid < 3; ++fluid) for (int wl = 0; wl < 7; ++wl) for (int src = 0; src < 3; ++src) for (int bc = 0; bc < 3; ++bc) {
        if (fluid && (src || bc)) continue;
        for (int gr = 0; gr < 2; ++gr) for (int rock = 0; rock < 3; ++rock) for (int sol = 0; sol < 3; ++sol) {
            if ((g + 2 * wl + 5 * src + bc + 3 * gr + rock * 7 + sol * 2) % (T ? 5 : 31)) continue;
            Cfg c = { g, wl, src, bc, gr, rock, sol, 1 + (wl + rock) % 2, 2, 0.5, (g + wl) % 4, fluid, 0, "" };
            run(c);
        }
    }
}
