// Every sequence of operations on the wells container up to a depth, against a plain reference.
#include "vh.hpp"
#include <opm/core/wells.h>

struct RC { int type; double target; bool hasdistr; std::vector<double> distr; };
struct RW { int type; double depth; std::vector<int> cells; std::vector<double> wi, cf; bool haswi, hascf, hasname; std::string name; std::vector<RC> c; int cur; };
typedef std::vector<RW> Ref;

// operation alphabet; 'w' selects the first or the last well
enum { ADD_PROD2, ADD_INJ0, ADD_BARE1, APP_RATE_L, APP_BHP_L, APP_RATE_F, CUR0_L, CURLAST_L, CURSHUT_F, CLEAR_L, CLEAR_F, CLONE, NOPS };
static const char* opname[] = { "P", "I", "B", "r", "b", "R", "0", "l", "~", "c", "C", "K" };

static int np;
static bool enabled(int op, const Ref& r)
{
    switch (op) {
    case ADD_PROD2: case ADD_INJ0: case ADD_BARE1: return true;
    case APP_RATE_L: case APP_BHP_L: return !r.empty();
    case APP_RATE_F: return r.size() > 1;
    case CUR0_L: return !r.empty() && r.back().c.size() >= 1;
    case CURLAST_L: return !r.empty() && r.back().c.size() >= 2;
    case CURSHUT_F: return !r.empty() && r[0].cur >= 0;
    case CLEAR_L: return !r.empty() && r.back().c.size();
    case CLEAR_F: return r.size() > 1 && r[0].c.size();
    case CLONE: return true;
    }
    return false;
}

static void compare(const struct Wells* W, const Ref& r, const char* where)
{
    int n = r.size();
    VH_CHECK(W->number_of_wells == n, "count", "%s: %d wells, expected %d", where, W->number_of_wells, n);
    VH_CHECK(W->number_of_phases == np, "phases", "%s: %d phases", where, W->number_of_phases);
    if (W->number_of_wells != n) return;
    int pos = 0;
    VH_CHECK(W->well_connpos[0] == 0, "connpos", "%s: first position %d", where, W->well_connpos[0]);
    for (int w = 0; w < n; ++w) {
        const RW& x = r[w];
        VH_CHECK((int)W->type[w] == x.type, "type", "%s: well %d type", where, w);
        VH_CHECK(W->depth_ref[w] == x.depth, "depth", "%s: well %d depth %g", where, w, W->depth_ref[w]);
        VH_CHECK(W->well_connpos[w + 1] == pos + (int)x.cells.size(), "connpos", "%s: well %d ends at %d", where, w, W->well_connpos[w + 1]);
        if (W->well_connpos[w + 1] != pos + (int)x.cells.size()) return;
        for (size_t k = 0; k < x.cells.size(); ++k) {
            VH_CHECK(W->well_cells[pos + k] == x.cells[k], "cells", "%s: well %d perforation %d in cell %d", where, w, (int)k, W->well_cells[pos + k]);
            if (x.haswi) VH_CHECK(W->WI[pos + k] == x.wi[k], "wi", "%s: well %d perforation %d index %g", where, w, (int)k, W->WI[pos + k]);
        }
        pos += x.cells.size();
        if (x.hascf)
            for (int p = 0; p < np; ++p)
                VH_CHECK(W->comp_frac[w * np + p] == x.cf[p], "frac", "%s: well %d phase %d fraction %g", where, w, p, W->comp_frac[w * np + p]);
        if (x.hasname) VH_CHECK(W->name[w] && x.name == W->name[w], "name", "%s: well %d name", where, w);
        else VH_CHECK(W->name[w] == 0, "name", "%s: well %d should have no name", where, w);
        const WellControls* c = W->ctrls[w];
        VH_CHECK(c != 0, "ctrl", "%s: well %d lacks controls", where, w);
        if (!c) continue;
        VH_CHECK(c->num == (int)x.c.size(), "ctrl", "%s: well %d has %d controls, expected %d", where, w, c->num, (int)x.c.size());
        if (c->num != (int)x.c.size()) continue;
        for (int k = 0; k < c->num; ++k) {
            VH_CHECK((int)c->type[k] == x.c[k].type && c->target[k] == x.c[k].target, "ctrl", "%s: well %d control %d is type %d target %g", where, w, k, (int)c->type[k], c->target[k]);
            if (x.c[k].hasdistr)
                for (int p = 0; p < np; ++p)
                    VH_CHECK(c->distr[k * np + p] == x.c[k].distr[p], "distr", "%s: well %d control %d phase %d distribution %g", where, w, k, p, c->distr[k * np + p]);
        }
        VH_CHECK(c->current == x.cur, "current", "%s: well %d current control %d, expected %d", where, w, c->current, x.cur);
    }
}

static void apply(int op, struct Wells*& W, Ref& r, int step, struct Wells** old)
{
    std::string nm = vh::fmt("WELL-%d", step);
    std::vector<double> d(np);
    for (int p = 0; p < np; ++p) d[p] = 10 * step + p + 1;
    int last = (int)r.size() - 1;
    int ok = 1;
    switch (op) {
    case ADD_PROD2: case ADD_INJ0: case ADD_BARE1: {
        RW x;
        x.type = op == ADD_INJ0 ? INJECTOR : PRODUCER;
        x.depth = 100 + step;
        int n = op == ADD_PROD2 ? 2 : op == ADD_INJ0 ? 0 : 1;
        for (int k = 0; k < n; ++k) { x.cells.push_back(7 * step + k); x.wi.push_back(0.5 + step + k); }
        x.cf = d; x.haswi = x.hasname = op != ADD_BARE1; x.hascf = op == ADD_INJ0; x.name = nm; x.cur = -1;
        ok = add_well((WellType)x.type, x.depth, n, x.hascf ? &x.cf[0] : 0, n ? &x.cells[0] : 0, x.haswi && n ? &x.wi[0] : 0, x.hasname ? nm.c_str() : 0, W);
        // what was not given is zero, as in a freshly created set
        if (!x.hascf) { x.cf.assign(np, 0.0); x.hascf = true; }
        if (!x.haswi) { x.wi.assign(n, 0.0); x.haswi = true; }
        r.push_back(x);
        nm.assign(nm.size(), '#');           // the name must have been copied
        break; }
    case APP_RATE_L: case APP_BHP_L: case APP_RATE_F: {
        int w = op == APP_RATE_F ? 0 : last;
        RC c; c.type = op == APP_BHP_L ? BHP : op == APP_RATE_F ? SURFACE_RATE : RESERVOIR_RATE;
        c.target = -1000.0 - step; c.hasdistr = op != APP_BHP_L; c.distr = d;
        ok = append_well_controls((WellControlType)c.type, c.target, c.hasdistr ? &d[0] : 0, w, W);
        d.assign(np, -77.0);
        r[w].c.push_back(c);
        break; }
    case CUR0_L: set_current_control(last, 0, W); r[last].cur = 0; break;
    case CURLAST_L: set_current_control(last, r[last].c.size() - 1, W); r[last].cur = r[last].c.size() - 1; break;
    case CURSHUT_F: set_current_control(0, ~r[0].cur, W); r[0].cur = ~r[0].cur; break;
    // no control is current any more
    case CLEAR_L: clear_well_controls(last, W); r[last].c.clear(); r[last].cur = -1; break;
    case CLEAR_F: clear_well_controls(0, W); r[0].c.clear(); r[0].cur = -1; break;
    case CLONE: {
        struct Wells* V = clone_wells(W);
        VH_CHECK(V != 0, "clone", "cloning returned nothing");
        if (V) {
            if (*old) destroy_wells(*old);
            *old = W; W = V;
        }
        break; }
    }
    VH_CHECK(ok, "status", "operation %s failed", opname[op]);
}

static void run(const std::vector<int>& ops, int nw, int npf)
{
    struct Wells* W = create_wells(np, nw, npf);
    VH_CHECK(W != 0, "create", "no wells object");
    if (!W) return;
    Ref r, oldref; struct Wells* old = 0;
    compare(W, r, "created");
    for (size_t k = 0; k < ops.size(); ++k) {
        if (ops[k] == CLONE) oldref = r;
        apply(ops[k], W, r, k + 1, &old);
        vh::tr();
    }
    compare(W, r, "final");
    if (old) compare(old, oldref, "original of the clone");
    vh::outcome(vh::fmt("%d:%d:%d", (int)r.size(), W->well_connpos[r.size()], r.empty() ? 0 : (int)r.back().c.size()));
    destroy_wells(W);
    if (old) destroy_wells(old);
}

static void advance(int op, Ref& s)
{
    switch (op) {
    case ADD_PROD2: case ADD_INJ0: case ADD_BARE1: { RW x; x.cur = -1; x.type = 0; x.depth = 0; s.push_back(x); break; }
    case APP_RATE_L: case APP_BHP_L: s.back().c.push_back(RC()); break;
    case APP_RATE_F: s[0].c.push_back(RC()); break;
    case CUR0_L: s.back().cur = 0; break;
    case CURLAST_L: s.back().cur = s.back().c.size() - 1; break;
    case CURSHUT_F: s[0].cur = ~s[0].cur; break;
    case CLEAR_L: s.back().c.clear(); s.back().cur = -1; break;
    case CLEAR_F: s[0].c.clear(); s[0].cur = -1; break;
    }
}
static void rec(std::vector<int>& ops, const Ref& shape, int depth, int nw, int npf)
{
    std::string id = vh::fmt("np=%d cap=%d,%d ops=", np, nw, npf);
    for (size_t k = 0; k < ops.size(); ++k) id += opname[ops[k]];
    if (vh::begin(id)) { run(ops, nw, npf); if (ops.size() == 4) vh::sample(id); }
    if ((int)ops.size() == depth) return;
    for (int op = 0; op < NOPS; ++op) {
        if (!enabled(op, shape)) continue;
        Ref s = shape;
        advance(op, s);
        ops.push_back(op);
        rec(ops, s, depth, nw, npf);
        ops.pop_back();
    }
}

void explore()
{
    const int caps[][2] = { { 0, 0 }, { 1, 1 }, { 3, 0 }, { 0, 5 }, { 4, 9 } };
    int D = vh::thorough() ? 7 : 5;
    for (int c = 0; c < 5; ++c)
        for (np = 1; np <= 3; ++np) {
            std::vector<int> ops;
            int d = D;
            if (np == 1) d = D - 1;
            if (c >= 2 && c < 4) d = D - 1;
            rec(ops, Ref(), d, caps[c][0], caps[c][1]);
        }
    // every short sequence from states further away: shut wells with several controls, many wells, many controls
    for (int pre = 0; pre < 6; ++pre) for (int c = 0; c < 5; c += 2) for (np = 1; np <= 3; ++np) {
        std::vector<int> ops;
        auto put = [&](std::initializer_list<int> l) { ops.insert(ops.end(), l); };
        switch (pre) {
        case 0: put({ ADD_BARE1, APP_RATE_L, APP_BHP_L, CURLAST_L }); break;
        case 1: put({ ADD_PROD2, APP_BHP_L, APP_RATE_L, APP_RATE_L, CURLAST_L, CURSHUT_F, ADD_INJ0 }); break;
        case 2: for (int k = 0; k < 9; ++k) { put({ k % 3 == 0 ? ADD_PROD2 : k % 3 == 1 ? ADD_INJ0 : ADD_BARE1, APP_RATE_L }); if (k % 2) put({ APP_BHP_L, CURLAST_L }); } break;
        case 3: for (int k = 0; k < 33; ++k) { put({ k % 4 ? ADD_PROD2 : ADD_BARE1, APP_BHP_L, CUR0_L }); if (k == 20) put({ CLONE, APP_RATE_F }); } break;
        case 4: put({ ADD_PROD2 }); for (int k = 0; k < 35; ++k) put({ k % 3 ? APP_RATE_L : APP_BHP_L }); put({ CURLAST_L, CURSHUT_F }); break;
        case 5: put({ ADD_INJ0, APP_RATE_L, APP_BHP_L, CURLAST_L, CURSHUT_F, ADD_PROD2, APP_RATE_L, CLONE, ADD_BARE1, CLEAR_F }); break;
        }
        Ref shape;
        for (size_t k = 0; k < ops.size(); ++k) { VH_CHECK(enabled(ops[k], shape), "prefix", "operation %d of prefix %d", (int)k, pre); advance(ops[k], shape); }
        const int more = vh::thorough() ? 5 : pre == 2 || pre == 3 ? 2 : 3;
        rec(ops, shape, ops.size() + more, caps[c][0], caps[c][1]);
    }
    VH_CHECK(clone_wells(0) == 0, "clone", "clone of nothing");
    destroy_wells(0);
}
