// Record keywords of Eclipse decks: layout, defaults and units of every item, and how to read them back.
#ifndef DECKREC_HPP
#define DECKREC_HPP
#include "deck.hpp"
namespace dr {
    enum Unit { ONE, LEN, TIME, DENS, PDENS, PRES, COMPR, VISC, PERM, LRAT, GRAT, RRAT, TRANS, LVOLF, GVOLF, GOR, OGR };
    // family 0 metric, 1 field; independent constants
    inline double factor(Unit u, int fam)
    {
        const double ft = 0.3048, day = 86400, psi = 6894.757293168361, stb = 0.158987294928, mcf = 28.316846592, lb = 0.45359237;
        switch (u) {
        case LEN: return fam ? ft : 1;
        case TIME: return day;
        case DENS: return fam ? lb / 0.028316846592 : 1;
        case PDENS: return fam ? lb / stb : 1;
        case PRES: return fam ? psi : 1e5;
        case COMPR: return fam ? 1 / psi : 1e-5;
        case VISC: return 1e-3;
        case PERM: return 9.869232667160130e-16;
        case LRAT: return (fam ? stb : 1) / day;
        case GRAT: return (fam ? mcf : 1) / day;
        case RRAT: return (fam ? stb : 1) / day;
        case TRANS: return fam ? 1e-3 * stb / (day * psi) : 1e-3 / (day * 1e5);
        case LVOLF: return 1;                    // rb/stb, rm3/sm3
        case GVOLF: return fam ? stb / mcf : 1;  // rb/Mscf
        case GOR: return fam ? mcf / stb : 1;    // Mscf/stb
        case OGR: return fam ? stb / mcf : 1;    // stb/Mscf
        default: return 1;
        }
    }
    enum Def { REQ, NEG, VAL, PREV };  // no default; any negative value; the given value; the previous item's value
    struct Item { char t; Def d; double v; Unit u; };
    typedef std::vector<std::string> Row;
    struct Key {
        std::string name;
        std::vector<Item> items;
        std::string extra;       // trailing items which are accepted and ignored
        bool terminated;         // records are ended by a separate slash
        bool multi;              // more than one record
        int minlen;              // items which must be present
        std::function<std::vector<Row>(const Opm::EclipseGridParser&)> read;
    };
    inline std::string n(double v) { char b[40]; snprintf(b, sizeof b, "%.12g", v); return b; }
    inline Item S() { Item i = { 's', REQ, 0, ONE }; return i; }
    inline Item I(Def d = REQ, double v = 0) { Item i = { 'i', d, v, ONE }; return i; }
    inline Item D(Unit u, Def d = REQ, double v = 0) { Item i = { 'd', d, v, u }; return i; }
    typedef const Opm::EclipseGridParser& P;
    inline Row dv(const std::vector<double>& v) { Row r; for (size_t i = 0; i < v.size(); ++i) r.push_back(n(v[i])); return r; }
    inline std::vector<Row> dvv(const std::vector<std::vector<double> >& v) { std::vector<Row> r; for (size_t i = 0; i < v.size(); ++i) r.push_back(dv(v[i])); return r; }
    inline std::vector<Key> keys()
    {
        std::vector<Key> K;
        K.push_back({ "WELSPECS", { S(), S(), I(), I(), D(LEN, NEG), S() }, " 1* STD", true, true, 6, [](P p) {
            std::vector<Row> r;
            const auto& w = p.getWELSPECS().welspecs;
            for (auto& l : w) r.push_back({ l.name_, l.group_, n(l.I_), n(l.J_), n(l.datum_depth_BHP_), l.pref_phase_ });
            return r; } });
        K.push_back({ "COMPDAT", { S(), I(VAL, 0), I(VAL, 0), I(VAL, 0), I(VAL, 0), S(), I(NEG, -1), D(TRANS, VAL, 0), D(LEN, VAL, 0) }, " 1* 0.0", true, true, 6, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getCOMPDAT().compdat) r.push_back({ l.well_, n(l.grid_ind_[0]), n(l.grid_ind_[1]), n(l.grid_ind_[2]), n(l.grid_ind_[3]), l.open_shut_flag_,
                        n(l.sat_table_number_), n(l.connect_trans_fac_), n(l.diameter_) });
            return r; } });
        K.push_back({ "WCONPROD", { S(), S(), S(), D(LRAT, NEG), D(LRAT, NEG), D(GRAT, NEG), D(LRAT, NEG), D(RRAT, NEG), D(PRES, VAL, 1), D(PRES, VAL, 0), I(VAL, 0), D(ONE, VAL, 0) }, "", true, true, 3, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getWCONPROD().wconprod) r.push_back({ l.well_, l.open_shut_flag_, l.control_mode_, n(l.oil_max_rate_), n(l.water_max_rate_), n(l.gas_max_rate_), n(l.liquid_max_rate_),
                        n(l.reservoir_flow_max_rate_), n(l.BHP_limit_), n(l.THP_limit_), n(l.VFP_table_number_), n(l.artif_lift_quantity_) });
            return r; } });
        K.push_back({ "WCONINJE", { S(), S(), S(), S(), D(LRAT, NEG), D(RRAT, NEG), D(PRES, VAL, 6891), D(PRES, NEG), I(VAL, 0), D(GOR, VAL, 0) }, " 1* 1*", true, true, 4, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getWCONINJE().wconinje) r.push_back({ l.well_, l.injector_type_, l.open_shut_flag_, l.control_mode_, n(l.surface_flow_max_rate_), n(l.reservoir_flow_max_rate_),
                        n(l.BHP_limit_), n(l.THP_limit_), n(l.VFP_table_number_), n(l.concentration_) });
            return r; } });
        K.push_back({ "GCONINJE", { S(), S(), S(), D(LRAT, NEG), D(RRAT, NEG), D(ONE, NEG), D(ONE, NEG) }, " YES", true, true, 3, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getGCONINJE().gconinje) r.push_back({ l.group_, l.injector_type_, l.control_mode_, n(l.surface_flow_max_rate_), n(l.resv_flow_max_rate_),
                        n(l.reinjection_fraction_target_), n(l.voidage_replacement_fraction_) });
            return r; } });
        K.push_back({ "GCONPROD", { S(), S(), D(LRAT, NEG), D(LRAT, NEG), D(GRAT, NEG), D(LRAT, NEG) }, "", true, true, 2, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getGCONPROD().gconprod) r.push_back({ l.group_, l.control_mode_, n(l.oil_max_rate_), n(l.water_max_rate_), n(l.gas_max_rate_), n(l.liquid_max_rate_) });
            return r; } });
        K.push_back({ "WELTARG", { S(), S(), D(ONE) }, "", true, true, 3, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getWELTARG().weltarg) r.push_back({ l.well_, l.control_change_, n(l.new_value_) });
            return r; } });
        K.push_back({ "WELOPEN", { S(), S() }, " 1*", true, true, 2, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getWELOPEN().welopen) r.push_back({ l.well_, l.openshutflag_ });
            return r; } });
        K.push_back({ "GRUPTREE", { S(), S() }, "", true, true, 2, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getGRUPTREE().tree) r.push_back({ l.first, l.second });
            return r; } });
        K.push_back({ "WGRUPCON", { S(), S(), D(ONE), S() }, " 1*", true, true, 4, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getWGRUPCON().wgrupcon) r.push_back({ l.well_, l.available_for_group_control_ ? "YES" : "NO", n(l.guide_rate_), l.phase_ });
            return r; } });
        K.push_back({ "WPOLYMER", { S(), D(PDENS), D(PDENS) }, "", true, true, 3, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getWPOLYMER().wpolymer_) r.push_back({ l.well_, n(l.polymer_concentration_), n(l.salt_concentration_) });
            return r; } });
        K.push_back({ "FAULTS", { S(), I(), I(), I(), I(), I(), I(), S() }, "", true, true, 8, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getFAULTS().faults) { Row q = { l.fault_name }; for (int i = 0; i < 6; ++i) q.push_back(n(l.ijk_coord[i])); q.push_back(l.face); r.push_back(q); }
            return r; } });
        K.push_back({ "MULTFLT", { S(), D(ONE, VAL, 1), D(ONE, VAL, 1) }, "", true, true, 1, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getMULTFLT().multflts) r.push_back({ l.fault_name, n(l.transmis_multiplier), n(l.diffusivity_multiplier) });
            return r; } });
        K.push_back({ "EQUIL", { D(LEN, VAL, 0), D(PRES, VAL, 0), D(LEN, VAL, 0), D(PRES, VAL, 0), D(LEN, VAL, 0), D(PRES, VAL, 0), I(VAL, 0), I(VAL, 0), I(VAL, 0) }, "", false, false, 0, [](P p) {
            std::vector<Row> r;
            for (auto& l : p.getEQUIL().equil) r.push_back({ n(l.datum_depth_), n(l.datum_depth_pressure_), n(l.water_oil_contact_depth_), n(l.oil_water_cap_pressure_), n(l.gas_oil_contact_depth_),
                        n(l.gas_oil_cap_pressure_), n(l.live_oil_table_index_), n(l.wet_gas_table_index_), n(l.N_) });
            return r; } });
        K.push_back({ "TLMIXPAR", { D(ONE), D(ONE, PREV) }, "", false, false, 1, [](P p) { return std::vector<Row>(1, dv(p.getTLMIXPAR().tlmixpar_)); } });
        K.push_back({ "PLYROCK", { D(ONE), D(ONE), D(PDENS), D(ONE, VAL, 1), D(ONE) }, "", false, false, 5, [](P p) { return std::vector<Row>(1, dv(p.getPLYROCK().plyrock_)); } });
        K.push_back({ "PLYMAX", { D(PDENS), D(PDENS) }, "", false, false, 2, [](P p) { return std::vector<Row>(1, dv(p.getPLYMAX().plymax_)); } });
        K.push_back({ "DENSITY", { D(DENS), D(DENS), D(DENS) }, "", false, true, 3, [](P p) { return dvv(p.getDENSITY().densities_); } });
        K.push_back({ "ROCK", { D(PRES), D(COMPR) }, "", false, true, 2, [](P p) { return dvv(p.getROCK().rock_compressibilities_); } });
        K.push_back({ "PVTW", { D(PRES), D(LVOLF), D(COMPR), D(VISC), D(COMPR) }, "", false, true, 5, [](P p) { return dvv(p.getPVTW().pvtw_); } });
        K.push_back({ "PVCDO", { D(PRES), D(LVOLF), D(COMPR), D(VISC), D(COMPR) }, "", false, true, 5, [](P p) { return dvv(p.getPVCDO().pvcdo_); } });
        K.push_back({ "SPECGRID", { I(), I(), I(), I(VAL, 1) }, " F", false, false, 3, [](P p) {
            auto& s = p.getSPECGRID();
            Row q; for (int i = 0; i < 3; ++i) q.push_back(n(s.dimensions[i])); q.push_back(n(s.numres));
            return std::vector<Row>(1, q); } });
        return K;
    }
    // column tables: name, units per column
    struct Tab { std::string name; std::vector<Unit> u; std::function<const std::vector<std::vector<std::vector<double> > >&(P)> get; };
    inline std::vector<Tab> tabs()
    {
        std::vector<Tab> T;
        T.push_back({ "PVDG", { PRES, GVOLF, VISC }, [](P p) -> const std::vector<std::vector<std::vector<double> > >& { return p.getPVDG().pvdg_; } });
        T.push_back({ "PVDO", { PRES, LVOLF, VISC }, [](P p) -> const std::vector<std::vector<std::vector<double> > >& { return p.getPVDO().pvdo_; } });
        T.push_back({ "ROCKTAB", { PRES, ONE, ONE }, [](P p) -> const std::vector<std::vector<std::vector<double> > >& { return p.getROCKTAB().rocktab_; } });
        T.push_back({ "SGOF", { ONE, ONE, ONE, PRES }, [](P p) -> const std::vector<std::vector<std::vector<double> > >& { return p.getSGOF().sgof_; } });
        T.push_back({ "SWOF", { ONE, ONE, ONE, PRES }, [](P p) -> const std::vector<std::vector<std::vector<double> > >& { return p.getSWOF().swof_; } });
        return T;
    }
}
#endif
