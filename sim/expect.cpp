// Independent reading of the records of the data set: what a stored record has to hold, decided from its JSON text alone.
#include "world.hpp"
#include <set>
namespace sim {
using namespace ThermoFun;
namespace {
struct Diff { std::string d; 
    void s(const char* n, const std::string& want, const std::string& got) { if (want != got) d += std::string(d.empty() ? "" : "; ") + n + " is '" + got + "', the data say '" + want + "'"; }
    void n(const char* n, double want, double got) { if (!(fabs(want - got) <= 1e-9 * fabs(want) + 1e-300)) d += std::string(d.empty() ? "" : "; ") + n + " is " + num(got) + ", the data say " + num(want); }
    void v(const char* nm, const std::vector<double>& want, const std::vector<double>& got) { if (want.size() != got.size()) { d += std::string(d.empty() ? "" : "; ") + nm + " has " + std::to_string(got.size()) + " values, the data " + std::to_string(want.size()); return; } for (size_t i = 0; i < want.size(); ++i) n(nm, want[i], got[i]); }
};
bool factor(const std::string& u, double& f) {
    static const std::map<std::string, double> t = {{"", 1}, {"1", 1}, {"J/mol", 1}, {"kJ/mol", 1e3}, {"cal/mol", 4.184}, {"J/(mol*K)", 1}, {"J/(K*mol)", 1}, {"cal/(mol*K)", 4.184}, {"J/bar", 1}, {"J/K/mol", 1}};
    auto it = t.find(u); if (it == t.end()) return false; f = it->second; return true;
}
// scalar entry {"values":[x],"units":[u],"errors":[e]}; false: not there
bool scalar(const json& j, const char* k, double& val, double& err, bool& usable) {
    usable = true; if (!j.contains(k)) return false; auto& e = j[k]; double f = 1;
    if (!e.is_object()) { usable = false; return false; }
    if (e.contains("units") && e["units"].is_array() && !e["units"].empty()) { if (!e["units"][0].is_string()) { usable = false; return false; } usable = factor(e["units"][0], f); }
    if (!e.contains("values") || !e["values"].is_array() || e["values"].empty() || !e["values"][0].is_number()) { usable = usable && !e.contains("values"); return false; }
    val = e["values"][0].get<double>() * f; err = e.contains("errors") && e["errors"].is_array() && !e["errors"].empty() && e["errors"][0].is_number() ? e["errors"][0].get<double>() * f : 0; return true;
}
std::vector<double> values(const json& m, const char* k, bool& there) {
    std::vector<double> r; there = false; if (!m.contains(k) || !m[k].contains("values") || !m[k]["values"].is_array()) return r; there = true;
    for (auto& x : m[k]["values"]) r.push_back(x.get<double>()); return r;
}
void ref(Diff& d, const json& j, const char* key, const char* name, const Reaktoro_::ThermoScalar& t) {
    double v = 0, e = 0; bool usable; bool there = scalar(j, key, v, e, usable); if (!usable) return;
    if (there) { d.n(name, v, t.val); d.n((std::string(name) + " error").c_str(), e, t.err); if (t.sta.first != Reaktoro_::Status::read) d.d += std::string("; ") + name + " is not marked as read"; }
    else if (t.sta.first != Reaktoro_::Status::notdefined) d.d += std::string("; ") + name + " is marked as defined though the data do not give it";
}
const std::map<int, int> SM = {{0, 100}, {2, 101}, {3, 119}, {25, 117}, {26, 118}, {27, 120}, {28, 121}, {5, 201}, {6, 202}, {1, 203}, {29, 206}, {30, 207}, {31, 221}, {32, 222}, {33, 223}, {34, 305}, {35, 306}, {36, 307}, {37, 308}, {38, 309}, {39, 310}, {8, 311}, {9, 312}, {10, 313}, {11, 314}, {12, 315}, {13, 316}, {14, 317}, {4, 320}, {40, 300}, {43, 200}};
const std::map<int, int> RM = {{11, 100}, {1, 105}, {0, 102}, {2, 104}, {3, 208}, {4, 209}, {5, 210}, {6, 211}, {7, 212}, {8, 213}, {9, 214}, {10, 216}, {12, 306}, {13, 305}, {14, 224}};
template <class T> void methods(Diff& d, const json& j, const std::map<int, int>& t, const T& s) {
    if (!j.contains("TPMethods")) return; int last[4] = {0, 0, 0, 0};
    for (auto& m : j["TPMethods"]) if (m.contains("method") && m["method"].is_object() && !m["method"].empty()) { auto it = t.find(std::stoi(m["method"].begin().key())); if (it != t.end()) last[it->second / 100] = it->second; }
    if (last[1]) d.n("general method", last[1], (double)s.methodGenEOS()); if (last[2]) d.n("temperature method", last[2], (double)s.method_T()); if (last[3]) d.n("pressure method", last[3], (double)s.method_P());
}
bool firm(const std::string& r) { return !refEdited(r) && r.find("#k") == std::string::npos; }
int keyOf(const json& j, const char* k, int none) { return j.contains(k) && j[k].is_object() && !j[k].empty() ? std::stoi(j[k].begin().key()) : none; }
std::string text(const json& j, const char* k) { return j.contains(k) && j[k].is_string() ? j[k].get<std::string>() : ""; }
// the stored text of a record is the text it was read from
void source(Diff& d, const json& j, const std::string& got) { if (got.empty()) return; json g = json::parse(got, nullptr, false); if (g.is_object() && g.contains("properties")) g = json(g["properties"]); if (g != j) d.d += "; text of the record differs from the data"; }
}
std::string expectMismatch(const std::string& r, const Substance& s) {
    if (!firm(r)) return ""; json j = json::parse(recJson('s', r)); Diff d;
    d.s("symbol", text(j, "symbol"), s.symbol()); d.s("name", text(j, "name"), s.name()); d.s("formula", text(j, "formula"), s.formula()); d.s("reaction", text(j, "reaction"), s.reactionSymbol());
    if (j.contains("formula_charge") && j["formula_charge"].is_number()) d.n("charge", j["formula_charge"].get<double>(), s.charge());
    d.n("Tst", j.contains("Tst") && j["Tst"].is_number() ? j["Tst"].get<double>() : 298.15, s.referenceT()); d.n("Pst", j.contains("Pst") && j["Pst"].is_number() ? j["Pst"].get<double>() : 1e5, s.referenceP());
    if (j.contains("limitsTP") && j["limitsTP"].is_object()) { auto& l = j["limitsTP"]; if (l.contains("lowerT") && l["lowerT"].is_number()) d.n("lower T", l["lowerT"].get<double>(), s.lowerT()); if (l.contains("upperT") && l["upperT"].is_number()) d.n("upper T", l["upperT"].get<double>(), s.upperT()); }
    bool byReaction = !j.contains("TPMethods") && !text(j, "reaction").empty(); if (byReaction != (s.thermoCalculationType() == SubstanceThermoCalculationType::REACDC)) d.d += byReaction ? "; is not defined by its reaction" : "; is defined by a reaction though the data have methods for it";
    double v = 0, e = 0; bool ok; if (scalar(j, "mass_per_mole", v, e, ok)) d.n("molar mass", v, s.molarMass()); 
    if (j.contains("class_")) d.n("class", keyOf(j, "class_", 0), (double)s.substanceClass()); if (j.contains("aggregate_state")) d.n("aggregate state", keyOf(j, "aggregate_state", 0), (double)s.aggregateState());
    auto t = s.thermoReferenceProperties(); ref(d, j, "sm_gibbs_energy", "gibbs energy", t.gibbs_energy); ref(d, j, "sm_enthalpy", "enthalpy", t.enthalpy); ref(d, j, "sm_entropy_abs", "entropy", t.entropy); ref(d, j, "sm_volume", "volume", t.volume); ref(d, j, "sm_heat_capacity_p", "heat capacity", t.heat_capacity_cp);
    methods(d, j, SM, s);
    auto p = s.thermoParameters(); std::vector<std::vector<double>> cp, ti, ph; std::vector<double> hkf, crit, lan, nel; bool th;
    if (j.contains("TPMethods")) for (auto& m : j["TPMethods"]) {
        if (!m.contains("method") || !m["method"].is_object() || m["method"].empty()) continue;
        auto x = values(m, "m_heat_capacity_ft_coeffs", th); if (!x.empty()) cp.push_back(x); x = values(m, "m_phase_trans_props", th); if (!x.empty()) ph.push_back(x);
        x = values(m, "eos_hkf_coeffs", th); if (th) hkf = x; x = values(m, "eos_gas_crit_props", th); if (th) crit = x; x = values(m, "m_landau_phase_trans_props", th); if (th) lan = x; x = values(m, "eos_akinfiev_diamond_coeffs", th); if (th) nel = x;
        if (m["method"].begin().value() == "cp_ft_equation") { std::vector<double> l; if (m.contains("limitsTP")) for (auto k : {"lowerT", "upperT"}) if (m["limitsTP"].contains(k) && m["limitsTP"][k].is_number()) l.push_back(m["limitsTP"][k].get<double>()); ti.push_back(l); }
    }
    d.n("number of heat capacity intervals", cp.size(), p.Cp_coeff.size()); for (size_t i = 0; i < cp.size() && i < p.Cp_coeff.size(); ++i) d.v("heat capacity coefficients", cp[i], p.Cp_coeff[i]);
    d.n("number of temperature intervals", ti.size(), p.temperature_intervals.size()); for (size_t i = 0; i < ti.size() && i < p.temperature_intervals.size(); ++i) d.v("temperature interval", ti[i], p.temperature_intervals[i]);
    d.n("number of phase transitions", ph.size(), p.phase_transition_prop.size()); for (size_t i = 0; i < ph.size() && i < p.phase_transition_prop.size(); ++i) d.v("phase transition", ph[i], p.phase_transition_prop[i]);
    d.v("HKF coefficients", hkf, p.HKF_parameters); d.v("critical parameters", crit, p.critical_parameters); d.v("Landau parameters", lan, p.m_landau_phase_trans_props); d.v("non-electrolyte coefficients", nel, p.Cp_nonElectrolyte_coeff);
    source(d, j, s.jsonString());
    return d.d;
}
std::string expectMismatch(const std::string& r, const Reaction& s) {
    if (!firm(r)) return ""; json j = json::parse(recJson('r', r)); Diff d;
    d.s("symbol", text(j, "symbol"), s.symbol()); d.s("name", text(j, "name"), s.name()); d.s("equation", text(j, "equation"), s.equation());
    d.n("Tst", j.contains("Tst") && j["Tst"].is_number() ? j["Tst"].get<double>() : 298.15, s.referenceT()); d.n("Pst", j.contains("Pst") && j["Pst"].is_number() ? j["Pst"].get<double>() : 1e5, s.referenceP());
    if (j.contains("limitsTP")) { auto& l = j["limitsTP"]; if (l.contains("lowerT")) d.n("lower T", l["lowerT"].get<double>(), s.lowerT()); if (l.contains("upperT")) d.n("upper T", l["upperT"].get<double>(), s.upperT()); }
    if (j.contains("reactants")) {
        std::map<std::string, double> want; for (auto& x : j["reactants"]) if (x.contains("symbol") && x.contains("coefficient")) want[x["symbol"]] = x["coefficient"].get<double>();
        std::map<std::string, double> got; for (auto& x : s.reactants()) got[x.first] = x.second;
        for (auto& x : want) if (!got.count(x.first)) d.d += "; reactant " + x.first + " is missing"; else d.n(("coefficient of " + x.first).c_str(), x.second, got[x.first]);
        for (auto& x : got) if (!want.count(x.first)) d.d += "; reactant " + x.first + " is not in the data";
    }
    auto t = s.thermoReferenceProperties(); ref(d, j, "logKr", "log K", t.log_equilibrium_constant); ref(d, j, "drsm_gibbs_energy", "gibbs energy", t.reaction_gibbs_energy); ref(d, j, "drsm_enthalpy", "enthalpy", t.reaction_enthalpy); ref(d, j, "drsm_entropy", "entropy", t.reaction_entropy); ref(d, j, "drsm_volume", "volume", t.reaction_volume); ref(d, j, "drsm_heat_capacity_p", "heat capacity", t.reaction_heat_capacity_cp);
    methods(d, j, RM, s);
    auto p = s.thermoParameters(); std::map<const char*, std::pair<std::vector<double>, std::vector<double>>> q; bool th;
    q["logk_ft_coeffs"].second = p.reaction_logK_fT_coeff; q["dr_heat_capacity_ft_coeffs"].second = p.reaction_Cp_fT_coeff; q["dr_ryzhenko_coeffs"].second = p.reaction_RB_coeff; q["dr_marshall_franck_coeffs"].second = p.reaction_FM_coeff;
    if (j.contains("TPMethods")) for (auto& m : j["TPMethods"]) { if (!m.contains("method") || !m["method"].is_object() || m["method"].empty()) continue; for (auto& x : q) { auto v = values(m, x.first, th); if (th) x.second.first = v; } }
    for (auto& x : q) d.v(x.first, x.second.first, x.second.second);
    source(d, j, s.jsonString());
    return d.d;
}
std::string expectMismatch(const std::string& r, const Element& s) {
    if (!firm(r)) return ""; json j = json::parse(recJson('e', r)); Diff d; double e; bool ok;
    d.s("symbol", text(j, "symbol"), s.symbol()); d.s("name", text(j, "name"), s.name());
    for (auto& x : {std::make_pair("entropy", s.entropy()), std::make_pair("heat_capacity", s.heatCapacity()), std::make_pair("atomic_mass", s.molarMass()), std::make_pair("volume", s.volume())}) { double v = 0; scalar(j, x.first, v, e, ok); if (ok) d.n(x.first, v, x.second); }
    if (j.contains("class_")) d.n("class", keyOf(j, "class_", 0), (double)s.class_());
    source(d, j, s.jsonString());
    return d.d;
}

// ---- queries that cannot be answered from the data: "" or the reason
namespace {
std::set<int> methodKeys(const json& j) { std::set<int> r; if (j.contains("TPMethods")) for (auto& m : j["TPMethods"]) if (m.contains("method") && m["method"].is_object() && !m["method"].empty()) r.insert(std::stoi(m["method"].begin().key())); return r; }
bool has(const json& j, const char* k) { if (j.contains("TPMethods")) for (auto& m : j["TPMethods"]) if (m.contains(k) && m[k].contains("values") && m[k]["values"].is_array() && !m[k]["values"].empty()) return true; return false; }
std::string reaction(const EngModel& m, const std::string& ref, bool fromReactants, int depth);
// neither the solvent the user asked for nor any other record of that class
bool noSolvent(const EngModel& m) {
    if (m.db.of('s').count(m.solvent)) return false;
    for (auto& x : m.db.of('s')) if (!firm(x.second) || keyOf(json::parse(recJson('s', x.second)), "class_", 0) == 3) return false;
    return true;
}
std::string substance(const EngModel& m, const std::string& ref, int depth) {
    if (!firm(ref) || depth > 4) return ""; json j = json::parse(recJson('s', ref)); auto sym = refSym(ref); if (sym == "H+") return "";
    auto k = methodKeys(j); bool solvent = keyOf(j, "class_", 0) == 3; std::string rs = text(j, "reaction");
    if (!j.contains("TPMethods") && !rs.empty()) {
        auto it = m.db.of('r').find(rs); if (it == m.db.of('r').end()) return "reaction " + rs + " of " + sym + " is missing";
        if (!firm(it->second)) return "";
        static std::vector<std::string> chain; for (auto& x : chain) if (x == sym) return sym + " is defined by itself";
        struct Link { Link(const std::string& x) { chain.push_back(x); } ~Link() { chain.pop_back(); } } link(sym);
        std::map<std::string, double> co; if (coefficients(it->second, co) && (!co.count(sym) || co[sym] == 0)) return sym + " is not a reactant of the reaction " + rs + " that defines it";
        auto why = reaction(m, it->second, false, depth + 1); if (!why.empty()) return why;
        json q = json::parse(recJson('r', it->second)); if (q.contains("reactants")) for (auto& x : q["reactants"]) { std::string s = text(x, "symbol"); if (s.empty() || s == sym) continue; auto f = m.db.of('s').find(s); if (f == m.db.of('s').end()) return "reactant " + s + " is missing"; why = substance(m, f->second, depth + 1); if (!why.empty()) return why; }
        return "";
    }
    int gen = 0; for (int x : {0, 2, 3, 25, 26, 27, 28}) gen += k.count(x);
    if (gen == 1 && !solvent && !k.count(8)) {
        if (k.count(0) && !has(j, "m_heat_capacity_ft_coeffs")) return "heat capacity coefficients of " + sym + " are missing";
        if ((k.count(2) || k.count(3)) && !has(j, "eos_hkf_coeffs")) return "HKF coefficients of " + sym + " are missing";
        if ((k.count(2) || k.count(3)) && noSolvent(m)) return "solvent " + m.solvent + " is missing";
    }
    return "";
}
std::string reaction(const EngModel& m, const std::string& ref, bool fromReactants, int depth) {
    if (!firm(ref) || depth > 4) return ""; json j = json::parse(recJson('r', ref)); auto k = methodKeys(j);
    if (fromReactants || (k.empty() && !j.contains("TPMethods"))) {
        if (j.contains("reactants")) for (auto& x : j["reactants"]) { std::string s = text(x, "symbol"); if (s.empty()) continue; auto f = m.db.of('s').find(s); if (f == m.db.of('s').end()) return "reactant " + s + " is missing"; auto why = substance(m, f->second, depth + 1); if (!why.empty()) return why; }
        return "";
    }
    if (k.count(0) && !has(j, "logk_ft_coeffs")) return "log K coefficients of " + refSym(ref) + " are missing";
    if (k.size() == 1 && k.count(10) && !has(j, "dr_ryzhenko_coeffs")) return "coefficients of " + refSym(ref) + " are missing";
    if (k.size() == 1 && k.count(9) && !has(j, "dr_marshall_franck_coeffs")) return "coefficients of " + refSym(ref) + " are missing";
    if (k.size() == 1 && k.count(14) && !has(j, "dr_dolejs_manning10_coeffs")) return "coefficients of " + refSym(ref) + " are missing";
    return "";
}
}
std::string unanswerable(const EngModel& m, const std::string& form, const std::string& sym) {
    auto rec = [&](char k, std::string& r) { auto it = m.db.of(k).find(sym); if (it == m.db.of(k).end()) return false; r = it->second; return true; };
    std::string r;
    if (form == "sub" || form == "subo" || starts(form, "prs") || starts(form, "els")) { if (!rec('s', r)) return "substance " + sym + " is missing"; return starts(form, "sub") ? substance(m, r, 0) : ""; }
    if (form == "subv") return substance(m, sym, 0);
    if (form == "rea" || form == "reao") { if (!rec('r', r)) {
            std::map<std::string, double> co; if (form != "rea" || sym.find('=') == std::string::npos) return "reaction " + sym + " is missing"; if (!equation(sym, co)) return "";
            for (auto& x : co) { auto f = m.db.of('s').find(x.first); if (f == m.db.of('s').end()) return "reactant " + x.first + " is missing"; auto why = substance(m, f->second, 0); if (!why.empty()) return why; }
            return ""; }
        return reaction(m, r, false, 0); }
    if (form == "rfr" || form == "rfro") { if (!rec('r', r)) return "reaction " + sym + " is missing"; return reaction(m, r, true, 0); }
    if (form == "reav") return reaction(m, sym, false, 0);
    return "";
}

// the pressure a query hands back: the one given; the saturation pressure of water (Wagner and Pruss 1993) for a zero pressure
std::string wrongPressure(const EngModel& m, const std::string& form, const std::string& sym, double T, double in, double out) {
    if (in >= 1000 && !(fabs(out - in) <= 1e-9 * in)) return "pressure " + num(in) + " was handed back as " + num(out);
    if (in != 0 || form != "sub" || T < 280 || T > 640) return "";
    auto it = m.db.of('s').find(sym); if (it == m.db.of('s').end() || !firm(it->second) || sym == "H+") return "";
    json j = json::parse(recJson('s', it->second)); auto k = methodKeys(j); int gen = 0; for (int x : {0, 2, 3, 25, 26, 27, 28}) gen += k.count(x);
    bool hkf = gen == 1 && (k.count(2) || k.count(3)) && keyOf(j, "class_", 0) == 2 && k.size() == 1, wat = (k.count(29) || k.count(31) || k.count(32)) && keyOf(j, "class_", 0) == 3 && keyOf(j, "aggregate_state", 0) == 4 && !k.count(8);
    if (hkf) { auto w = m.db.of('s').find(m.solvent); if (w == m.db.of('s').end() || !firm(w->second)) return ""; json q = json::parse(recJson('s', w->second)); auto kw = methodKeys(q); if (!(kw.count(29) || kw.count(31) || kw.count(32)) || keyOf(q, "class_", 0) != 3 || keyOf(q, "aggregate_state", 0) != 4) return ""; }
    if (!hkf && !wat) return "";
    double Tc = 647.096, t = 1 - T / Tc, ps = 22.064e6 * exp(Tc / T * (-7.85951783 * t + 1.84408259 * pow(t, 1.5) - 11.7866497 * pow(t, 3) + 22.6807411 * pow(t, 3.5) - 15.9618719 * pow(t, 4) + 1.80122502 * pow(t, 7.5)));
    if (!(fabs(out - ps) <= .01 * ps)) return "zero pressure was handed back as " + num(out) + ", saturation is at " + num(ps);
    return "";
}

// ---- answers that have to add up
const std::map<std::string, std::string> sumFields = {{"gibbs_energy", "reaction_gibbs_energy"}, {"helmholtz_energy", "reaction_helmholtz_energy"}, {"internal_energy", "reaction_internal_energy"}, {"enthalpy", "reaction_enthalpy"},
    {"entropy", "reaction_entropy"}, {"volume", "reaction_volume"}, {"heat_capacity_cp", "reaction_heat_capacity_cp"}, {"heat_capacity_cv", "reaction_heat_capacity_cv"}};
std::array<double, 4> scalarOf(const std::string& a, const std::string& f) {
    std::array<double, 4> r{NAN, NAN, NAN, NAN}; auto p = a.find(" " + f + "="); if (p == std::string::npos) return r;
    auto e = a.find(' ', p + 1); auto t = split(a.substr(p + f.size() + 2, e == std::string::npos ? e : e - p - f.size() - 2), '|');
    for (size_t i = 0; i < 4 && i < t.size(); ++i) r[i] = strtod(t[i].c_str(), nullptr); return r;
}
std::string statusOf(const std::string& a, const std::string& f) {
    auto p = a.find(" " + f + "="); if (p == std::string::npos) return "0"; auto e = a.find(' ', p + 1); auto t = split(a.substr(p + f.size() + 2, e == std::string::npos ? e : e - p - f.size() - 2), '|');
    return t.size() > 4 ? t[4] : "0";
}
bool definedByReaction(const std::string& ref, std::string& reaction) {
    if (!firm(ref)) return false; json j = json::parse(recJson('s', ref)); reaction = text(j, "reaction"); return !j.contains("TPMethods") && !reaction.empty();
}
bool fromReactants(const std::string& ref) { return firm(ref) && !json::parse(recJson('r', ref)).contains("TPMethods"); }
// a reaction given as equation: "2A + B = 0.5C"; false if a substance is named twice (which coefficient counts is not specified)
bool equation(const std::string& e, std::map<std::string, double>& co) {
    auto eq = e.find('='); if (eq == std::string::npos) return false;
    for (int side = 0; side < 2; ++side) {
        std::istringstream in(side ? e.substr(eq + 1) : e.substr(0, eq)); std::string w; 
        while (in >> w) { if (w == "+") continue; double c = 1; if (isdigit((unsigned char)w[0])) { char* end; c = strtod(w.c_str(), &end); w = end; if (w.empty()) in >> w; } if (w.empty() || co.count(w)) return false; co[w] = side ? c : -c; }
    }
    return !co.empty();
}
// what takes part in a reaction by its record; false if that is not certain
bool coefficients(const std::string& ref, std::map<std::string, double>& c) {
    c.clear(); if (!firm(ref)) return false; json j = json::parse(recJson('r', ref));
    if (!j.contains("reactants") || j["reactants"].is_null()) return !j.contains("equation") || j["equation"].is_null() || equation(text(j, "equation"), c);
    if (!j["reactants"].is_array()) return false;
    for (auto& x : j["reactants"]) if (x.contains("symbol") && x.contains("coefficient") && x["symbol"].is_string() && x["coefficient"].is_number()) c[x["symbol"]] = x["coefficient"].get<double>();
    return true;
}
// ln K, log K and the Gibbs energy of one reaction answer say the same, and so do their derivatives by temperature
std::string oneEquilibrium(const std::string& a, double T) {
    auto ln = scalarOf(a, "lnKr"), lg = scalarOf(a, "logKr"), G = scalarOf(a, "reaction_gibbs_energy"); double RT = 8.31451 * T; static const char* what[] = {"", " (derivative by temperature)"};
    auto same = [](double x, double y, double scale) { return x == y || std::isnan(x) || std::isnan(y) || std::isinf(x) || std::isinf(y) || fabs(x - y) <= 1e-6 * (fabs(x) + fabs(y) + scale) + 1e-12; };
    for (int i = 0; i < 2; ++i) {
        if (!same(ln[i] * 0.4342944819, lg[i], 0)) return std::string("log K does not belong to ln K") + what[i];
        double g = i ? G[0] / RT / T - G[1] / RT : -G[0] / RT; if (!same(g, ln[i], i ? fabs(G[0] / RT / T) : 0)) return std::string("ln K does not belong to the Gibbs energy") + what[i];
    }
    return "";
}
std::string sumDiffers(const std::string& want, const std::string& got, char kind, double T) {
    if (!starts(want, "sum ")) return "";
    auto same = [](double a, double b, double scale) { return a == b || (std::isnan(a) && std::isnan(b)) || fabs(a - b) <= 1e-8 * (scale + fabs(a)) + 1e-12; };
    for (auto& n : sumFields) { if (kind == 'f' && statusOf(want, n.first) == "open") continue; auto w = scalarOf(want, n.first), g = scalarOf(got, kind == 'r' ? n.second : n.first); static const char* what[] = {"", " (derivative by temperature)", " (derivative by pressure)"};
        for (int i = 0; i < 3; ++i) if (!same(w[i], g[i], i ? 0 : w[3])) { if (i && fabs(w[i] - g[i]) <= 1e-6 * (fabs(w[i]) + fabs(w[3]) / (i == 1 ? 1e3 : 1e9))) continue; return "does not add up in " + n.first + what[i]; } }
    if (kind == 'r') { double G = scalarOf(got, "reaction_gibbs_energy")[0], ln = scalarOf(got, "lnKr")[0], lg = scalarOf(got, "logKr")[0]; if (!same(-G / (8.31451 * T), ln, 0)) return "has a ln K that does not belong to its Gibbs energy"; if (!same(ln * 0.4342944819, lg, 0)) return "has a log K that does not belong to its ln K"; }
    return "";
}
}
