// Data set, record variants, serialisation, reference models.
#include "world.hpp"
#include "ChemicalFun/FormulaParser/ChemicalData.h"
#include <fstream>
#include <sstream>
#include <spdlog/sinks/base_sink.h>
#include <spdlog/spdlog.h>

namespace sim {
static std::map<std::string, json> base[3];
static std::vector<std::string> syms[3];
static int ki(char k) { return k == 'e' ? 0 : k == 's' ? 1 : 2; }

void loadBase(const std::string& file) {
    std::ifstream f(file); json j = json::parse(f);
    const char* sec[3] = {"elements", "substances", "reactions"};
    for (int k = 0; k < 3; ++k) for (auto& x : j[sec[k]]) { auto s = x["symbol"].get<std::string>(); base[k][s] = x; syms[k].push_back(s); }
}
const std::vector<std::string>& allSymbols(char k) { return syms[ki(k)]; }
std::string refSym(const std::string& ref) { return ref.substr(0, ref.find_first_of("#~")); }
bool refEdited(const std::string& ref) { return ref.find('~') != std::string::npos || ref.find("#new") != std::string::npos; }

static void scale(json& j, const char* key, double mul, double add) {
    if (j.contains(key) && j[key].contains("values") && !j[key]["values"].empty() && j[key]["values"][0].is_number())
        j[key]["values"][0] = j[key]["values"][0].get<double>() * mul + add;
}
// generic seeded damage: remove/null/truncate parts of a record (keeps symbol and class)
static void mutate(json& j, uint64_t seed, char kind) {
    Rng r(seed * 7919 + (unsigned char)kind);
    int n = 1 + (int)r.below(3);
    for (int q = 0; q < n; ++q) {
        std::vector<json::json_pointer> leaf;
        std::function<void(const json&, const json::json_pointer&)> walk = [&](const json& x, const json::json_pointer& p) {
            if (x.is_object()) for (auto it = x.begin(); it != x.end(); ++it) { auto c = p / it.key(); if (it.key() != "symbol" && it.key() != "method") { leaf.push_back(c); walk(it.value(), c); } }
            else if (x.is_array()) { for (size_t i = 0; i < x.size(); ++i) { if (x[i].is_object()) { leaf.push_back(p / i); } walk(x[i], p / i); } }
        };
        walk(j, json::json_pointer());
        if (leaf.empty()) return;
        auto p = leaf[r.below(leaf.size())];
        auto& t = j[p];
        int how = (int)r.below(4);
        if (t.is_array() && !t.empty() && how < 3) { size_t keep = how == 0 ? 0 : how == 1 ? t.size() - 1 : r.below(t.size()); json a = json::array(); for (size_t i = 0; i < keep; ++i) a.push_back(t[i]); t = a; }
        else if (how == 3 && !p.back().empty() && j[p.parent_pointer()].is_object() && p.back() != "symbol" && (p.back() == "values" || p.back()[0] == 's' || p.back()[0] == 'm')) t = nullptr;
        else if (j[p.parent_pointer()].is_object()) j[p.parent_pointer()].erase(p.back());
        else if (j[p.parent_pointer()].is_array() && j[p.parent_pointer()].size() > 1) j[p.parent_pointer()].erase(j[p.parent_pointer()].begin() + std::stoi(p.back()));
    }
}
static json variant(char kind, const std::string& sym, const std::string& v) {
    auto it = base[ki(kind)].find(sym);
    json j;
    if (it != base[ki(kind)].end()) j = it->second;
    else { j = json{{"symbol", sym}, {"name", sym}}; if (kind == 's') j["formula"] = sym; }
    if (v.empty() || v == "0") return j;
    if (v[0] == 'k') { mutate(j, strtoull(v.c_str() + 1, nullptr, 10), kind); return j; }
    int n = atoi(v.c_str());
    j["name"] = j.value("name", sym) + " v" + v;
    if (kind == 'e') {
        switch (n) {
        case 1: scale(j, "entropy", 1.5, 3.); break;
        case 2: scale(j, "atomic_mass", 1., .25); break;
        case 3: scale(j, "heat_capacity", 2., 1.); scale(j, "entropy", 1., -1.); break;
        case 4: j.erase("volume"); break;
        default: scale(j, "entropy", 1., n); scale(j, "volume", 1., n);
        }
    } else if (kind == 's') {
        switch (n) {
        case 1: scale(j, "sm_gibbs_energy", 1., 1000.); scale(j, "sm_enthalpy", 1., 1000.); break;
        case 2: scale(j, "sm_entropy_abs", 1.1, 1.); scale(j, "sm_heat_capacity_p", 1.2, 1.); break;
        case 3: j.erase("sm_gibbs_energy"); break;
        case 4: j.erase("TPMethods"); break;
        case 5: if (j.contains("TPMethods")) for (auto& m : j["TPMethods"]) for (auto it2 = m.begin(); it2 != m.end();) { if (it2.key() == "method" || it2.key() == "limitsTP") ++it2; else it2 = m.erase(it2); } break;
        case 6: scale(j, "sm_volume", 1.3, .5); break;
        case 7: j["Tst"] = 300.15; j["Pst"] = 200000; break;
        case 8: j["formula"] = "CaCO3"; break;
        case 9: j.erase("sm_enthalpy"); j.erase("sm_volume"); j.erase("sm_entropy_abs"); break;
        case 10: if (j.contains("TPMethods")) for (auto& m : j["TPMethods"]) for (auto& e : m.items()) if (e.value().is_object() && e.value().contains("values") && e.value()["values"].is_array()) for (auto& x : e.value()["values"]) if (x.is_number()) x = x.get<double>() * 1.05; break;
        case 11: j["aggregate_state"] = json{{"0", "AS_GAS"}}; break;
        case 12: j["class_"] = json{{"0", "SC_COMPONENT"}}; break;
        case 13: j.erase("reaction"); break;
        case 15: j["limitsTP"] = json{{"lowerT", 274.5}, {"upperT", 623.25}, {"lowerP", 1e5}, {"upperP", 1e8}}; j["mass_per_mole"] = json{{"values", json::array({61.25})}, {"units", json::array({"g/mol"})}}; break;
        case 16: for (const char* k : {"sm_gibbs_energy", "sm_enthalpy"}) if (j.contains(k) && j[k].contains("values") && !j[k]["values"].empty() && j[k]["values"][0].is_number()) { j[k]["values"][0] = j[k]["values"][0].get<double>() / 4.184; j[k]["units"] = json::array({"cal/mol"}); j[k]["errors"] = json::array({12.5}); } break;
        case 17: for (const char* k : {"formula_charge", "sm_volume", "sm_heat_capacity_p", "Tst"}) j[k] = nullptr; break;
        case 14: j["class_"] = json{{"3", "SC_AQSOLVENT"}}; break;
        case 18: case 19:    // fewer or more coefficients than other records have
            if (j.contains("TPMethods")) for (auto& m : j["TPMethods"]) if (m.contains("m_heat_capacity_ft_coeffs")) {
                auto& c = m["m_heat_capacity_ft_coeffs"]; c.erase("units"); c.erase("names"); json v = json::array(); static const double more[16] = {0, 0, 0, 20, 1e-7, 2e-10, 3e-13, 4e6, 5, .5, .2, .1, .3, .4, .6, .7};
                for (size_t i = 0; i < (n == 18 ? 4 : 16); ++i) v.push_back(i < c["values"].size() && c["values"][i] != 0 && !c["values"][i].is_null() ? c["values"][i] : json(n == 18 ? 0 : more[i])); c["values"] = v;
            }
            break;
        default: scale(j, "sm_gibbs_energy", 1., 10. * n); scale(j, "sm_entropy_abs", 1., n);
        }
    } else {
        switch (n) {
        case 1: if (j.contains("TPMethods")) for (auto& m : j["TPMethods"]) for (auto& e : m.items()) if (e.value().is_object() && e.value().contains("values") && e.value()["values"].is_array()) for (auto& x : e.value()["values"]) if (x.is_number()) x = x.get<double>() * 1.03 + .01; break;
        case 2: if (j.contains("reactants")) for (auto& m : j["reactants"]) if (m.contains("coefficient") && m["coefficient"].is_number()) m["coefficient"] = m["coefficient"].get<double>() * 2; break;
        case 3: j.erase("TPMethods"); break;
        case 4: if (j.contains("TPMethods")) for (auto& m : j["TPMethods"]) for (auto it2 = m.begin(); it2 != m.end();) { if (it2.key() == "method" || it2.key() == "limitsTP") ++it2; else it2 = m.erase(it2); } break;
        case 5: if (j.contains("reactants") && j["reactants"].size() > 1) j["reactants"].erase(j["reactants"].begin()); break;
        case 6: j["reactants"].push_back(json{{"symbol", "NoSuchSubstance"}, {"coefficient", 1}}); break;
        case 9: if (j.contains("reactants") && j["reactants"].is_array()) for (auto& m : j["reactants"]) if (m.contains("coefficient") && m["coefficient"].is_number()) m["coefficient"] = m["coefficient"].get<double>() * .5; break;
        case 8: j["limitsTP"] = json{{"lowerT", 280.}, {"upperT", 500.}}; j["equation"] = sym + " + H2O@ = 2 H+"; break;
        case 10: for (const char* k : {"drsm_gibbs_energy", "logKr", "drsm_volume", "Pst"}) j[k] = nullptr; break;
        case 7: scale(j, "drsm_gibbs_energy", 1., 500.); scale(j, "logKr", 1., .5); scale(j, "drsm_volume", 1.2, .1); scale(j, "drsm_enthalpy", 1., 400.); break;
        default: j["Tst"] = 298.15 + n; scale(j, "logKr", 1., n);
        }
    }
    return j;
}
std::string recJson(char kind, const std::string& ref) {
    static std::map<std::string, std::string> cache;
    std::string key = std::string(1, kind) + ref.substr(0, ref.find('~'));
    auto it = cache.find(key); if (it != cache.end()) return it->second;
    auto h = ref.find('#'); std::string v = h == std::string::npos ? "0" : ref.substr(h + 1); v = v.substr(0, v.find('~'));
    return cache[key] = variant(kind, refSym(ref), v).dump();
}
json docOf(const std::vector<std::string>& content) {
    json d = json::object();
    for (auto& c : content) {
        if (c.size() < 2) continue;
        if (c[0] == 'c') { d["conventions"] = json{{"water_triple_point_reference", c.substr(2)}}; continue; }
        const char* sec = c[0] == 'e' ? "elements" : c[0] == 's' ? "substances" : "reactions";
        d[sec].push_back(json::parse(recJson(c[0], c.substr(2))));
    }
    return d;
}
std::vector<std::string> reactantsOf(const std::string& r) {
    std::vector<std::string> v; auto it = base[2].find(r);
    if (it != base[2].end() && it->second.contains("reactants")) for (auto& x : it->second["reactants"]) v.push_back(x["symbol"].get<std::string>());
    return v;
}
std::string reactionOf(const std::string& s) {
    auto it = base[1].find(s);
    return it != base[1].end() && it->second.contains("reaction") && it->second["reaction"].is_string() ? it->second["reaction"].get<std::string>() : "";
}

// -------------------------------------------------------------- serialisation
typedef Reaktoro_::ThermoScalar TS;
static void put(std::string& o, const char* n, const TS& t) {
    o += ' '; o += n; o += '='; o += num(t.val); o += '|'; o += num(t.ddt); o += '|'; o += num(t.ddp); o += '|'; o += num(t.err);
    o += '|'; o += std::to_string((int)t.sta.first); o += '|'; o += t.sta.second.empty() ? "" : enc(t.sta.second);
}
static void put(std::string& o, const char* n, double v) { o += ' '; o += n; o += '='; o += num(v); }
static void put(std::string& o, const char* n, const std::string& v) { o += ' '; o += n; o += '='; o += enc(v); }
static void put(std::string& o, const char* n, const vd& v) { o += ' '; o += n; o += "=["; for (auto x : v) { o += num(x); o += ';'; } o += ']'; }
static void put(std::string& o, const char* n, const vvd& v) { o += ' '; o += n; o += "=["; for (auto& y : v) { o += '['; for (auto x : y) { o += num(x); o += ';'; } o += ']'; } o += ']'; }
std::string ser(const ThermoFun::ThermoPropertiesSubstance& p) {
    std::string o = "tps"; put(o, "gibbs_energy", p.gibbs_energy); put(o, "helmholtz_energy", p.helmholtz_energy); put(o, "internal_energy", p.internal_energy); put(o, "enthalpy", p.enthalpy);
    put(o, "entropy", p.entropy); put(o, "volume", p.volume); put(o, "heat_capacity_cp", p.heat_capacity_cp); put(o, "heat_capacity_cv", p.heat_capacity_cv); return o;
}
std::string ser(const ThermoFun::ThermoPropertiesReaction& p) {
    std::string o = "tpr"; put(o, "lnKr", p.ln_equilibrium_constant); put(o, "logKr", p.log_equilibrium_constant); put(o, "reaction_gibbs_energy", p.reaction_gibbs_energy);
    put(o, "reaction_helmholtz_energy", p.reaction_helmholtz_energy); put(o, "reaction_internal_energy", p.reaction_internal_energy); put(o, "reaction_enthalpy", p.reaction_enthalpy);
    put(o, "reaction_entropy", p.reaction_entropy); put(o, "reaction_volume", p.reaction_volume); put(o, "reaction_heat_capacity_cp", p.reaction_heat_capacity_cp); put(o, "reaction_heat_capacity_cv", p.reaction_heat_capacity_cv); return o;
}
std::string ser(const ThermoFun::PropertiesSolvent& p) {
    std::string o = "ps";
    put(o, "density", p.density); put(o, "densityT", p.densityT); put(o, "densityP", p.densityP); put(o, "densityTT", p.densityTT); put(o, "densityTP", p.densityTP); put(o, "densityPP", p.densityPP);
    put(o, "Alpha", p.Alpha); put(o, "dAldT", p.dAldT); put(o, "Beta", p.Beta); put(o, "Albe", p.Albe);
    put(o, "pressure", p.pressure); put(o, "pressureT", p.pressureT); put(o, "pressureD", p.pressureD); put(o, "pressureTT", p.pressureTT); put(o, "pressureTD", p.pressureTD); put(o, "pressureDD", p.pressureDD);
    return o;
}
std::string ser(const ThermoFun::ElectroPropertiesSolvent& p) {
    std::string o = "eps"; put(o, "epsilon", p.epsilon); put(o, "epsilonT", p.epsilonT); put(o, "epsilonP", p.epsilonP); put(o, "epsilonTT", p.epsilonTT); put(o, "epsilonTP", p.epsilonTP); put(o, "epsilonPP", p.epsilonPP);
    put(o, "bornZ", p.bornZ); put(o, "bornY", p.bornY); put(o, "bornQ", p.bornQ); put(o, "bornN", p.bornN); put(o, "bornU", p.bornU); put(o, "bornX", p.bornX); return o;
}
static std::string normJson(const std::string& s) {
    if (s.empty()) return s;
    json j = json::parse(s, nullptr, false);
    return j.is_discarded() ? s : hex(fnv(j.dump()));
}
std::string ser(const ThermoFun::Substance& s) {
    std::string o = "sub"; put(o, "name", s.name()); put(o, "symbol", s.symbol()); put(o, "formula", s.formula()); put(o, "reaction", s.reactionSymbol());
    put(o, "mm", s.molarMass()); put(o, "Tr", s.referenceT()); put(o, "Pr", s.referenceP()); put(o, "lT", s.lowerT()); put(o, "lP", s.lowerP()); put(o, "uT", s.upperT()); put(o, "uP", s.upperP());
    o += " {" + ser(s.thermoReferenceProperties()) + "} {" + ser(s.thermoProperties()) + "}";
    auto p = s.thermoParameters();
    put(o, "ic", p.isothermal_compresibility); put(o, "ie", p.isobaric_expansivity); put(o, "ti", p.temperature_intervals); put(o, "pi", p.pressure_intervals); put(o, "cp", p.Cp_coeff); put(o, "cpn", p.Cp_nonElectrolyte_coeff);
    put(o, "pt", p.phase_transition_prop); put(o, "ptb", p.phase_transition_prop_Berman); put(o, "lan", p.m_landau_phase_trans_props); put(o, "hkf", p.HKF_parameters); put(o, "vc", p.volume_coeff);
    put(o, "crit", p.critical_parameters); put(o, "vbm", p.volume_BirchM_coeff); put(o, "emp", p.empirical_coeff); put(o, "hp", p.solute_holland_powell98_coeff);
    put(o, "mG", (double)s.methodGenEOS()); put(o, "mT", (double)s.method_T()); put(o, "mP", (double)s.method_P()); put(o, "cls", (double)s.substanceClass()); put(o, "agg", (double)s.aggregateState());
    put(o, "calc", (double)s.thermoCalculationType()); put(o, "z", (double)s.charge()); put(o, "js", normJson(s.jsonString()));
    return o;
}
std::string ser(const ThermoFun::Reaction& s) {
    std::string o = "rea"; put(o, "name", s.name()); put(o, "symbol", s.symbol()); put(o, "eq", s.equation());
    o += " react="; for (auto& r : s.reactants()) o += enc(r.first) + ":" + num(r.second) + ";";
    put(o, "Tr", s.referenceT()); put(o, "Pr", s.referenceP()); put(o, "lT", s.lowerT()); put(o, "lP", s.lowerP()); put(o, "uT", s.upperT()); put(o, "uP", s.upperP());
    o += " {" + ser(s.thermoReferenceProperties()) + "}";
    auto p = s.thermoParameters();
    put(o, "ti", p.temperature_intervals); put(o, "pi", p.pressure_intervals); put(o, "lk", p.reaction_logK_fT_coeff); put(o, "tp", p.logK_TP_array); put(o, "cp", p.reaction_Cp_fT_coeff); put(o, "v", p.reaction_V_fT_coeff);
    put(o, "rb", p.reaction_RB_coeff); put(o, "fm", p.reaction_FM_coeff); put(o, "dm", p.reaction_DM10_coeff);
    put(o, "mG", (double)s.methodGenEOS()); put(o, "mT", (double)s.method_T()); put(o, "mP", (double)s.method_P()); put(o, "js", normJson(s.jsonString()));
    return o;
}
std::string ser(const ThermoFun::Element& s) {
    std::string o = "ele"; put(o, "name", s.name()); put(o, "symbol", s.symbol()); put(o, "mm", s.molarMass()); put(o, "S", s.entropy()); put(o, "Cp", s.heatCapacity()); put(o, "V", s.volume());
    put(o, "val", (double)(s.valence() == 777 ? ChemicalFun::DBElements::defaultValence(s.symbol()) : s.valence())); put(o, "cls", (double)s.class_()); put(o, "iso", (double)s.isotopeMass()); put(o, "num", (double)s.number()); put(o, "js", normJson(s.jsonString()));
    return o;
}
double fieldOf(const std::string& a, const std::string& f, int& status, bool& ok) {
    ok = false; status = 0; std::string key = " " + f + "=";
    auto p = a.find(key); if (p == std::string::npos) return 0;
    auto e = a.find(' ', p + 1); auto t = split(a.substr(p + key.size(), e == std::string::npos ? e : e - p - key.size()), '|');
    ok = true; if (t.size() > 4) status = atoi(t[4].c_str());
    return t[0] == "nan" ? NAN : strtod(t[0].c_str(), nullptr);
}

// --------------------------------------------------------------------- models
void DbModel::apply(const std::vector<std::string>& content) {
    for (auto& c : content) { if (c[0] == 'c') wtp = c.substr(2); else of(c[0])[refSym(c.substr(2))] = c.substr(2); }
}
std::vector<std::string> DbModel::lines(const std::string& id) const {
    std::string l = "mkdb " + id + " doc c:" + wtp; std::vector<std::string> r, extra;
    for (char k : {'e', 's', 'r'}) for (auto& x : of(k)) {
        if (x.second.find("#new") != std::string::npos) { std::string b = "dbref " + id + " " + std::string(1, k) + " " + x.first; extra.push_back(b); auto t = split(x.second, '~'); for (size_t i = 1; i < t.size(); ++i) extra.push_back(b + " " + t[i]); }
        else if (refEdited(x.second)) extra.push_back("dbadd " + id + " " + std::string(1, k) + " " + x.second + " obj");
        else l += "," + std::string(1, k) + ":" + x.second;
    }
    r.push_back(l); r.insert(r.end(), extra.begin(), extra.end()); return r;
}
std::vector<std::string> EngModel::lines() const {
    auto r = db.lines("D0");
    r.push_back("mkeng E0 D0");
    // the amount of remembered results must not matter: the reference keeps nothing but the defaults
    std::string p = "pref E0 fallback=" + std::string(fallback ? "1" : "0") + " pcorr=" + (pcorr ? "1" : "0") + " solvent=" + enc(solvent);
    r.push_back(p); r.push_back("conv E0 " + app + " " + wat);
    return r;
}

// -------------------------------------------------------------------- log spy
thread_local long g_errorLogs = 0;
namespace { struct Spy : spdlog::sinks::base_sink<spdlog::details::null_mutex> {
    void sink_it_(const spdlog::details::log_msg& m) override { if (m.level >= spdlog::level::err && m.level != spdlog::level::off) ++g_errorLogs; }
    void flush_() override {}
}; }
bool installLogSpy(bool whenSilent) {
    SimScope s; auto l = spdlog::get("thermofun"); if (!l || (!whenSilent && l->sinks().empty())) return false;
    l->sinks().push_back(std::make_shared<Spy>()); return true;
}
std::vector<double> readDoubles(const std::string& s) { std::vector<double> r; if (s == "-") return r; for (auto& x : split(s, ',')) r.push_back(strtod(x.c_str(), nullptr)); return r; }
}
