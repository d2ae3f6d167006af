// Interpreter of plan lines against the real library, with in-line oracles.
#include <charconv>
#include "world.hpp"
#include "ChemicalFun/FormulaParser/ChemicalData.h"
#include <set>
#include <fstream>
#include <regex>
#include <sstream>
#include <iomanip>
#include <unistd.h>
#include <semaphore.h>
#include <pthread.h>
#include <sys/stat.h>
#include <locale>
#include <algorithm>

namespace sim {
using namespace ThermoFun;
static std::string I(long v) { return std::to_string(v); }
static double D(const std::string& s) {
    if (s == "nan") return NAN; if (s == "inf") return INFINITY; if (s == "-nan") return -NAN;
    double v = 0; std::from_chars(s.data(), s.data() + s.size(), v); return v;      // whatever the locale
}

Faults takeFaults(std::vector<std::string>& w) {
    Faults f; std::vector<std::string> r;
    for (auto& x : w) {
        if (x[0] != '!') { r.push_back(x); continue; }
        auto eq = x.find('='); auto k = x.substr(1, eq - 1), v = eq == std::string::npos ? "" : x.substr(eq + 1);
        if (k == "oom") f.oom = atol(v.c_str());
        else if (k == "oomp") { f.oom = atol(v.c_str()); f.oomPersist = true; }
        else if (k == "io") {      // role.call.nth.action.arg.persistent
            auto t = split(v, '.'); t.resize(6);
            f.io.push_back({t[0], t[1], t[3], std::max(1L, atol(t[2].c_str())), std::max(1L, atol(t[4].c_str())), t[5] == "1"});
        } else r.push_back(x);
    }
    w = r; return f;
}
static std::string takeOpt(std::vector<std::string>& w, const std::string& key, const std::string& dflt = "") {
    for (size_t i = 0; i < w.size(); ++i) if (w[i].compare(0, key.size() + 1, key + "=") == 0) { auto v = w[i].substr(key.size() + 1); w.erase(w.begin() + i); return v; }
    return dflt;
}

// runs code of the system under test; returns "" or the error text
static thread_local int t_foreign = 0;           // exceptions a caller who catches std::exception does not see
struct Outcome { std::string err; bool failed = false, badAlloc = false; };
template <class F> static Outcome sut(F f) {
    Outcome o; std::string* e = nullptr;
    {
        locales::Scope host;
        int depth = t_sut; t_sut = depth + 1;
        try { f(); t_sut = depth; }
        catch (const std::bad_alloc&) { t_sut = depth; o.failed = o.badAlloc = true; }
        catch (const std::exception& x) { t_sut = depth; o.failed = true; e = new std::string(x.what()); }
        catch (...) { t_sut = depth; o.failed = true; ++t_foreign; e = new std::string("unknown exception"); }
        t_sut = depth;
    }
    if (o.badAlloc) o.err = "error bad_alloc"; else if (o.failed) o.err = "error " + enc(e ? *e : "");
    delete e; return o;
}

void World::violation(const std::string& msg) { out("V " + I(opIndex) + " " + msg); }
void World::check(const EngModel& m, const std::string& query, const std::string& answer, const std::string& mode) {
    if (reference) return;
    std::string st = join(m.lines(), "\n");
    auto it = stateIds.find(st);
    if (it == stateIds.end()) { it = stateIds.emplace(st, (int)stateIds.size()).first; out("S " + I(it->second) + " " + enc(st)); }
    out("Q " + I(opIndex) + " " + I(it->second) + " " + mode + " " + enc(query) + " " + enc(answer));
}
void World::checkRec(char kind, const std::string& ref, const std::string& got) {
    if (reference) return;
    out("Q " + I(opIndex) + " -1 x " + enc(std::string("recser ") + kind + " " + ref) + " " + enc(got));
}
static std::string editSub(Substance& s, const std::string& e);
static void editRea(Reaction& s, const std::string& e);
static void editEle(Element& s, const std::string& e);
template <class T> static void applyEdits(T& s, const std::string& ref, void (*f)(T&, const std::string&)) {
    auto p = ref.find('~'); if (p == std::string::npos) return;
    for (auto& e : split(ref.substr(p + 1), '~')) f(s, e);
}
static void editS(Substance& s, const std::string& e) { editSub(s, e); }
static Substance makeSub(const std::string& ref) {
    if (ref.find("#new") != std::string::npos) { Substance s; s.setSymbol(refSym(ref)); s.setName(refSym(ref)); applyEdits<Substance>(s, ref, editS); return s; }
    Substance s(recJson('s', ref)); applyEdits<Substance>(s, ref, editS); return s; }
static Reaction makeRea(const std::string& ref) {
    if (ref.find("#new") != std::string::npos) { Reaction s; s.setSymbol(refSym(ref)); s.setName(refSym(ref)); applyEdits<Reaction>(s, ref, editRea); return s; }
    Reaction s(recJson('r', ref)); applyEdits<Reaction>(s, ref, editRea); return s; }
static Element makeEle(const std::string& ref) {
    if (ref.find("#new") != std::string::npos) { Element s; s.setSymbol(refSym(ref)); s.setName(refSym(ref)); applyEdits<Element>(s, ref, editEle); return s; }
    Element s(recJson('e', ref)); applyEdits<Element>(s, ref, editEle); return s; }
static std::string serRec(char k, const std::string& ref) { return k == 's' ? ser(makeSub(ref)) : k == 'r' ? ser(makeRea(ref)) : ser(makeEle(ref)); }
const std::string& World::serOf(char k, const std::string& ref) {
    std::string key = std::string(1, k) + ref; auto it = serCache.find(key);
    if (it != serCache.end()) return it->second;
    std::string s, d;
    auto keep = [&](auto&& x) { s = ser(x); d = expectMismatch(ref, x); };
    if (k == 's') keep(makeSub(ref)); else if (k == 'r') keep(makeRea(ref)); else keep(makeEle(ref));
    if (!d.empty()) violation(std::string("record ") + k + ":" + ref + " does not hold its data: " + d);
    checkRec(k, ref, s);
    return serCache[key] = s;
}
static double ed(const std::string& e) { double v = 0; std::from_chars(e.data() + 2, e.data() + e.size(), v); return v; }
static std::string editSub(Substance& s, const std::string& e) {
    // n.name  t.Tref  p.Pref  g.G  v.V  z.charge  f.formula  m.method-kit  u.upperT  M.molar mass  c.class  a.aggregate
    auto tp = s.thermoReferenceProperties();
    switch (e[0]) {
    case 'n': s.setName(e.substr(2)); break; case 't': s.setReferenceT(ed(e)); break; case 'p': s.setReferenceP(ed(e)); break;
    case 'g': tp.gibbs_energy = Reaktoro_::ThermoScalar(ed(e), 0., 0., 0., {Reaktoro_::Status::assigned, "x"}); s.setThermoReferenceProperties(tp); break;
    case 'v': tp.volume = Reaktoro_::ThermoScalar(ed(e), 0., 0., 0., {Reaktoro_::Status::assigned, "x"}); s.setThermoReferenceProperties(tp); break;
    case 'z': s.setCharge((int)ed(e)); break; case 'f': s.setFormula(e.substr(2)); break; case 'u': s.setUpperT(ed(e)); s.setLowerT(ed(e) - 500); s.setUpperP(ed(e)); s.setLowerP(1.); break;
    case 'M': s.setMolarMass(ed(e)); break; case 'c': s.setSubstanceClass((SubstanceClass::type)(int)ed(e)); break; case 'a': s.setAggregateState((AggregateState::type)(int)ed(e)); break;
    case 'r': s.setReactionSymbol(e.substr(2)); break; case 'j': s.setJsonString("{\"x\":" + e.substr(2) + "}"); break; case 'k': s.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); break;
    case 'm': {
        int k = (int)ed(e); auto par = s.thermoParameters();
        tp = s.thermoReferenceProperties();
        if (k == 1) { par.solute_holland_powell98_coeff = {1.8e-1, 0.02}; par.Cp_nonElectrolyte_coeff = {40.}; s.setMethodGenEoS(MethodGenEoS_Thrift::CTPM_HP98); s.setMethod_T((MethodCorrT_Thrift::type)0); s.setMethod_P((MethodCorrP_Thrift::type)0); }
        if (k == 2) { par.solute_holland_powell98_coeff = {1.8e-1}; s.setMethodGenEoS(MethodGenEoS_Thrift::CTPM_AN91); s.setMethod_T((MethodCorrT_Thrift::type)0); s.setMethod_P((MethodCorrP_Thrift::type)0); }
        if (k == 3) { par.volume_coeff = {2.5e-5, 1e-9, -2e-6, 5e-12, 1e-10}; s.setMethod_P(MethodCorrP_Thrift::CPM_VBE); }
        if (k == 4) { par.volume_BirchM_coeff = {2.3, 1e-5, 2e-9, -1e-3, 370., 4., 6e-5, 1e-6, 2e-9, 1e-3, 1e-6}; s.setMethod_P(MethodCorrP_Thrift::CPM_VBM); }
        if (k == 5) { par.volume_BirchM_coeff = {2.3, 1e-5, 2e-9, -1e-3, 370., 4., 6e-5, 1e-6}; s.setMethod_P(MethodCorrP_Thrift::CPM_VBM); }
        if (k == 6) { par.volume_coeff = {1.5e-5, 5e-10}; s.setMethod_P(MethodCorrP_Thrift::CPM_CEH); }
        if (k == 7) { par.critical_parameters = {304.2, 73.8}; s.setMethod_P(MethodCorrP_Thrift::CPM_EMP); }
        if (k == 8) s.setMethodGenEoS(MethodGenEoS_Thrift::CTPM_CON);
        if (k == 9) { par.Cp_coeff.clear(); par.HKF_parameters.clear(); par.temperature_intervals.clear(); }
        s.setThermoParameters(par); break; }
    }
    return "";
}
static void editRea(Reaction& s, const std::string& e) {
    auto tp = s.thermoReferenceProperties();
    switch (e[0]) {
    case 'n': s.setName(e.substr(2)); break; case 't': s.setReferenceT(ed(e)); break; case 'p': s.setReferenceP(ed(e)); break;
    case 'g': tp.reaction_gibbs_energy = Reaktoro_::ThermoScalar(ed(e), 0., 0., 0., {Reaktoro_::Status::assigned, "x"}); s.setThermoReferenceProperties(tp); break;
    case 'x': { auto r = s.reactants(); for (auto& y : r) y.second *= 3; s.setReactants(r); break; }
    case 'q': s.setEquation(e.substr(2)); break; case 'u': s.setUpperT(ed(e)); s.setLowerT(ed(e) - 500); s.setUpperP(ed(e)); s.setLowerP(2.); break;
    case 'm': { auto p = s.thermoParameters(); p.reaction_logK_fT_coeff = {ed(e), .1, .01}; s.setThermoParameters(p); break; }
    case 'j': s.setJsonString("{\"x\":" + e.substr(2) + "}"); break;
    // coefficients computed from the reference properties
    case 'L': s.setMethod_T((MethodCorrT_Thrift::type)(int)ed(e)); break;
    case 'K': try { auto k = s.calc_logK_fT_coefficients(); auto p = s.thermoParameters(); p.reaction_logK_fT_coeff = k; s.setThermoParameters(p); } catch (const std::exception& x) { s.setName(s.name() + "!K"); } break;
    }
}
static void editEle(Element& s, const std::string& e) {
    switch (e[0]) {
    case 'n': s.setName(e.substr(2)); break; case 'g': s.setEntropy(ed(e)); break; case 'M': s.setMolarMass(ed(e)); break; case 'v': s.setVolume(ed(e)); break; case 't': s.setHeatCapacity(ed(e)); break;
    case 'z': s.setValence((int)ed(e)); break; case 'j': s.setJsonString("{\"x\":" + e.substr(2) + "}"); break; case 'u': s.setNumber((int)ed(e)); break;
    }
}

// ------------------------------------------------------------- database oracle
void World::observeDb(const Database& d, const DbModel& m, const std::string& what) {
    auto bad = [&](const std::string& s) { violation(what + ": " + s); };
    auto o = sut([&] {
        struct K { char k; size_t n; std::vector<std::string> list; };
        auto one = [&](char k, auto& map, auto vec, auto list, size_t n, auto get, auto has) {
            const RecMap& mm = m.of(k);
            SimScope ss;
            if (n != mm.size()) bad(std::string("number of ") + k + " records is " + I(n) + ", expected " + I(mm.size()));
            if (map.size() != n || vec.size() != n || list.size() != n) bad(std::string("counts disagree for kind ") + k + ": number " + I(n) + " map " + I(map.size()) + " vector " + I(vec.size()) + " list " + I(list.size()));
            size_t i = 0;
            for (auto& x : map) {
                if (!mm.count(x.first)) bad(std::string("unexpected record ") + k + " " + x.first);
                if (x.second.symbol() != x.first) bad(std::string("record stored under ") + x.first + " has symbol " + x.second.symbol());
                if (i < list.size() && list[i] != x.first) bad("list and map order/content disagree at " + x.first);
                if (i < vec.size() && ser(vec[i]) != ser(x.second)) bad("vector and map contents disagree at " + x.first);
                ++i;
            }
            for (auto& x : mm) {
                bool h = has(x.first);
                if (!h) { bad(std::string("record missing: ") + k + " " + x.first); continue; }
                auto it = map.find(x.first); if (it == map.end()) { bad("contains() true but not in map: " + x.first); continue; }
                std::string want = serOf(k, x.second), got = ser(it->second), got2 = ser(get(x.first));
                if (got != want) bad(std::string("record ") + k + ":" + x.second + " differs from what was stored\n  want " + want + "\n  got  " + got);
                if (got2 != got) bad("lookup and map disagree for " + x.first);
            }
            if (has("no-such-record")) bad("contains() true for a missing symbol");
        };
        one('e', d.mapElements(), d.getElements(), d.getElementsList(), d.numberOfElements(), [&](auto& s) { return d.getElement(s); }, [&](const std::string& s) { return d.containsElement(s); });
        one('s', d.mapSubstances(), d.getSubstances(), d.getSubstancesList(), d.numberOfSubstances(), [&](auto& s) { return d.getSubstance(s); }, [&](const std::string& s) { return d.containsSubstance(s); });
        one('r', d.mapReactions(), d.getReactions(), d.getReactionsList(), d.numberOfReactions(), [&](auto& s) { return d.getReaction(s); }, [&](const std::string& s) { return d.containsReaction(s); });
    });
    if (o.failed) bad("observing the database failed: " + o.err);
}
void World::resolveDb(const Database& d, DbModel& m, const std::vector<std::string>& content, const std::string& what) {
    DbModel next = m;
    for (auto& c : content) {
        if (c[0] == 'c') { if (d.conventions().water_triple_point_reference == c.substr(2)) next.wtp = c.substr(2); continue; }
        char k = c[0]; std::string ref = c.substr(2), sym = refSym(ref);
        std::string got; bool has = false;
        auto rd = [&](auto& map) { auto it = map.find(sym); if (it != map.end()) { has = true; got = ser(it->second); } };
        if (k == 's') rd(d.mapSubstances()); else if (k == 'r') rd(d.mapReactions()); else rd(d.mapElements());
        auto& mm = next.of(k);
        if (has && got == serOf(k, ref)) { mm[sym] = ref; probe("partial.new"); continue; }
        auto old = m.of(k).find(sym);
        // the same symbol may occur several times in the content: any earlier version will do
        bool ok = false;
        if (has && old != m.of(k).end() && got == serOf(k, old->second)) { ok = true; probe("partial.old"); }
        if (!has && old == m.of(k).end()) { ok = true; probe("partial.absent"); }
        for (auto& c2 : content) if (!ok && has && c2[0] == k && refSym(c2.substr(2)) == sym && got == serOf(k, c2.substr(2))) { mm[sym] = c2.substr(2); ok = true; }
        if (!ok) { violation(what + ": record " + c + " is neither old nor new after the failed operation: " + (has ? got : "missing")); if (has) mm[sym] = ref; }
    }
    m = next;
}

// ----------------------------------------------------------------- file writing
static std::string writeData(const std::string& text, const std::string& corrupt, int n) {
    std::string name = "data_" + I(n) + ".json", t = text;
    if (!corrupt.empty()) {
        auto c = split(corrupt, ':'); size_t at = std::min<size_t>(t.size(), (size_t)((double)t.size() * atof(c[1].c_str())));
        if (c.size() > 2) at = std::min<size_t>(t.size(), (size_t)atol(c[2].c_str()));
        if (c[0] == "cut") t.resize(at);
        else if (c[0] == "zero") std::fill(t.begin() + at, t.end(), '\0');
        else if (c[0] == "garbage") { Rng r(at + 1); for (size_t i = at; i < t.size(); ++i) t[i] = (char)r.below(256); }
        else if (c[0] == "hole") { for (size_t i = at; i < std::min(t.size(), at + 512); ++i) t[i] = '\0'; }
        else if (c[0] == "dup") t = t.substr(0, at) + t;                    // an earlier, torn write followed by the full one
        else if (c[0] == "flip") { if (at < t.size()) t[at] = (char)(t[at] ^ 0x80); }
        else if (c[0] == "unlink") { unlink(name.c_str()); return name; }
        // the file is complete, but one of its records can not be used
        else if (c[0] == "badunit" || c[0] == "badlabel") {
            static const std::regex unit("\"sm_gibbs_energy\"\\s*:\\s*\\{[^{}]*\\}"), value("\"values\"\\s*:\\s*\\[\\s*-?[0-9]"), open("\"units\"\\s*:\\s*\\[\\s*\""), label("\"_label\"\\s*:\\s*\"");
            std::vector<size_t> places; std::smatch m; bool u = c[0] == "badunit";
            for (std::sregex_iterator i(t.begin(), t.end(), u ? unit : label), e; i != e; ++i) {
                std::string x = i->str(); if (!u) places.push_back(i->position() + x.size());
                else if (std::regex_search(x, value) && std::regex_search(x, m, open)) places.push_back(i->position() + m.position() + m.length());
            }
            if (!places.empty()) t.insert(places[at * places.size() / (t.size() + 1)], "no-such-");
        }
    }
    std::ofstream f(name, std::ios::binary | std::ios::trunc); f << t; f.close();
    return name;
}
static std::string labelName(char k) { return k == 'e' ? "element" : k == 's' ? "substance" : "reaction"; }
static json arrOf(const std::vector<std::string>& content) {
    json a = json::array();
    for (auto& c : content) if (c[0] != 'c') a.push_back(json{{"_label", labelName(c[0])}, {"properties", json::parse(recJson(c[0], c.substr(2)))}});
    return a;
}
struct Payload { std::string text; std::vector<std::string> vec; std::string label; bool isVec = false; };
static Payload payload(const std::string& via, const std::vector<std::string>& content, const std::string& corrupt, int n) {
    Payload p;
    if (via == "wdoc" || via == "wfile") {       // every other record wrapped, as in exports of whole collections
        json d = docOf(content);
        for (auto& x : d.items()) if (x.value().is_array()) for (size_t i = n % 2; i < x.value().size(); i += 2) { json r = x.value()[i]; json w = json::object(); w["properties"] = r; if (i % 5 > 2) { w["_id"] = "substances/1"; w["_key"] = "1"; w["_type"] = "vertex"; } if (i % 3) { std::string l = x.key(); l.pop_back(); w["_label"] = l; } x.value()[i] = w; }
        p.text = via == "wdoc" ? d.dump() : writeData(d.dump(1), corrupt, n);
    }
    else if (via == "doc") p.text = docOf(content).dump();
    else if (via == "arr") p.text = arrOf(content).dump();
    else if (via == "file") p.text = writeData(docOf(content).dump(n % 3 ? -1 : 1), corrupt, n);
    else if (via == "afile") p.text = writeData(arrOf(content).dump(), corrupt, n);
    else { p.isVec = true; p.label = "unknown label";
        for (auto& c : content) { if (c[0] == 'c') continue;
            if (via == "mvec") {               // records with their own label among records that rely on the label of the call
                if (p.label == "unknown label") p.label = labelName(content.back()[0] == 'c' ? c[0] : content.back()[0]);
                auto r = json::parse(recJson(c[0], c.substr(2))); size_t i = p.vec.size() + n;
                if (labelName(c[0]) != p.label || i % 3 == 1) p.vec.push_back(json{{"_label", labelName(c[0])}, {"properties", r}}.dump());
                else { json w = json::object(); w["properties"] = r; p.vec.push_back(i % 3 ? w.dump() : r.dump()); }
            }
            else if (via == "vecs") { p.vec.push_back(recJson(c[0], c.substr(2))); p.label = labelName(c[0]); }
            else p.vec.push_back(json{{"_label", labelName(c[0])}, {"properties", json::parse(recJson(c[0], c.substr(2)))}}.dump()); } }
    return p;
}

// ------------------------------------------------------------------ unit tables
struct UnitDef { double f, off; };
static bool unitOf(const std::string& u, UnitDef& d) {
    static const std::map<std::string, UnitDef> t = {{"K", {1, 0}}, {"degC", {1, -273.15}}, {"Pa", {1, 0}}, {"bar", {1e-5, 0}}, {"kbar", {1e-8, 0}}, {"MPa", {1e-6, 0}},
        {"J/mol", {1, 0}}, {"kJ/mol", {1e-3, 0}}, {"cal/mol", {1 / 4.184, 0}}, {"kcal/mol", {1 / 4184., 0}}, {"J/K/mol", {1, 0}}, {"kJ/K/mol", {1e-3, 0}}, {"cal/K/mol", {1 / 4.184, 0}},
        {"J/bar", {1, 0}}, {"cal/bar", {1 / 4.184, 0}}, {"cm3", {10, 0}}, {"1", {1, 0}}};
    auto it = t.find(u); if (it == t.end()) return false; d = it->second; return true;
}
static double toUnit(double v, const std::string& u) { UnitDef d{1, 0}; unitOf(u, d); return v * d.f + d.off; }
static double fromUnit(double v, const std::string& u) { UnitDef d{1, 0}; unitOf(u, d); return (v - d.off) / d.f; }
// the engine reads pressures below the triple point of water as "at saturation" and reports the saturation pressure
static bool atSat(const OutModel& m, size_t pair) { return m.kind != 'g' && fromUnit(m.pairs[pair][1], m.bat.units.at("pressure")) < 612.; }

// -------------------------------------------------------------- query execution
struct QArgs { std::string form; double T, P; std::string sym; int state = -1; };
static QArgs qargs(const std::vector<std::string>& w, size_t at) {
    QArgs q; q.form = w[at]; q.T = D(w.size() > at + 1 ? w[at + 1] : "298.15"); q.P = D(w.size() > at + 2 ? w[at + 2] : "1e5");
    q.sym = w.size() > at + 3 ? dec(w[at + 3]) : ""; if (w.size() > at + 4) q.state = atoi(w[at + 4].c_str()); return q;
}
static std::string runQuery(const ThermoEngine& e, const QArgs& q, Outcome& o) {
    double T = q.T, P = q.P; std::string form = q.form, sym = q.sym; int state = q.state;
    std::optional<ThermoPropertiesSubstance> tps; std::optional<ThermoPropertiesReaction> tpr; std::optional<PropertiesSolvent> ps; std::optional<ElectroPropertiesSolvent> eps;
    std::optional<std::map<Element, double>> frm; std::optional<double> ent; std::optional<Substance> so; std::optional<Reaction> ro;
    std::string sym2 = sym;
    o = sut([&] {
        if (form == "sub") tps.emplace(e.thermoPropertiesSubstance(T, P, sym));
        else if (form == "subo") { so.emplace(e.database().getSubstance(sym)); tps.emplace(e.thermoPropertiesSubstance(T, P, *so)); }
        else if (form == "subv") { { SimScope s; so.emplace(makeSub(sym2)); } tps.emplace(e.thermoPropertiesSubstance(T, P, *so)); }
        else if (form == "rea") tpr.emplace(e.thermoPropertiesReaction(T, P, sym));
        else if (form == "reao") { ro.emplace(e.database().getReaction(sym)); tpr.emplace(e.thermoPropertiesReaction(T, P, *ro)); }
        else if (form == "reav") { { SimScope s; ro.emplace(makeRea(sym2)); } tpr.emplace(e.thermoPropertiesReaction(T, P, *ro)); }
        else if (form == "rfr") tpr.emplace(e.thermoPropertiesReactionFromReactants(T, P, sym));
        else if (form == "rfro") { ro.emplace(e.database().getReaction(sym)); tpr.emplace(e.thermoPropertiesReactionFromReactants(T, P, *ro)); }
        else if (form == "prs") ps.emplace(e.propertiesSolvent(T, P, sym, state));
        else if (form == "prso") { so.emplace(e.database().getSubstance(sym)); ps.emplace(e.propertiesSolvent(T, P, *so, state)); }
        else if (form == "els") eps.emplace(e.electroPropertiesSolvent(T, P, sym, state));
        else if (form == "elso") { so.emplace(e.database().getSubstance(sym)); eps.emplace(e.electroPropertiesSolvent(T, P, *so, state)); }
        else if (form == "frm") frm.emplace(e.parseSubstanceFormula(sym));
        else if (form == "ent") ent.emplace(e.database().elementalEntropyFormula(sym));
    });
    std::string a;
    if (o.failed) a = o.err;
    else if (tps) a = ser(*tps); else if (tpr) a = ser(*tpr); else if (ps) a = ser(*ps); else if (eps) a = ser(*eps);
    else if (ent) a = "entropy " + num(*ent);
    else if (frm) { a = "formula"; for (auto& x : *frm) a += " " + enc(ser(x.first)) + ":" + num(x.second); }
    if (form != "frm" && form != "ent" && !o.failed) a += " P=" + num(P);
    return a;
}

// charge of a formula whose elements are all in the data
static bool knownFormula(const DbModel& m, const std::string& f, int& z) {
    try {
        ChemicalFun::FormulaToken t(f); std::set<std::pair<std::string, int>> known;
        for (auto& x : m.e) { auto e = makeEle(x.second); known.insert({e.symbol(), e.class_()}); }
        double c = 0; for (auto& x : t.getStoichCoefficients()) { if (!known.count({x.first.Symbol(), x.first.Class()})) return false; if (x.first.Symbol() == "Zz") c += x.second; }
        z = (int)c; return true;
    } catch (const std::exception&) { return false; }
}
struct OpImpl {
    World& W; std::vector<std::string> w; Faults f; std::string text; long oomFired = 0, ioFired = 0, closeFired = 0; long errLogs = 0;
    template <class F> Outcome go(F fn) {        // the faulted part of an operation
        io::clear(); for (auto& x : f.io) io::add(x);
        long e0 = g_errorLogs;
        heap::armFailure(f.oom, f.oomPersist);
        Outcome o = sut(fn);
        oomFired += heap::disarm(); errLogs += g_errorLogs - e0;
        for (auto& x : io::list()) { if (x.fired) { ioFired += x.fired; if (x.call == "close" && x.role == "c") closeFired += x.fired; W.faults["io." + x.role + "." + x.call + "." + x.action] += x.fired; } }
        io::clear();
        if (oomFired) W.faults[f.oomPersist ? "oom.persistent" : "oom.single"] += 1;
        return o;
    }
    std::string query();
    std::string database();
    std::string engine();
    std::string batch();
    std::string records();
    std::string rows();
    std::string misc();
    void checkPrefs(EngObj& e);
    void addUp(const EngModel& m, const QArgs& q, const std::string& a);
    void checkOutput(OutObj& o, const std::string& how);
    std::string csv(OutObj& o);
    // complete data loaded without a fault have to be accepted
    void plainLoad(const Outcome& o, const std::string& corrupt, const std::vector<std::string>& content) {
        if (W.reference || (!o.failed && !errLogs) || f.any() || ioFired || oomFired || !corrupt.empty()) return;
        for (auto& c : content) if (c.find("#k") != std::string::npos) return;   // damaged records may be refused
        W.violation("loading complete data without a fault " + (o.failed ? "raised an error: " + dec(o.err) : std::string("was reported in the log as failed")));
    }
};

void OpImpl::checkPrefs(EngObj& e) {
    if (W.reference) return;
    auto& p = std::as_const(*e.p).preferences(); auto& m = e.m;
    auto bad = [&](const char* n) { W.violation(std::string("setting ") + n + " is not what the user set"); };
    if (p.enable_memoize != m.memo) bad("enable_memoize");
    if ((long)p.max_cache_size != m.cache) bad("max_cache_size");
    if (p.solvent_symbol != m.solvent) bad("solvent_symbol");
    if (p.fallback_to_reference_properties != m.fallback) bad("fallback_to_reference_properties");
    if (p.apply_pressure_correction_to_gas_props != m.pcorr) { bad("apply_pressure_correction_to_gas_props"); m.pcorr = p.apply_pressure_correction_to_gas_props; }
    if (std::as_const(*e.p).conventions().apparent_properties != m.app) bad("apparent_properties");
    if (std::as_const(*e.p).conventions().water_properties != m.wat) bad("water_properties");
}

std::string OpImpl::query() {                 // q E form T P sym [state]
    auto it = W.eng.find(w[1]); if (it == W.eng.end()) return "skip";
    auto& E = it->second; auto q = qargs(w, 2); Outcome o; std::string a;
    long e0 = g_errorLogs; (void)e0;
    io::clear(); for (auto& x : f.io) io::add(x);
    heap::armFailure(f.oom, f.oomPersist);
    a = runQuery(*E.p, q, o);
    oomFired = heap::disarm(); 
    for (auto& x : io::list()) if (x.fired) { ioFired += x.fired; W.faults["io." + x.role + "." + x.call + "." + x.action] += x.fired; }
    io::clear();
    if (oomFired) W.faults[f.oomPersist ? "oom.persistent" : "oom.single"] += 1;
    W.probe(std::string("q.") + q.form + (o.failed ? ".err" : ".ok"));
    if (!W.reference) { auto why = unanswerable(E.m, q.form, q.sym); if (!why.empty()) { W.probe("q.unanswerable"); if (!o.failed) W.violation("query " + q.form + " of " + q.sym + " was answered though " + why); }
        if (!o.failed) { bool ok; int st; double back = fieldOf(a, "P", st, ok); for (size_t at = a.rfind(" P="); at != std::string::npos; at = std::string::npos) back = strtod(a.c_str() + at + 3, nullptr);
            if (ok) { why = wrongPressure(E.m, q.form, q.sym, q.T, q.P, back); if (!why.empty()) W.violation("query " + q.form + " of " + q.sym + ": " + why); if (q.P == 0 && back > 0) W.probe("q.saturation"); } } }
    if (oomFired && o.failed) W.probe("oom.raised");
    else { if (oomFired) W.probe("oom.absorbed");
        std::string qs = "q E0"; for (size_t i = 2; i < w.size(); ++i) qs += " " + w[i];
        W.check(E.m, qs, a);
        if (!o.failed) addUp(E.m, q, a);
        if (!o.failed && !oomFired && W.sums && starts(a, "tpr ") && q.T > 0) { auto why = oneEquilibrium(a, q.T); W.probe("equilibrium"); if (!why.empty()) W.violation("one reaction answer: " + why + ": query " + q.form + " of " + q.sym); } }
    checkPrefs(E);
    return a;
}

// a reaction calculated from its reactants is the sum of their answers, and so is the reaction of a substance defined by one
void OpImpl::addUp(const EngModel& m, const QArgs& q, const std::string& a) {
    if (W.reference || !W.sums || oomFired || !(q.P >= 1000) || !(q.T > 0)) return;
    bool sub = q.form == "sub" || q.form == "subo", rfr = !sub; std::string rs = q.sym; std::map<std::string, double> co; double own = 1;
    if (sub) { auto it = m.db.s.find(q.sym); if (it == m.db.s.end() || q.sym == "H+" || !definedByReaction(it->second, rs)) return; }
    auto it = m.db.r.find(rs);
    if (it != m.db.r.end()) { if (!coefficients(it->second, co)) return; }
    else if (q.form != "rea" || !equation(q.sym, co)) return;
    if (q.form == "rea" || q.form == "reao") { if (it != m.db.r.end() && !fromReactants(it->second)) return; } else if (rfr && q.form != "rfr" && q.form != "rfro") return;
    if (!rfr) { if (!co.count(q.sym) || co[q.sym] == 0) return; own = co[q.sym]; co.erase(q.sym); }
    std::string t = std::string("addup ") + (rfr ? "-" : enc(rs)) + " " + num(own) + " " + num(q.T) + " " + num(q.P); for (auto& c : co) t += " " + num(c.second) + ":" + enc(c.first);
    EngModel n = m; n.pcorr = true; W.check(n, t, a, rfr ? "sum:r:" + num(q.T) : m.fallback ? "sum:f" : "sum:s"); W.probe(sub ? "addup.substance" : it == m.db.r.end() ? "addup.equation" : "addup.reaction");
}

std::string OpImpl::database() {
    auto& op = w[0];
    auto obs = [&](DbObj& d, const std::string& what) { if (!W.reference && !oomFired && !ioFired) return; if (!W.reference) W.observeDb(*d.p, d.m, what); };
    (void)obs;
    if (op == "mkdb" || op == "dbappend") {   // mkdb D via content [file=corruption] ; dbappend D via content
        auto corrupt = takeOpt(w, "file"); auto content = w[3] == "-" ? std::vector<std::string>() : split(w[3], ',');
        Payload p = payload(w[2], content, corrupt, W.opIndex);
        if (!corrupt.empty()) W.faults["file." + corrupt.substr(0, corrupt.find(':'))]++;
        DbObj* d; std::unique_ptr<Database> n; DbObj fresh;
        bool append = op == "dbappend"; bool engAppend = false;
        if (append) { auto it = W.db.find(w[1]); if (it == W.db.end()) return "skip"; d = &it->second; } else d = &fresh;
        Outcome o = go([&] {
            if (append) { if (p.isVec) d->p->appendData(p.vec, p.label); else d->p->appendData(p.text); }
            else if (p.isVec) n.reset(new Database(p.vec, p.label)); else n.reset(new Database(p.text));
        });
        (void)engAppend;
        plainLoad(o, corrupt, content);
        if (!append) { if (o.failed) { if (!f.any() && corrupt.empty()) W.probe("mkdb.err"); else W.probe("load.failed"); return o.err; } d->p = std::move(n); }
        if (o.failed || errLogs) { W.probe(o.failed ? "load.failed" : "load.logged"); if (!W.reference) W.resolveDb(*d->p, d->m, content, op); }
        else { d->m.apply(content); if (f.any() || !corrupt.empty()) W.probe("load.ok-under-fault"); }
        if (!W.reference && w.size() > 4 && w[4] == "obs") W.observeDb(*d->p, d->m, op);
        if (!append) W.db[w[1]] = std::move(*d);
        return o.failed ? o.err : errLogs ? "logged" : "ok";
    }
    if (op == "dbcopy" || op == "dbassign") { // dbcopy D1 D0
        auto it = W.db.find(w[2]); if (it == W.db.end()) return "skip";
        std::unique_ptr<Database> n; Outcome o;
        auto dst = W.db.find(w[1]);
        if (op == "dbassign" && dst != W.db.end()) { o = go([&] { *dst->second.p = *it->second.p; }); if (!o.failed) dst->second.m = it->second.m; }
        else { if (w[1] == w[2]) return "skip"; o = go([&] { n.reset(new Database(*it->second.p)); }); if (!o.failed) { auto m = it->second.m; W.db[w[1]] = DbObj{std::move(n), m}; } }
        return o.failed ? o.err : "ok";
    }
    if (op == "dbempty") { std::unique_ptr<Database> n; auto o = go([&] { n.reset(new Database()); }); if (o.failed) return o.err; W.db[w[1]] = DbObj{std::move(n), DbModel()}; return "ok"; }
    auto it = W.db.find(w[1]); if (it == W.db.end()) return "skip";
    auto& d = it->second; auto& db = *d.p;
    if (op == "dbdel") { auto p = d.p.release(); go([&] { delete p; }); W.db.erase(it); return "ok"; }
    if (op == "dbobs") { W.observeDb(db, d.m, "database"); return "ok"; }
    if (op == "dbadd" || op == "dbset") {     // dbadd D kind ref obj|json
        char k = w[2][0]; std::string ref = w[3]; bool obj = w[4] == "obj" || refEdited(ref); bool set = op == "dbset";
        std::optional<Substance> s; std::optional<Reaction> r; std::optional<Element> e; std::string js;
        if (obj) { if (k == 's') s.emplace(makeSub(ref)); else if (k == 'r') r.emplace(makeRea(ref)); else e.emplace(makeEle(ref)); }
        else js = recJson(k, ref);
        Outcome o = go([&] {
            if (k == 's') { if (obj) { if (set) db.setSubstance(*s); else db.addSubstance(*s); } else if (set) db.setSubstance(js); else db.addSubstance(js); }
            else if (k == 'r') { if (obj) { if (set) db.setReaction(*r); else db.addReaction(*r); } else if (set) db.setReaction(js); else db.addReaction(js); }
            else { if (obj) { if (set) db.setElement(*e); else db.addElement(*e); } else if (set) db.setElement(js); else db.addElement(js); }
        });
        bool was = d.m.of(k).count(refSym(ref));
        W.probe(op + (was ? ".existing" : ".new"));
        if (o.failed) { if (!oomFired) W.violation("storing record " + ref + " failed: " + dec(o.err)); else if (set || !was) W.resolveDb(db, d.m, {std::string(1, k) + ":" + ref}, op); }
        else if (set || !was) d.m.of(k)[refSym(ref)] = ref;
        return o.failed ? o.err : "ok";
    }
    if (op == "dbaddmap" || op == "dbsetmap") {   // dbaddmap|dbsetmap D kind ref,ref
        char k = w[2][0]; auto refs = split(w[3], ','); ElementsMap em; SubstancesMap sm; ReactionsMap rm;
        for (auto& x : refs) { if (k == 's') sm[refSym(x)] = makeSub(x); else if (k == 'r') rm[refSym(x)] = makeRea(x); else em[refSym(x)] = makeEle(x); }
        bool set = op == "dbsetmap";
        Outcome o = go([&] {
            if (set) { if (k == 's') db.setMapSubstances(sm); else if (k == 'r') db.setMapReactions(rm); else db.setMapElements(em); }
            else if (k == 's') db.addMapSubstances(sm); else if (k == 'r') db.addMapReactions(rm); else db.addMapElements(em);
        });
        std::map<std::string, std::string> last; for (auto& x : refs) last[refSym(x)] = x;
        std::vector<std::string> fresh; for (auto& x : last) if (set || !d.m.of(k).count(x.first)) fresh.push_back(std::string(1, k) + ":" + x.second);
        bool mixed = false; for (auto& x : last) mixed = mixed || d.m.of(k).count(x.first); W.probe(op + (mixed ? ".mixed" : ".new"));
        if (o.failed) { if (!oomFired) W.violation(op + " failed: " + dec(o.err)); else W.resolveDb(db, d.m, fresh, op); }
        else for (auto& x : fresh) d.m.of(k)[refSym(x.substr(2))] = x.substr(2);
        return o.failed ? o.err : "ok";
    }
    if (op == "dbcharge") {                   // charge of every substance as given by its formula
        std::map<std::string, std::string> charges; std::string firstBad; std::vector<std::string> edits;
        for (auto& x : d.m.s) { std::string f = makeSub(x.second).formula(); int z = 0; if (knownFormula(d.m, f, z)) edits.push_back("s:" + x.second + "~z." + I(z)); else firstBad = x.first; }
        Outcome o = go([&] { db.setSubstancesChargeFromFromula(); });
        if (!o.failed) { if (!firstBad.empty()) W.violation("charges were taken from a formula that can not be parsed: " + firstBad); for (auto& x : edits) d.m.s[refSym(x.substr(2))] = x.substr(2); }
        else { if (firstBad.empty() && !oomFired) W.violation("taking charges from formulas failed: " + dec(o.err)); W.resolveDb(db, d.m, edits, op); }
        return o.failed ? o.err : "ok";
    }
    if (op == "dbref") {                      // dbref D kind sym [edit]: access by reference, creating the record if missing
        char k = w[2][0]; std::string sym = w[3], edit = w.size() > 4 ? w[4] : "";
        Substance* s = nullptr; Reaction* r = nullptr; Element* e = nullptr;
        Outcome o = go([&] { if (k == 's') s = &db.substance(sym); else if (k == 'r') r = &db.reaction(sym); else e = &db.element(sym); });
        bool was = d.m.of(k).count(sym);
        W.probe(was ? "dbref.existing" : "dbref.new");
        if (o.failed) { if (!oomFired) W.violation("access by reference failed: " + dec(o.err)); else if (!was) W.resolveDb(db, d.m, {std::string(1, k) + ":" + sym + "#new"}, op); return o.err; }
        if (!was) d.m.of(k)[sym] = sym + "#new";
        if (!edit.empty()) {
            if (s) editS(*s, edit); if (r) editRea(*r, edit); if (e) editEle(*e, edit);
            d.m.of(k)[sym] += "~" + edit;
        }
        return "ok";
    }
    if (op == "dbget") {                      // dbget D kind sym
        char k = w[2][0]; std::string sym = w[3], a; const Substance* s = nullptr; const Reaction* r = nullptr; const Element* e = nullptr;
        Outcome o = go([&] { if (k == 's') s = &db.getSubstance(sym); else if (k == 'r') r = &db.getReaction(sym); else e = &db.getElement(sym); });
        bool was = d.m.of(k).count(sym);
        if (!o.failed) a = s ? ser(*s) : r ? ser(*r) : ser(*e);
        W.probe(was ? "dbget.hit" : "dbget.miss");
        if (was && !o.failed && a != W.serOf(k, d.m.of(k)[sym])) W.violation("lookup of " + sym + " returned something else than the stored record\n  want " + W.serOf(k, d.m.of(k)[sym]) + "\n  got  " + a);
        if (was && o.failed && !oomFired) W.violation("lookup of present record " + sym + " failed");
        if (!was && !o.failed) W.violation("lookup of missing record " + sym + " did not fail");
        return o.failed ? o.err : a;
    }
    if (op == "dbent" || op == "dbfrm") {     // element table of the formula parser
        EngModel m; m.db = d.m; std::string a, fo = dec(w[2]); std::optional<std::map<Element, double>> mp; double v = 0;
        Outcome o = go([&] { if (op == "dbent") v = db.elementalEntropyFormula(fo); else mp.emplace(db.parseSubstanceFormula(fo)); });
        if (o.failed) a = o.err; else if (op == "dbent") a = "entropy " + num(v); else { a = "formula"; for (auto& x : *mp) a += " " + enc(ser(x.first)) + ":" + num(x.second); }
        if (!oomFired) W.check(m, std::string("q E0 ") + (op == "dbent" ? "ent" : "frm") + " 0 0 " + w[2], a);
        return a;
    }
    if (op == "dbcharge") { Outcome o = go([&] { db.setSubstancesChargeFromFromula(); }); return o.failed ? o.err : "ok"; }
    return "?";
}

std::string OpImpl::engine() {
    auto& op = w[0];
    if (op == "mkeng") {                      // mkeng E D
        auto it = W.db.find(w[2]); if (it == W.db.end()) return "skip";
        std::unique_ptr<ThermoEngine> n; Outcome o = go([&] { n.reset(new ThermoEngine(*it->second.p)); });
        if (o.failed) return o.err;
        EngObj e; e.p = std::move(n); e.m.db = it->second.m; W.eng[w[1]] = std::move(e); return "ok";
    }
    if (op == "mkengf") {                     // mkengf E via content
        auto corrupt = takeOpt(w, "file"); auto content = split(w[3], ','); Payload p = payload(w[2], content, corrupt, W.opIndex);
        std::unique_ptr<ThermoEngine> n; Outcome o = go([&] { n.reset(new ThermoEngine(p.text)); });
        if (!corrupt.empty()) W.faults["file." + corrupt.substr(0, corrupt.find(':'))]++;
        plainLoad(o, corrupt, content);
        if (o.failed) { W.probe("load.failed"); return o.err; }
        EngObj e; e.p = std::move(n);
        if (errLogs) { W.probe("load.logged"); W.resolveDb(e.p->database(), e.m.db, content, op); } else e.m.db.apply(content);
        if (!W.reference && w.size() > 4 && w[4] == "obs") W.observeDb(e.p->database(), e.m.db, op);
        W.eng[w[1]] = std::move(e); return errLogs ? "logged" : "ok";
    }
    if (op == "engcopy" || op == "engassign") {
        auto it = W.eng.find(w[2]); if (it == W.eng.end()) return "skip"; auto dst = W.eng.find(w[1]); Outcome o; std::unique_ptr<ThermoEngine> n;
        if (op == "engassign" && dst != W.eng.end()) { dst->second.hp = nullptr; dst->second.hc = nullptr; dst->second.hs = nullptr; o = go([&] { *dst->second.p = *it->second.p; }); if (!o.failed) dst->second.m = it->second.m; }
        else { if (w[1] == w[2]) return "skip"; o = go([&] { n.reset(new ThermoEngine(*it->second.p)); }); if (!o.failed) { auto m = it->second.m; W.eng[w[1]] = EngObj{std::move(n), m}; } }
        return o.failed ? o.err : "ok";
    }
    auto it = W.eng.find(w[1]); if (it == W.eng.end()) return "skip";
    auto& E = it->second; auto& e = *E.p;
    if (op == "engdel") { auto p = E.p.release(); go([&] { delete p; }); W.eng.erase(it); return "ok"; }
    if (op == "engobs") { W.observeDb(e.database(), E.m.db, "engine database"); return "ok"; }
    if (op == "engdb") {                      // engdb E D : a database copied out of the engine
        std::unique_ptr<Database> n; Outcome o = go([&] { n.reset(new Database(e.database())); }); if (o.failed) return o.err;
        W.db[w[2]] = DbObj{std::move(n), E.m.db}; return "ok";
    }
    if (op == "append") {                     // append E via content
        auto corrupt = takeOpt(w, "file"); auto content = split(w[3], ','); Payload p = payload(w[2], content, corrupt, W.opIndex);
        if (!corrupt.empty()) W.faults["file." + corrupt.substr(0, corrupt.find(':'))]++;
        Outcome o = go([&] { if (p.isVec) e.appendData(p.vec, p.label); else e.appendData(p.text); });
        plainLoad(o, corrupt, content);
        if (o.failed || errLogs) { W.probe(o.failed ? "load.failed" : "load.logged"); if (!W.reference) W.resolveDb(e.database(), E.m.db, content, op); }
        else { E.m.db.apply(content); W.probe("append.ok"); if (f.any() || !corrupt.empty()) W.probe("load.ok-under-fault"); }
        if (!W.reference && w.size() > 4 && w[4] == "obs") W.observeDb(e.database(), E.m.db, op);
        checkPrefs(E);
        return o.failed ? o.err : errLogs ? "logged" : "ok";
    }
    if (op == "solvent") {                    // solvent E sym method|ref|pref
        std::string s = dec(w[2]);
        Outcome o = go([&] { if (w[3] == "method") e.setSolventSymbol(s); else if (w[3] == "ref") e.solventSymbol() = s; else if (w[3] == "held") { if (!E.hs) E.hs = &e.solventSymbol(); *E.hs = s; } else e.preferences().solvent_symbol = s; });
        if (o.failed) { if (!oomFired) W.violation("setSolventSymbol failed"); } else E.m.solvent = s;
        checkPrefs(E); return o.failed ? o.err : "ok";
    }
    if (op == "prefset") {                    // all preferences at once
        EnginePreferences c = e.preferences(); EngModel m = E.m;
        for (size_t i = 2; i < w.size(); ++i) {
            auto eq = w[i].find('='); auto k = w[i].substr(0, eq), v = w[i].substr(eq + 1);
            if (k == "memo") c.enable_memoize = m.memo = v == "1"; if (k == "cache") { m.cache = atol(v.c_str()); c.max_cache_size = (size_t)m.cache; }
            if (k == "fallback") c.fallback_to_reference_properties = m.fallback = v == "1"; if (k == "pcorr") c.apply_pressure_correction_to_gas_props = m.pcorr = v == "1";
            if (k == "solvent") c.solvent_symbol = m.solvent = dec(v);
        }
        Outcome o = go([&] { e.setPreferences(c); });
        if (o.failed) { if (!oomFired) W.violation("setPreferences failed"); } else E.m = m;
        checkPrefs(E); return o.failed ? o.err : "ok";
    }
    if (op == "pref") {                       // pref E key=val ...
        bool held = w.back() == "held"; if (held) { w.pop_back(); if (!E.hp) E.hp = &e.preferences(); W.probe("pref.held"); }
        auto& p = held ? *E.hp : e.preferences();
        for (size_t i = 2; i < w.size(); ++i) {
            auto eq = w[i].find('='); auto k = w[i].substr(0, eq), v = w[i].substr(eq + 1);
            if (k == "memo") p.enable_memoize = E.m.memo = v == "1"; if (k == "cache") { E.m.cache = atol(v.c_str()); p.max_cache_size = (size_t)E.m.cache; }
            if (k == "fallback") p.fallback_to_reference_properties = E.m.fallback = v == "1"; if (k == "pcorr") p.apply_pressure_correction_to_gas_props = E.m.pcorr = v == "1";
            if (k == "solvent") p.solvent_symbol = E.m.solvent = dec(v);
        }
        return "ok";
    }
    if (op == "conv" && w.size() > 4) { if (!E.hc) E.hc = &e.conventions(); E.hc->apparent_properties = E.m.app = w[2]; E.hc->water_properties = E.m.wat = w[3]; return "ok"; }
    if (op == "conv") { e.conventions().apparent_properties = E.m.app = w[2]; e.conventions().water_properties = E.m.wat = w[3]; return "ok"; }
    if (op == "prefcopy") {                   // reading settings through a copy must not change them
        EnginePreferences c = e.preferences(); c.solvent_symbol = "nothing"; c.max_cache_size = 3; EngineConventions k = e.conventions(); k.apparent_properties = "x"; checkPrefs(E); return "ok";
    }
    if (op == "rep") {                        // rep E n form T0 dT P sym : n queries at different temperatures
        int n = atoi(w[2].c_str()); double T0 = D(w[4]), dT = D(w[5]), P0 = D(w[6]); std::string form = w[3], sym = dec(w[7]); std::string last;
        for (int i = 0; i < n; ++i) { QArgs q; q.form = form; q.T = T0 + i * dT; q.P = P0; q.sym = sym; Outcome o; last = runQuery(e, q, o); }
        return last;
    }
    return "?";
}

// ------------------------------------------------------------------ batches
static std::vector<std::vector<double>> parsePairs(const std::string& s) { std::vector<std::vector<double>> r; for (auto& x : split(s, ',')) { auto t = split(x, ':'); r.push_back({D(t[0]), D(t[1])}); } return r; }
std::string OpImpl::batch() {
    auto& op = w[0];
    if (op == "mkbat") {                      // mkbat B E|D
        std::unique_ptr<ThermoBatch> n; BatModel m; Outcome o; 
        if (auto e = W.eng.find(w[2]); e != W.eng.end()) { o = go([&] { n.reset(new ThermoBatch(*e->second.p)); }); m.eng = e->second.m; }
        else if (auto d = W.db.find(w[2]); d != W.db.end()) { o = go([&] { n.reset(new ThermoBatch(*d->second.p)); }); m.eng.db = d->second.m; }
        else return "skip";
        if (o.failed) return o.err;
        W.bat[w[1]] = BatObj{std::move(n), m}; return "ok";
    }
    if (op == "mkbatf") {                     // mkbatf B via content: batch built from a data file
        auto corrupt = takeOpt(w, "file"); auto content = split(w[3], ','); Payload p = payload(w[2], content, corrupt, W.opIndex); BatModel m;
        std::unique_ptr<ThermoBatch> n; Outcome o = go([&] { n.reset(new ThermoBatch(p.text)); });
        if (!corrupt.empty()) W.faults["file." + corrupt.substr(0, corrupt.find(':'))]++;
        plainLoad(o, corrupt, content);
        if (o.failed) { W.probe("load.failed"); return o.err; }
        if (errLogs) { W.probe("load.logged"); auto x = n.release(); go([&] { delete x; }); return "logged"; }   // what was loaded can not be seen
        m.eng.db.apply(content); W.bat[w[1]] = BatObj{std::move(n), m}; return "ok";
    }
    if (op == "batcopy" || op == "batassign") {
        auto it = W.bat.find(w[2]); if (it == W.bat.end()) return "skip"; auto dst = W.bat.find(w[1]); Outcome o; std::unique_ptr<ThermoBatch> n;
        if (op == "batassign" && dst != W.bat.end()) { o = go([&] { *dst->second.p = *it->second.p; }); if (!o.failed) dst->second.m = it->second.m; }
        else { if (w[1] == w[2]) return "skip"; o = go([&] { n.reset(new ThermoBatch(*it->second.p)); }); if (!o.failed) { auto m = it->second.m; W.bat[w[1]] = BatObj{std::move(n), m}; } }
        return o.failed ? o.err : "ok";
    }
    auto checkSettings = [&](BatObj& b) {
        if (W.reference) return;
        if (b.p->propertyUnits() != b.m.units) W.violation("batch units are not what the user set");
        if (b.p->propertyDigits() != b.m.digits) W.violation("batch digits are not what the user set");
        if (b.p->temperatureIncrement() != b.m.tinc || b.p->pressureIncrement() != b.m.pinc) W.violation("batch increments are not what the user set");
        auto& a = std::as_const(*b.p).preferences(); auto& c = b.m.bp;
        if (a.isFixed != c.isFixed || a.isScientific != c.isScientific || a.separator != c.separator || a.loopOverTPpairsFirst != c.loopOverTPpairsFirst || a.loopTemperatureThenPressure != c.loopTemperatureThenPressure ||
            a.writeNaNifNotDefinedValue != c.writeNaNifNotDefinedValue || a.reactionPropertiesFromReactants != c.reactionPropertiesFromReactants || a.fileName != c.fileName) W.violation("batch preferences are not what the user set");
    };
    if (op == "bcall") {                      // bcall O B s|r form args...
        auto it = W.bat.find(w[2]); if (it == W.bat.end()) return "skip";
        auto& B = it->second; auto& b = *B.p; char k = w[3][0]; std::string form = w[4]; OutModel om; om.bat = B.m; om.kind = k;
        std::unique_ptr<Output> n; Outcome o; std::vector<double> Ts, Ps; vvd pairs; vstr syms, props; double T = 0, P = 0;
        auto grid = [&](const std::vector<double>& ts, const std::vector<double>& ps) { if (B.m.bp.loopTemperatureThenPressure) for (auto t : ts) for (auto p : ps) om.pairs.push_back({t, p}); else for (auto p : ps) for (auto t : ts) om.pairs.push_back({t, p}); };
        bool given = form[0] == 'g' && form != "grid";
        if (form == "one" || form == "many") { T = D(w[5]); P = D(w[6]); om.pairs.push_back({T, P}); }
        else if (form == "grid" || form == "ggrid") { Ts = readDoubles(w[5]); Ps = readDoubles(w[6]); grid(Ts, Ps); }
        else if (form == "pairs" || form == "gpairs") { pairs = parsePairs(w[5]); for (auto& p : pairs) om.pairs.push_back(p); }
        else if (form == "inc") {
            auto& t = B.m.tinc; auto& p = B.m.pinc; auto points = [](double lo, double hi, double st, std::vector<double>& v) { long n = st > 0 && hi > lo ? (long)ceil((hi - lo) / st - 1e-6) : 0; for (long i = 0; i <= n; ++i) v.push_back(lo + i * st); };
            points(t["Tmin"], t["Tmax"], t["Tstep"], Ts); points(p["Pmin"], p["Pmax"], p["Pstep"], Ps);
            grid(Ts, Ps);
        }
        size_t nw = w.size(); for (auto& x : split(w[nw - 2], ',')) syms.push_back(dec(x)); for (auto& x : split(w[nw - 1], ',')) props.push_back(x);
        om.symbols = syms; om.props = props;
        vtps vt; vtpr vr;
        if (given) for (size_t i = 0; i < syms.size() * om.pairs.size(); ++i) {
            auto v = [&](int p) { return Reaktoro_::ThermoScalar(1000. * i + p, 0., 0., 0., {Reaktoro_::Status::calculated, ""}); };
            ThermoPropertiesSubstance a; a.gibbs_energy = v(1); a.enthalpy = v(2); a.entropy = v(3); a.volume = v(4); a.heat_capacity_cp = v(5); a.heat_capacity_cv = v(6); a.helmholtz_energy = v(7); a.internal_energy = v(8);
            ThermoPropertiesReaction r; r.reaction_gibbs_energy = v(1); r.reaction_enthalpy = v(2); r.reaction_entropy = v(3); r.reaction_volume = v(4); r.reaction_heat_capacity_cp = v(5); r.reaction_heat_capacity_cv = v(6); r.reaction_helmholtz_energy = v(7); r.reaction_internal_energy = v(8); r.log_equilibrium_constant = v(9); r.ln_equilibrium_constant = v(10);
            vt.push_back(a); vr.push_back(r);
        }
        auto keepSyms = syms; auto keepProps = props; auto keepTs = Ts, keepPs = Ps; auto keepPairs = pairs;
        o = go([&] {
            if (k == 's') {
                if (form == "one") n.reset(new Output(b.thermoPropertiesSubstance(T, P, syms[0], props[0])));
                else if (form == "many") n.reset(new Output(b.thermoPropertiesSubstance(T, P, syms, props)));
                else if (form == "inc") n.reset(new Output(b.thermoPropertiesSubstance(syms, props)));
                else if (form == "grid") n.reset(new Output(b.thermoPropertiesSubstance(Ts, Ps, syms, props)));
                else if (form == "pairs") n.reset(new Output(b.thermoPropertiesSubstance(pairs, syms, props)));
                else if (form == "ggrid") n.reset(new Output(b.thermoPropertiesSubstance(Ts, Ps, syms, props, vt)));
                else n.reset(new Output(b.thermoPropertiesSubstance(pairs, syms, props, vt)));
            } else {
                if (form == "one") n.reset(new Output(b.thermoPropertiesReaction(T, P, syms[0], props[0])));
                else if (form == "many") n.reset(new Output(b.thermoPropertiesReaction(T, P, syms, props)));
                else if (form == "inc") n.reset(new Output(b.thermoPropertiesReaction(syms, props)));
                else if (form == "grid") n.reset(new Output(b.thermoPropertiesReaction(Ts, Ps, syms, props)));
                else if (form == "pairs") n.reset(new Output(b.thermoPropertiesReaction(pairs, syms, props)));
                else if (form == "ggrid") n.reset(new Output(b.thermoPropertiesReaction(Ts, Ps, syms, props, vr)));
                else n.reset(new Output(b.thermoPropertiesReaction(pairs, syms, props, vr)));
            }
        });
        checkSettings(B);
        W.probe("bcall." + form + (o.failed ? ".err" : ".ok"));
        if (o.failed) {
            // a failing call is right only if a direct query of one of its cells fails too
            if (!oomFired && !W.reference) {
                std::string q = "anyerr " + std::string(1, k == 's' ? 's' : B.m.bp.reactionPropertiesFromReactants ? 'f' : 'r');
                for (auto& s : syms) for (auto& p : om.pairs) q += " " + num(fromUnit(p[0], B.m.units.at("temperature"))) + ":" + num(fromUnit(p[1], B.m.units.at("pressure"))) + ":" + enc(s);
                bool badProp = false; for (auto& p : props) { auto d = defaultPropertyNames.find(p); if (d == defaultPropertyNames.end() || d->second != (k == 's' ? "substance" : "reaction")) badProp = true; }
                bool sat = false; for (size_t p = 0; p < om.pairs.size(); ++p) sat = sat || (syms.size() > 1 && atSat(om, p));   // later symbols are then asked at the saturation pressure
                if (!badProp && !given && !sat) W.check(B.m.eng, q, "fails");
            }
            return o.err;
        }
        OutObj O; O.p = std::move(n); O.m = om; if (given) O.m.kind = 'g'; W.outp[w[1]] = std::move(O);
        if (!W.reference) { long before = W.opIndex; (void)before; }
        return "ok";
    }
    if (op == "outcopy") { auto it = W.outp.find(w[2]); if (it == W.outp.end() || w[1] == w[2]) return "skip"; std::unique_ptr<Output> n; auto o = go([&] { n.reset(new Output(*it->second.p)); }); if (o.failed) return o.err; auto m = it->second.m; W.outp[w[1]] = OutObj{std::move(n), m}; return "ok"; }
    if (op == "outdel") { auto it = W.outp.find(w[1]); if (it == W.outp.end()) return "skip"; auto p = it->second.p.release(); go([&] { delete p; }); W.outp.erase(it); return "ok"; }
    if (op == "rd" || op == "rdd" || op == "rds") { auto it = W.outp.find(w[1]); if (it == W.outp.end()) return "skip"; checkOutput(it->second, op); return text; }
    if (op == "csv") { auto it = W.outp.find(w[1]); if (it == W.outp.end()) return "skip"; return csv(it->second); }
    auto it = W.bat.find(w[1]); if (it == W.bat.end()) return "skip";
    auto& B = it->second; auto& b = *B.p;
    if (op == "batdel") { auto p = B.p.release(); go([&] { delete p; }); W.bat.erase(it); return "ok"; }
    if (op == "bunit") {                      // bunit B single|vec|map|ud prop=unit ...
        std::vector<std::string> ps, us; for (size_t i = 3; i < w.size(); ++i) { auto eq = w[i].find('='); ps.push_back(w[i].substr(0, eq)); us.push_back(w[i].substr(eq + 1)); }
        auto mu = B.m.units; bool bad = false; for (size_t i = 0; i < ps.size(); ++i) { if (!mu.count(ps[i]) || us[i] == "-") { bad = true; } else mu[ps[i]] = us[i]; }
        if (us.back() == "-") { us.pop_back(); if (w[2] != "vec") ps.pop_back(), bad = false; }   // a list which is too short
        Outcome o = go([&] { if (w[2] == "map") b.setUnits(mu); else if (w[2] == "vec") b.setPropertiesUnits(ps, us); else for (size_t i = 0; i < ps.size(); ++i) b.setPropertyUnit(ps[i], us[i]); });
        if (o.failed) { if (!bad && !oomFired) W.violation("setting units failed: " + dec(o.err));
            if (w[2] == "vec" || w[2] == "map") { if (b.propertyUnits() != B.m.units) W.violation("a failed setting of units changed them"); }
            else for (auto& x : b.propertyUnits()) { auto old = B.m.units.find(x.first); if (old == B.m.units.end() || (x.second != old->second && x.second != mu[x.first])) W.violation("unit of " + x.first + " is neither old nor new after a failed setting"); }
            B.m.units = b.propertyUnits(); }
        else { if (bad && w[2] != "map") W.violation("setting the unit of an unknown property did not fail"); B.m.units = mu; }
        checkSettings(B); return o.failed ? o.err : "ok";
    }
    if (op == "bdigit") {
        std::vector<std::string> ps; std::vector<int> ds; for (size_t i = 3; i < w.size(); ++i) { auto eq = w[i].find('='); ps.push_back(w[i].substr(0, eq)); ds.push_back(atoi(w[i].c_str() + eq + 1)); }
        auto md = B.m.digits; bool bad = false; for (size_t i = 0; i < ps.size(); ++i) { if (!md.count(ps[i]) || ds[i] < 0) bad = true; else md[ps[i]] = ds[i]; }
        if (ds.back() < 0) { ds.pop_back(); if (w[2] != "vec") ps.pop_back(), bad = false; }
        Outcome o = go([&] { if (w[2] == "map") b.setDigits(md); else if (w[2] == "vec") b.setPropertiesDigits(ps, ds); else for (size_t i = 0; i < ps.size(); ++i) b.setPropertyDigit(ps[i], ds[i]); });
        if (o.failed) { if (!bad && !oomFired) W.violation("setting digits failed"); if ((w[2] == "vec" || w[2] == "map") && b.propertyDigits() != B.m.digits) W.violation("a failed setting of digits changed them"); B.m.digits = b.propertyDigits(); } else { if (bad && w[2] != "map") W.violation("setting the digits of an unknown property did not fail"); B.m.digits = md; }
        checkSettings(B); return o.failed ? o.err : "ok";
    }
    if (op == "bud") {                        // bud B prop unit digit
        auto mu = B.m.units; auto md = B.m.digits; bool bad = !mu.count(w[2]) || !md.count(w[2]); mu[w[2]] = w[3]; md[w[2]] = atoi(w[4].c_str());
        Outcome o = go([&] { b.setPropertyUnitDigit(w[2], w[3], atoi(w[4].c_str())); });
        if (o.failed) { if (!bad && !oomFired) W.violation("setting unit and digits failed: " + dec(o.err));
            auto one = [&](auto now, auto& old, auto& neu, const char* what) { if (now != old && (bad || now != neu)) W.violation(std::string(what) + " are neither old nor new after a failed setting of unit and digits"); old = now; };
            one(b.propertyUnits(), B.m.units, mu, "units"); one(b.propertyDigits(), B.m.digits, md, "digits"); }
        else { if (bad) W.violation("setting unit and digits of an unknown property did not fail"); B.m.units = mu; B.m.digits = md; }
        checkSettings(B); return o.failed ? o.err : "ok";
    }
    if (op == "binc") { Outcome o = go([&] { if (w[2] == "T") b.setTemperatureIncrement(D(w[3]), D(w[4]), D(w[5])); else b.setPressureIncrement(D(w[3]), D(w[4]), D(w[5])); });
        if (!o.failed) { if (w[2] == "T") B.m.tinc = {{"Tmin", D(w[3])}, {"Tmax", D(w[4])}, {"Tstep", D(w[5])}}; else B.m.pinc = {{"Pmin", D(w[3])}, {"Pmax", D(w[4])}, {"Pstep", D(w[5])}}; }
        else { B.m.tinc = b.temperatureIncrement(); B.m.pinc = b.pressureIncrement(); }
        checkSettings(B); return o.failed ? o.err : "ok"; }
    if (op == "bpref") {                      // bpref B set|ref key=val ...
        BatchPreferences n = B.m.bp;
        for (size_t i = 3; i < w.size(); ++i) { auto eq = w[i].find('='); auto k = w[i].substr(0, eq), v = w[i].substr(eq + 1); bool t = v == "1";
            if (k == "fixed") n.isFixed = t; if (k == "sci") n.isScientific = t; if (k == "sep") n.separator = dec(v); if (k == "tpfirst") n.loopOverTPpairsFirst = t; if (k == "tthenp") n.loopTemperatureThenPressure = t;
            if (k == "nan") n.writeNaNifNotDefinedValue = t; if (k == "rfr") n.reactionPropertiesFromReactants = t; }
        Outcome o = go([&] { if (w[2] == "set") b.setBatchPreferences(n); else b.preferences() = n; });
        if (!o.failed) B.m.bp = n; else if (w[2] != "set") B.m.bp = b.preferences();
        checkSettings(B); return o.failed ? o.err : "ok";
    }
    if (op == "bsolv") { Outcome o = go([&] { b.setSolventSymbol(dec(w[2])); }); if (!o.failed) B.m.eng.solvent = dec(w[2]); return o.failed ? o.err : "ok"; }
    return "?";
}
static int givenIndex(const std::string& p) {
    static const std::map<std::string, int> t = {{"gibbs_energy", 1}, {"enthalpy", 2}, {"entropy", 3}, {"volume", 4}, {"heat_capacity_cp", 5}, {"heat_capacity_cv", 6}, {"helmholtz_energy", 7}, {"internal_energy", 8},
        {"reaction_gibbs_energy", 1}, {"reaction_enthalpy", 2}, {"reaction_entropy", 3}, {"reaction_volume", 4}, {"reaction_heat_capacity_cp", 5}, {"reaction_heat_capacity_cv", 6}, {"reaction_helmholtz_energy", 7}, {"reaction_internal_energy", 8}, {"logKr", 9}, {"lnKr", 10}};
    auto it = t.find(p); return it == t.end() ? 0 : it->second;
}
// the query whose answer belongs into a cell
static std::string cellQuery(const OutModel& m, size_t sym, size_t pair) {
    std::string form = m.kind == 's' ? "sub" : m.bat.bp.reactionPropertiesFromReactants ? "rfr" : "rea";
    return "q E0 " + form + " " + num(fromUnit(m.pairs[pair][0], m.bat.units.at("temperature"))) + " " + num(fromUnit(m.pairs[pair][1], m.bat.units.at("pressure"))) + " " + enc(m.symbols[sym]);
}
void OpImpl::checkOutput(OutObj& O, const std::string& how) {
    auto& m = O.m; auto& o = *O.p; size_t np = m.pairs.size(), ns = m.symbols.size(), nk = m.props.size();
    auto idx = [&](size_t s, size_t p) { return m.bat.bp.loopOverTPpairsFirst ? np * s + p : ns * p + s; };
    auto cell = [&](size_t s, size_t p, size_t k, double v) {
        if (m.kind == 'g') { double e = 1000. * idx(s, p) + givenIndex(m.props[k]); if (v != e) W.violation("provided value of " + m.symbols[s] + " " + m.props[k] + " reads " + num(v) + ", expected " + num(e)); }
        else if (s && atSat(m, p)) W.probe("cell.saturation");
        else W.check(m.bat.eng, cellQuery(m, s, p), num(v), "c:" + m.props[k] + ":1:0:1e-8:0");
    };
    if (how == "rd") {
        std::vector<std::vector<double>> v; Outcome x = go([&] { v = o.to2DVectorDouble(); });
        if (x.failed) { text = x.err; if (!oomFired) W.violation("to2DVectorDouble failed: " + dec(x.err)); return; }
        if (v.size() != np * ns) { W.violation("result table has " + I(v.size()) + " rows, expected " + I(np * ns)); return; }
        text = "table " + I(v.size());
        for (size_t s = 0; s < ns; ++s) for (size_t p = 0; p < np; ++p) {
            auto& row = v[idx(s, p)];
            if (row.size() != nk) { W.violation("result row has " + I(row.size()) + " values, expected " + I(nk)); return; }
            for (size_t k = 0; k < nk; ++k) { text += " " + num(row[k]); cell(s, p, k, row[k]); }
        }
    } else {
        double v = 0; Outcome x = go([&] { v = how == "rdd" ? o.toDouble() : o.toThermoScalar().val; });
        if (x.failed) { text = x.err; if (!oomFired) W.violation("reading a single value failed"); return; }
        text = num(v); if (np * ns * nk) cell(0, 0, 0, v);
    }
}
// ----- CSV files
static std::string slurp(const std::string& f, bool& ok) { std::ifstream i(f, std::ios::binary); ok = i.good(); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::vector<std::string> splitStr(const std::string& s, const std::string& sep) {
    std::vector<std::string> r; size_t p = 0; if (sep.empty()) return {s};
    for (;;) { auto q = s.find(sep, p); r.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return r; p = q + sep.size(); }
}
static std::string repl(std::string s, const std::string& a, const std::string& b) { if (a.empty()) return s; for (size_t i = 0; (i = s.find(a, i)) != std::string::npos; i += b.size()) s.replace(i, a.size(), b); return s; }
static std::string fmt(double v, int digits, const BatchPreferences& p) {
    std::ostringstream o; o.imbue(std::locale::classic()); o.precision(digits); if (p.isFixed) o << std::fixed; if (p.isScientific) o << std::scientific; o << v; return o.str();
}
// how far a printed number may be from the value
static std::string tol(int digits, const BatchPreferences& p) {
    char b[64]; if (p.isScientific) snprintf(b, 64, "0:%g", 0.51 * pow(10., -digits) * 1.0001 + 1e-8); else if (p.isFixed) snprintf(b, 64, "%g:1e-8", 0.51 * pow(10., -digits)); else snprintf(b, 64, "0:%g", 0.51 * pow(10., -(std::max(digits, 1) - 1)) + 1e-8); return b;
}
// whether a text is the value printed, where the value went through a conversion of units and may have been rounded the other way
static bool printedAs(const std::string& c, double v, int digits, const BatchPreferences& p) {
    auto t = tol(digits, p); char* e; double abs = strtod(t.c_str(), &e), rel = strtod(e + 1, nullptr), x = strtod(c.c_str(), &e);
    return !c.empty() && !*e && fabs(x - v) <= abs + rel * fabs(v);
}
// what an earlier export left must be replaced completely
static void stale(const std::string& file) {
    struct stat st; if (stat(file.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return;
    std::ofstream f(file, std::ios::binary | std::ios::trunc); for (long i = 0; i < st.st_size / 8 + 40; ++i) f << "earlier,contents\n";
}
std::string OpImpl::csv(OutObj& O) {          // csv O t|x|g filename
    auto& m = O.m; auto& bp = m.bat.bp; char kind = w[2][0]; std::string file = dec(w[3]); auto& s = bp.separator; size_t np = m.pairs.size(), ns = m.symbols.size(), nk = m.props.size();
    std::string tu = m.bat.units.at("temperature"), pu = m.bat.units.at("pressure");
    std::vector<std::string> files; auto slash = file.rfind('/'); std::string dir = slash == std::string::npos ? "" : file.substr(0, slash + 1), basen = slash == std::string::npos ? file : file.substr(slash + 1);
    if (kind == 'g') for (auto& p : m.props) files.push_back(dir + p + "_" + basen); else files.push_back(file);
    for (auto& x : files) stale(x);
    Outcome o = go([&] { if (kind == 't') O.p->toCSV(file); else if (kind == 'x') O.p->toCSVTransposed(file); else O.p->toCSVPropertyGrid(file); });
    W.probe(std::string("csv.") + kind + (o.failed ? ".err" : ".ok"));
    if (o.failed) {
        if (ioFired) W.probe("csv.fault-reported");
        bool dirOk = dir.empty() || access(dir.c_str(), W_OK) == 0;
        // a property grid is defined for complete grids in loop order only
        bool gridOk = true;
        if (kind == 'g') {
            std::vector<double> Ts, Ps; for (auto& p : m.pairs) { if (std::find(Ts.begin(), Ts.end(), p[0]) == Ts.end()) Ts.push_back(p[0]); if (std::find(Ps.begin(), Ps.end(), p[1]) == Ps.end()) Ps.push_back(p[1]); }
            gridOk = Ts.size() * Ps.size() == np && bp.loopOverTPpairsFirst; size_t c = 0;
            if (gridOk) { if (bp.loopTemperatureThenPressure) { for (auto t : Ts) for (auto p : Ps) { gridOk &= m.pairs[c] == std::vector<double>{t, p}; ++c; } } else for (auto p : Ps) for (auto t : Ts) { gridOk &= m.pairs[c] == std::vector<double>{t, p}; ++c; } }
            for (size_t p = 0; p < np; ++p) if (atSat(m, p)) gridOk = false;
        }
        if (!ioFired && !oomFired && dirOk && gridOk) W.violation("export failed without a storage fault: " + dec(o.err));
        return o.err;
    }
    if (ioFired) W.probe("csv.ok-under-fault");
    if (closeFired) W.violation("closing the file failed but the export returned normally");
    auto val = [&](const std::string& c, size_t si, size_t pi, size_t ki) {      // one value cell
        auto& prop = m.props[ki]; UnitDef ud{1, 0}; unitOf(m.bat.units.at(prop), ud); int dg = m.bat.digits.at(prop);
        if (m.kind == 'g') { size_t i = bp.loopOverTPpairsFirst ? np * si + pi : ns * pi + si; double v = (1000. * i + givenIndex(prop)) * ud.f; std::string e = fmt(v, dg, bp); if (c != e && !printedAs(c, v, dg, bp)) W.violation("CSV cell " + m.symbols[si] + " " + prop + " is '" + c + "', expected " + e); }
        else if (si && atSat(m, pi)) W.probe("cell.saturation");
        else { char md[200]; snprintf(md, 200, "c:%s:%.17g:%s:%d", prop.c_str(), ud.f, tol(dg, bp).c_str(), bp.writeNaNifNotDefinedValue ? 2 : 1); W.check(m.bat.eng, cellQuery(m, si, pi), c, md); }
    };
    auto tcell = [&](const std::string& c, size_t pi) { auto e = fmt(m.pairs[pi][0], m.bat.digits.at("temperature"), bp); if (c != e) W.violation("CSV temperature cell is '" + c + "', expected " + e); };
    auto pcell = [&](const std::string& c, size_t si, size_t pi) {
        if (atSat(m, pi)) { if (ns > 1) return; UnitDef ud{1, 0}; unitOf(pu, ud); char md[200]; snprintf(md, 200, "c:P:%.17g:%s:0", ud.f, tol(m.bat.digits.at("pressure"), bp).c_str()); W.check(m.bat.eng, cellQuery(m, si, pi), c, md); return; }
        auto e = fmt(m.pairs[pi][1], m.bat.digits.at("pressure"), bp); if (c != e && !printedAs(c, m.pairs[pi][1], m.bat.digits.at("pressure"), bp)) W.violation("CSV pressure cell is '" + c + "', expected " + e); };
    text = "csv";
    for (size_t fi = 0; fi < files.size(); ++fi) {
        bool ok; std::string t = slurp(files[fi], ok); text += " " + hex(fnv(t));
        if (!ok) { W.violation("export returned normally but " + files[fi] + " does not exist"); return text; }
        if (kind == 'g' && !bp.loopOverTPpairsFirst) continue;      // a note instead of a grid
        if (t.empty() || t.back() != '\n') { W.violation("CSV file does not end with a complete line (" + I(t.size()) + " bytes)"); return text; }
        auto lines = splitStr(t.substr(0, t.size() - 1), "\n"); std::string head; size_t rows;
        if (kind == 't') { head = "Symbol" + s + "T(" + tu + ")" + s + "P(" + pu + ")"; for (auto& p : m.props) head += s + p + "(" + m.bat.units.at(p) + ")"; rows = np * ns; }
        else if (kind == 'x') { head = "Property" + s + "T(" + tu + ")" + s + "P(" + pu + ")"; for (auto& y : m.symbols) head += s + repl(y, s, "_"); rows = np * nk; }
        else {
            if (!bp.loopOverTPpairsFirst) { continue; }
            std::vector<double> Ts, Ps; for (auto& p : m.pairs) { if (std::find(Ts.begin(), Ts.end(), p[0]) == Ts.end()) Ts.push_back(p[0]); if (std::find(Ps.begin(), Ps.end(), p[1]) == Ps.end()) Ps.push_back(p[1]); }
            bool tp = bp.loopTemperatureThenPressure; auto& cols = tp ? Ps : Ts; auto& rws = tp ? Ts : Ps;
            bool full = true; size_t c0 = 0; if (Ts.size() * Ps.size() != np) full = false; else for (auto a : rws) for (auto b : cols) { if (m.pairs[c0][tp ? 0 : 1] != a || m.pairs[c0][tp ? 1 : 0] != b) full = false; ++c0; }
            if (np > 1) { bool sat = false; for (size_t p = 0; p < np; ++p) sat = sat || atSat(m, p); if (sat) { W.probe("grid.saturation"); continue; } }
            if (!full) { W.violation("property grid written for results that are no complete grid"); return text; }
            head = tp ? "Symbol" + s + "T(" + tu + ")_P(" + pu + ")" : "Symbol" + s + "P(" + pu + ")_T(" + tu + ")";
            auto h = splitStr(lines[0], s); 
            if (lines[0].compare(0, head.size(), head) || h.size() != splitStr(head, s).size() + cols.size()) { W.violation("grid header is '" + lines[0] + "'"); return text; }
            size_t off = splitStr(head, s).size();
            for (size_t c = 0; c < cols.size(); ++c) { size_t pi = c; if (tp) pcell(h[off + c], 0, pi); else tcell(h[off + c], pi); }
            if (lines.size() != 1 + ns * rws.size()) { W.violation("grid has " + I(lines.size() - 1) + " rows, expected " + I(ns * rws.size())); return text; }
            for (size_t y = 0; y < ns; ++y) for (size_t r = 0; r < rws.size(); ++r) {
                auto c = splitStr(lines[1 + y * rws.size() + r], s); if (c.size() != 2 + cols.size()) { W.violation("grid row has " + I(c.size()) + " cells"); return text; }
                if (c[0] != repl(m.symbols[y], s, "_")) W.violation("grid row symbol is '" + c[0] + "'");
                if (tp) tcell(c[1], r * cols.size()); else pcell(c[1], y, r * cols.size());
                for (size_t q = 0; q < cols.size(); ++q) val(c[2 + q], y, r * cols.size() + q, fi);
            }
            continue;
        }
        if (lines[0] != head) { W.violation("CSV header is '" + lines[0] + "', expected '" + head + "'"); return text; }
        if (lines.size() != rows + 1) { W.violation("CSV has " + I(lines.size() - 1) + " result lines, expected " + I(rows)); return text; }
        bool tpf = bp.loopOverTPpairsFirst; size_t ln = 1;
        if (kind == 't') { size_t I1 = tpf ? ns : np, J1 = tpf ? np : ns;
            for (size_t i = 0; i < I1; ++i) for (size_t j = 0; j < J1; ++j) { size_t y = tpf ? i : j, p = tpf ? j : i; auto c = splitStr(lines[ln++], s);
                if (c.size() != 3 + nk) { W.violation("CSV line has " + I(c.size()) + " cells, expected " + I(3 + nk)); return text; }
                if (c[0] != repl(m.symbols[y], s, "_")) { W.violation("CSV symbol cell is '" + c[0] + "', expected " + m.symbols[y]); return text; }
                tcell(c[1], p); pcell(c[2], y, p); for (size_t k = 0; k < nk; ++k) val(c[3 + k], y, p, k); } }
        else { size_t I1 = tpf ? nk : np, J1 = tpf ? np : nk;
            for (size_t i = 0; i < I1; ++i) for (size_t j = 0; j < J1; ++j) { size_t k = tpf ? i : j, p = tpf ? j : i; auto c = splitStr(lines[ln++], s);
                if (c.size() != 3 + ns) { W.violation("CSV line has " + I(c.size()) + " cells, expected " + I(3 + ns)); return text; }
                std::string pn = repl(m.props[k], s, "_") + "(" + m.bat.units.at(m.props[k]) + ")"; if (c[0] != pn) { W.violation("CSV property cell is '" + c[0] + "', expected " + pn); return text; }
                tcell(c[1], p); pcell(c[2], 0, p); for (size_t y = 0; y < ns; ++y) val(c[3 + y], y, p, k); } }
    }
    return text;
}

// ----- row-wise exporter
std::string OpImpl::rows() {
    auto& op = w[0];
    if (op == "rowmk") { std::unique_ptr<OutputToCSV> n; std::string p = dec(w[2]); auto o = go([&] { n.reset(new OutputToCSV(p)); }); if (o.failed) return o.err; RowObj r; r.p = std::move(n); auto q = p.find_last_of("/\\"); r.dir = p.substr(0, q); W.row[w[1]] = std::move(r); return "ok"; }
    auto it = W.row.find(w[1]); if (it == W.row.end()) return "skip"; auto& R = it->second; auto& x = *R.p; char k = w.size() > 2 ? w[2][0] : 's';
    auto body = [&](char k, const std::string& name) {      // compare the file with what was written
        bool ok; std::string path = R.dir + "/" + name, t = slurp(path, ok), want = R.text[std::string(1, k)];
        if (!ok) { W.violation("row export: file " + path + " does not exist"); return; }
        if (t.empty() && want.empty()) return;
        auto L = splitStr(t, "\n"); auto X = splitStr(want, "\n");
        if (L.size() < 2 || L.back() != "") { W.violation("row export: file does not end with a complete line"); return; }
        if (L.size() != X.size() + (want.empty() ? 0 : 2)) { W.violation("row export: " + I((long)L.size() - 2) + " rows in the file, " + I((long)X.size() - 1) + " written"); return; }
        auto H = split(L[0], ','); static const std::map<char, std::vector<std::pair<std::string, std::string>>> names = {
            {'s', {{"G0", "gibbs_energy"}, {"H0", "enthalpy"}, {"S0", "entropy"}, {"Cp0", "heat_capacity_cp"}, {"Cv0", "heat_capacity_cv"}, {"V0", "volume"}, {"A0", "helmholtz_energy"}, {"U0", "internal_energy"}}},
            {'p', {{"Rho", "density"}, {"Rho_dT", "densityT"}, {"Rho_dP", "densityP"}, {"Rho_d2T", "densityTT"}, {"Rho_dTdP", "densityTP"}, {"Rho_d2P", "densityPP"}, {"Aplha", "Alpha"}, {"Alpha_dT", "dAldT"}, {"Beta", "Beta"}}},
            {'e', {{"bornN", "bornN"}, {"bornQ", "bornQ"}, {"bornU", "bornU"}, {"bornX", "bornX"}, {"bornY", "bornY"}, {"bornZ", "bornZ"}, {"eps", "epsilon"}, {"eps_dP", "epsilonP"}, {"eps_d2P", "epsilonPP"}, {"eps_dT", "epsilonT"}, {"eps_dTdP", "epsilonTP"}, {"eps_d2T", "epsilonTT"}}}};
        for (size_t i = 1; i + 1 < L.size(); ++i) {
            auto c = split(L[i], ','); auto v = words(X[i - 1]);      // v: symbol T P answer-fields...
            if (c.size() != H.size()) { W.violation("row export: line has " + I(c.size()) + " cells under " + I(H.size()) + " column names"); return; }
            if (c[0] != dec(v[0])) W.violation("row export: symbol cell is '" + c[0] + "'");
            for (size_t h = 1; h < H.size(); ++h) { std::string n = H[h].substr(0, H[h].find('(')); double e = 0; bool known = false;
                if (n == "T") { e = D(v[1]); known = true; } else if (n == "P") { e = D(v[2]); known = true; }
                else for (auto& q : names.at(k)) if (q.first == n) { int st; e = fieldOf(X[i - 1], q.second, st, known); }
                if (!known) { W.violation("row export: unknown column " + H[h]); return; }
                double g = strtod(c[h].c_str(), nullptr);
                if (!(fabs(g - e) <= 1e-5 * fabs(e) + 1e-300) && !(std::isnan(g) && std::isnan(e)) && !(std::isinf(e) && g == e)) { W.violation("row export: column " + H[h] + " of " + c[0] + " reads " + c[h] + ", expected " + num(e)); return; } }
        }
    };
    std::string ks(1, k);
    if (op == "rowopen") {                    // rowopen W s|p|e file
        std::string f2 = dec(w[3]);
        bool again = R.open.count(k); std::string before = again ? R.open[k] : ""; if (before == f2) return "skip"; stale(R.dir + "/" + f2);
        Outcome o = go([&] { if (k == 's') x.openThermoPropertiesSubstanceFile(f2); else if (k == 'p') x.openPropertiesSolventFile(f2); else x.openElectroPropertiesSolventFile(f2); });
        if (again) {      // the previous file was not closed: an error, or the previous file is complete
            if (o.failed) { R.ok[ks] = false; R.ok["f" + ks] = true; return o.err; }
            if (closeFired) W.violation("row export: closing the previous file failed but the call returned normally");
            if (R.ok[ks]) body(k, before);
        }
        if (o.failed) { if (!ioFired && !oomFired && access(R.dir.c_str(), W_OK) == 0) W.violation("row export: open failed without a fault: " + dec(o.err)); W.probe("row.open.err"); return o.err; }
        if (ioFired || access(R.dir.c_str(), W_OK) != 0) { struct stat st; bool ex = stat((R.dir + "/" + f2).c_str(), &st) == 0 && st.st_size == 0; if (!ex) { W.violation("row export: open failed but the call returned normally"); return "ok"; } }
        R.open[k] = f2; R.text[ks] = ""; R.ok[ks] = true; return "ok";
    }
    if (op == "rowwrite") {                   // rowwrite W k E T P sym
        if (!R.open.count(k) || !R.ok[ks]) return "skip"; auto e = W.eng.find(w[3]); if (e == W.eng.end()) return "skip"; double T = D(w[4]), P = D(w[5]), P2 = P; std::string sym = dec(w[6]);
        std::optional<ThermoPropertiesSubstance> a; std::optional<PropertiesSolvent> b; std::optional<ElectroPropertiesSolvent> c;
        Outcome q = sut([&] { if (k == 's') a.emplace(e->second.p->thermoPropertiesSubstance(T, P2, sym)); else if (k == 'p') b.emplace(e->second.p->propertiesSolvent(T, P2, sym)); else c.emplace(e->second.p->electroPropertiesSolvent(T, P2, sym)); });
        if (q.failed) return q.err;
        Outcome o = go([&] { if (k == 's') x.writeThermoPropertiesSubstance(sym, T, P, *a); else if (k == 'p') x.writePropertiesSolvent(sym, T, P, *b); else x.writeElectroPropertiesSolvent(sym, T, P, *c); });
        if (o.failed) { R.ok[ks] = false; if (!ioFired && !oomFired) W.violation("row export: write failed without a fault: " + dec(o.err)); return o.err; }
        std::string an = a ? ser(*a) : b ? ser(*b) : ser(*c);
        R.text[ks] += (R.text[ks].empty() ? "" : "\n") + enc(sym) + " " + num(T) + " " + num(P) + " " + an;
        if (ioFired) R.ok["f" + ks] = true;
        return "ok";
    }
    if (op == "rowclose") {
        if (!R.open.count(k)) return "skip"; std::string name = R.open[k]; R.open.erase(k);
        Outcome o = go([&] { if (k == 's') x.closeThermoPropertiesSubstanceFile(); else if (k == 'p') x.closePropertiesSolventFile(); else x.closeElectroPropertiesSolventFile(); });
        W.probe(std::string("row.close") + (o.failed ? ".err" : ".ok"));
        if (o.failed) { if (!ioFired && !oomFired && !R.ok["f" + ks] && R.ok[ks]) W.violation("row export: close failed without a fault: " + dec(o.err)); R.ok["f" + ks] = false; return o.err; }
        if (closeFired) W.violation("row export: closing the file failed but the call returned normally");
        if (R.ok[ks]) body(k, name);
        R.ok["f" + ks] = false; return "ok";
    }
    if (op == "rowdel") { auto p = R.p.release(); go([&] { delete p; }); W.row.erase(it); return "ok"; }
    return "?";
}

// ----- free-standing records
std::string OpImpl::records() {
    auto& op = w[0];
    if (op == "rec") { char k = w[2][0]; RecObj r; r.kind = k; r.ref = w[3]; Outcome o = go([&] { if (k == 's') r.s.reset(new Substance(makeSub(w[3]))); else if (k == 'r') r.r.reset(new Reaction(makeRea(w[3]))); else r.e.reset(new Element(makeEle(w[3]))); }); if (o.failed) return o.err; W.rec[w[1]] = std::move(r); return "ok"; }
    if (op == "reccopy" || op == "recassign") {
        auto it = W.rec.find(w[2]); if (it == W.rec.end()) return "skip"; auto dst = W.rec.find(w[1]); auto& A = it->second; Outcome o;
        if (op == "recassign" && dst != W.rec.end() && dst->second.kind == A.kind) { auto& Bq = dst->second; o = go([&] { if (A.s) *Bq.s = *A.s; else if (A.r) *Bq.r = *A.r; else *Bq.e = *A.e; }); if (!o.failed) Bq.ref = A.ref; }
        else { if (w[1] == w[2]) return "skip"; RecObj r; r.kind = A.kind; r.ref = A.ref; o = go([&] { if (A.s) r.s.reset(new Substance(*A.s)); else if (A.r) r.r.reset(new Reaction(*A.r)); else r.e.reset(new Element(*A.e)); }); if (!o.failed) W.rec[w[1]] = std::move(r); }
        return o.failed ? o.err : "ok";
    }
    if (op == "recget") {                     // recget X D kind sym : copy out of a database
        auto d = W.db.find(w[2]); if (d == W.db.end()) return "skip"; char k = w[3][0]; auto m = d->second.m.of(k).find(w[4]); if (m == d->second.m.of(k).end()) return "skip";
        RecObj r; r.kind = k; r.ref = m->second; Outcome o = go([&] { if (k == 's') r.s.reset(new Substance(d->second.p->getSubstance(w[4]))); else if (k == 'r') r.r.reset(new Reaction(d->second.p->getReaction(w[4]))); else r.e.reset(new Element(d->second.p->getElement(w[4]))); });
        if (o.failed) return o.err; W.rec[w[1]] = std::move(r); return "ok";
    }
    auto it = W.rec.find(w[1]); if (it == W.rec.end()) return "skip"; auto& A = it->second;
    if (op == "recdel") { go([&] { A.s.reset(); A.r.reset(); A.e.reset(); }); W.rec.erase(it); return "ok"; }
    if (op == "recput") { auto d = W.db.find(w[2]); if (d == W.db.end()) return "skip"; Outcome o = go([&] { if (A.s) d->second.p->setSubstance(*A.s); else if (A.r) d->second.p->setReaction(*A.r); else d->second.p->setElement(*A.e); }); if (!o.failed) d->second.m.of(A.kind)[refSym(A.ref)] = A.ref; return o.failed ? o.err : "ok"; }
    if (op == "recedit") { go([&] { if (A.s) editS(*A.s, w[2]); else if (A.r) editRea(*A.r, w[2]); else editEle(*A.e, w[2]); }); A.ref += "~" + w[2]; return "ok"; }
    if (op == "recobs") { std::string a = A.s ? ser(*A.s) : A.r ? ser(*A.r) : ser(*A.e); W.checkRec(A.kind, A.ref, a); return a; }
    return "?";
}

std::string OpImpl::misc() {
    auto& op = w[0];
    if (op == "logupd") { Outcome o = go([&] { update_loggers(w[2] == "cout", w[2] == "file" ? dec(w[3]) : std::string(), (size_t)atol(w.back().c_str())); }); if (!installLogSpy(false)) W.probe("log.without-sinks");
        if (o.failed && !ioFired && !oomFired) W.violation("log reconfiguration failed without a fault: " + dec(o.err)); W.probe(o.failed ? "log.err" : "log.ok"); return o.failed ? "error" : "ok"; }
    if (op == "logclr") { Outcome o = go([&] { clear_loggers(w.size() > 1 && w[1] != "-" ? dec(w[1]) : std::string()); }); if (!installLogSpy(false)) W.probe("log.without-sinks");
        if (o.failed && !ioFired && !oomFired) W.violation("log clearing failed without a fault: " + dec(o.err)); return o.failed ? "error" : "ok"; }
    if (op == "recser") return serRec(w[1][0], w[2]);
    if (op == "locale") { locales::g_host = atoi(w[1].c_str()); W.faults["locale.change"]++; if (locales::g_host & 2) W.probe(locales::available() ? "locale.c-library" : "locale.c-library-missing"); return "ok"; }
    if (op == "clock") { timesim::jump((int64_t)atol(w[1].c_str()) * 1000000000ll); W.faults["clock.jump"]++; return "ok"; }
    if (op == "wipe") { W.finish(); return "ok"; }
    if (op == "mark") { W.marked = W.comparable = true; W.markLive = heap::liveCount(); W.markBytes = heap::liveBytes(); W.markFds = io::openDescriptors(); return "ok"; }
    if (op == "same") {                      // nothing acquired since `mark` is still held
        if (!W.marked || !W.comparable || (!W.populated && !(W.db.empty() && W.eng.empty() && W.bat.empty() && W.outp.empty() && W.row.empty() && W.rec.empty()))) return "skip";
        long l = heap::liveCount(), b = heap::liveBytes(), d = io::openDescriptors(); W.probe("resources.compared");
        if (l != W.markLive) W.violation("memory blocks held: " + I(l - W.markLive) + " more than before the same work was repeated");
        if (d != W.markFds) W.violation("open files: " + I(d - W.markFds) + " more than before the same work was repeated");
        return "ok";
    }
    if (op == "cachebound") {                // cachebound E cap memo form T0 dT P sym
        auto it = W.eng.find(w[1]); if (it == W.eng.end()) return "skip";
        int cap = atoi(w[2].c_str()); bool memo = w[3] == "1"; double T0 = D(w[5]), dT = D(w[6]), P = D(w[7]); std::string sym = dec(w[8]); int n = 0;
        auto ask = [&](int k) { for (int i = 0; i < k; ++i) { QArgs q; q.form = w[4]; q.T = T0 + dT * n++; q.P = P; q.sym = sym; Outcome x; runQuery(*it->second.p, q, x); } return heap::liveCount(); };
        ask(1); if (!memo) { long a = ask(1), b = ask(4 * cap + 8); W.probe("cachebound.off"); if (b != a) W.violation("remembering is switched off but " + I(b - a) + " blocks more are held after " + I(4 * cap + 8) + " different queries"); return "ok"; }
        // growth per remembered answer, measured while fewer than the limit are remembered
        long l1 = heap::liveCount(), l2 = cap > 1 ? ask(1) : l1, per = l2 - l1; long full = ask(4 * cap), later = ask(4 * cap + 5);
        W.probe("cachebound.on"); if (per > 0) W.probe("cachebound.remembering");
        if (later > full + 6) W.violation("memory grows with every different query: " + I(later - full) + " blocks more after " + I(4 * cap + 5) + " queries beyond the limit " + I(cap));
        if (full - l1 > (long)(cap - 1) * std::max(per, 0L) + 6) W.violation("more is remembered than the limit of " + I(cap) + " allows: " + I(full - l1) + " blocks, " + I(per) + " per remembered query");
        return "ok";
    }
    if (op == "mkdir") { ::mkdir(dec(w[1]).c_str(), 0755); return "ok"; }
    if (op == "noise") {                     // unrelated heap activity: moves later blocks around
        static std::vector<char*> keep; SimScope s; Rng r(strtoull(w[1].c_str(), nullptr, 10)); 
        for (int i = 0; i < 40; ++i) { keep.push_back(new char[1 + r.below(300)]); if (r.chance(.6)) { size_t q = r.below(keep.size()); delete[] keep[q]; keep[q] = keep.back(); keep.pop_back(); } }
        return "ok";
    }
    return "?";
}

// other threads of the program: each operation given to one of them is waited for; the threads, and what is remembered per thread, live on
static std::string onThread(int k, std::function<std::string()> f) {
    struct Hand { sem_t go, done; std::function<std::string()> f; std::string r; pthread_t t; };
    static Hand* hands[8] = {}; auto*& h = hands[k & 7];
    if (!h) {
        h = new Hand; sem_init(&h->go, 0, 0); sem_init(&h->done, 0, 0); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
        if (pthread_create(&h->t, &at, [](void* x) -> void* { auto* h = (Hand*)x; for (;;) { sem_wait(&h->go); h->r = h->f(); sem_post(&h->done); } return nullptr; }, h)) _exit(97);
    }
    h->f = std::move(f); sem_post(&h->go); while (sem_wait(&h->done)) {} h->f = nullptr; return std::move(h->r);
}
std::string World::exec(const std::string& line) {
    if (starts(line, "on ") && line.size() > 5 && line[4] == ' ') { auto rest = line.substr(5); probe("op.on-other-thread"); return onThread(line[3] - '0', [this, rest] { scribbleStack(); return exec(rest); }); }
    OpImpl op{*this, words(line), {}, "", 0, 0, 0}; t_foreign = 0;
    if (op.w.empty() || op.w[0][0] == '#') return "";
    op.f = takeFaults(op.w);
    auto& o = op.w[0]; std::string a;
    if (o == "q") a = op.query();
    else if (o == "mkdb" || starts(o, "db")) a = op.database();
    else if (o == "mkeng" || o == "mkengf" || starts(o, "eng") || o == "append" || o == "solvent" || o == "pref" || o == "conv" || o == "prefcopy" || o == "prefset" || o == "rep") a = op.engine();
    else if (o == "mkbat" || starts(o, "bat") || o[0] == 'b' || starts(o, "out") || o == "rd" || o == "rdd" || o == "rds" || o == "csv") a = op.batch();
    else if (starts(o, "row")) a = op.rows();
    else if (o == "recser") a = op.misc();
    else if (starts(o, "rec")) a = op.records();
    else if (o == "anyerr") {                 // reference only: does one of the cells fail?
        a = "succeeds"; char k = op.w[1][0]; auto& e = *eng["E0"].p;
        for (size_t i = 2; i < op.w.size(); ++i) { auto t = split(op.w[i], ':'); QArgs q; q.form = k == 's' ? "sub" : k == 'f' ? "rfr" : "rea"; q.T = D(t[0]); q.P = D(t[1]); q.sym = dec(t[2]); Outcome x; runQuery(e, q, x); if (x.failed) { a = "fails"; break; } }
    } else if (o == "addup") {                // reference only: what the answers of the parts add up to
        auto& e = *eng["E0"].p; std::map<std::string, std::array<double, 4>> sum; bool bad = false; double own = D(op.w[2]);
        for (auto& n : sumFields) sum[n.first] = {0, 0, 0, 0};
        std::set<std::string> open;           // what the reaction does not define may come from the record of the substance
        auto part = [&](double c, const std::string& form, const std::string& sym) {
            QArgs q; q.form = form; q.T = D(op.w[3]); q.P = D(op.w[4]); q.sym = sym; Outcome x; std::string r = runQuery(e, q, x); if (x.failed) { bad = true; return; }
            for (auto& n : sumFields) { auto v = scalarOf(r, form == "rea" ? n.second : n.first); auto& t = sum[n.first]; for (int i = 0; i < 3; ++i) t[i] += c * v[i]; t[3] += fabs(c * v[0]); if (statusOf(r, form == "rea" ? n.second : n.first) == "0") open.insert(n.first); } };
        bool sub = op.w[1] != "-"; if (sub) part(1, "rea", dec(op.w[1]));
        for (size_t i = 5; i < op.w.size() && !bad; ++i) { auto at = op.w[i].find(':'); part((sub ? -1 : 1) * D(op.w[i].substr(0, at)), "sub", dec(op.w[i].substr(at + 1))); }
        a = bad ? "unknown" : "sum"; if (!bad) for (auto& n : sumFields) { auto& t = sum[n.first]; a += " " + n.first + "=" + num(t[0] / own) + "|" + num(t[1] / own) + "|" + num(t[2] / own) + "|" + num(t[3] / fabs(own)) + (open.count(n.first) ? "|open" : ""); }
    } else a = op.misc();
    if (foreign && t_foreign && !reference) violation("failure raised as something that is no std::exception: " + o);
    // held resources are only comparable over work that was done, with the same outcome, before the mark, and from and to the same population
    std::string did = line + " -> " + a.substr(0, a.find(' '));
    if (!marked) doneBefore.insert(did); else if (o != "same" && o != "mark" && (!doneBefore.count(did) || (populated && o != "q"))) comparable = false;
    if (o == "mark") populated = !(db.empty() && eng.empty() && bat.empty() && outp.empty() && row.empty() && rec.empty());
    return a;
}
void World::finish() {
    sut([&] { for (auto& x : outp) x.second.p.reset(); for (auto& x : bat) x.second.p.reset(); for (auto& x : eng) x.second.p.reset(); for (auto& x : db) x.second.p.reset(); for (auto& x : row) x.second.p.reset(); for (auto& x : rec) { x.second.s.reset(); x.second.r.reset(); x.second.e.reset(); } });
    outp.clear(); bat.clear(); eng.clear(); db.clear(); row.clear(); rec.clear();
}
}
