#include "gen.hpp"
#include "world.hpp"
#include <sstream>
#include <algorithm>

namespace sim {
static std::string I(long v) { return std::to_string(v); }

std::string Plan::text() const {
    std::string o = "# ThermoFun simulation plan\nprop " + prop + "\nseed " + std::to_string(seed) + "\nheap " + I(heapMode) + " " + std::to_string(heapSeed) + "\n";
    if (sched.kind != "none") {
        char b[200]; snprintf(b, 200, "sched %s %llu %.17g %d %llu", sched.kind.c_str(), (unsigned long long)sched.seed, sched.prob, sched.depth, (unsigned long long)sched.horizon); o += b;
        for (auto& x : sched.list) o += " " + std::to_string(x.first) + ":" + I(x.second);
        o += "\n";
    }
    o += "--\n"; for (auto& l : lines) o += l + "\n";
    return o;
}
Plan Plan::parse(const std::string& t) {
    Plan p; std::istringstream s(t); std::string l; bool body = false;
    while (std::getline(s, l)) {
        if (body) { if (!l.empty() && l[0] != '#') p.lines.push_back(l); continue; }
        auto w = words(l); if (w.empty() || w[0][0] == '#') continue;
        if (w[0] == "--") { body = true; continue; }
        if (w[0] == "prop") p.prop = w[1]; if (w[0] == "seed") p.seed = strtoull(w[1].c_str(), nullptr, 10);
        if (w[0] == "heap") { p.heapMode = atoi(w[1].c_str()); p.heapSeed = strtoull(w[2].c_str(), nullptr, 10); }
        if (w[0] == "sched") {
            p.sched.kind = w[1]; p.sched.seed = strtoull(w[2].c_str(), nullptr, 10); p.sched.prob = atof(w[3].c_str()); p.sched.depth = atoi(w[4].c_str()); p.sched.horizon = strtoull(w[5].c_str(), nullptr, 10);
            for (size_t i = 6; i < w.size(); ++i) { auto t2 = split(w[i], ':'); p.sched.list.push_back({strtoull(t2[0].c_str(), nullptr, 10), atoi(t2[1].c_str())}); }
        }
    }
    return p;
}

namespace {
struct Content {
    std::map<std::string, std::string> e, s, r;      // symbol -> ref
    std::string conv;
    std::vector<std::string> items() const {
        std::vector<std::string> v; if (!conv.empty()) v.push_back("c:" + conv);
        for (auto& x : e) v.push_back("e:" + x.second); for (auto& x : s) v.push_back("s:" + x.second); for (auto& x : r) v.push_back("r:" + x.second); return v;
    }
    std::string str() const { return join(items(), ","); }
    std::vector<std::string> subs() const { std::vector<std::string> v; for (auto& x : s) v.push_back(x.first); return v; }
    std::vector<std::string> reas() const { std::vector<std::string> v; for (auto& x : r) v.push_back(x.first); return v; }
    std::vector<std::string> eles() const { std::vector<std::string> v; for (auto& x : e) v.push_back(x.first); return v; }
    void put(const std::string& item) { auto ref = item.substr(2); if (item[0] == 'c') conv = ref; else (item[0] == 'e' ? e : item[0] == 's' ? s : r)[refSym(ref)] = ref; }
};
struct TP { double T, P; };
const char* solvents[] = {"H2O@", "H2Owp", "H2Ozd", "H2Ogj", "H2Ohr", "H2Ofd", "H2Og"};
const char* gases[] = {"CO2prsv", "CO2srk", "CO2cork", "CO2cgf", "CO2cgr", "CH4cgr", "CO2stp", "CO2pr78", "CH4prsv", "CH4srk", "CH4cork", "CH4cgf", "CH4pr78", "H2Ov", "H2Og"};
const char* wtps[] = {"HKF_HGK_1974", "NEA_HGK", "NEA_IAPWS"};
const char* subProps[] = {"gibbs_energy", "helmholtz_energy", "internal_energy", "enthalpy", "entropy", "volume", "heat_capacity_cp", "heat_capacity_cv"};
const char* reaProps[] = {"reaction_gibbs_energy", "reaction_helmholtz_energy", "reaction_internal_energy", "reaction_enthalpy", "reaction_entropy", "reaction_volume", "reaction_heat_capacity_cp", "reaction_heat_capacity_cv", "logKr", "lnKr"};

template <size_t N> const char* of(const char* (&a)[N], Rng& r) { return a[r.below(N)]; }
struct G {
    Rng r; bool deep; std::vector<std::string> L;
    std::vector<TP> tps; int mutants = 0;              // chance (per mille) of a damaged record
    G(uint64_t seed, bool deep) : r(seed), deep(deep) {}
    template <size_t N> const char* of(const char* (&a)[N]) { return a[r.below(N)]; }
    void add(const std::string& l) { L.push_back(l); }
    bool ch(double p) { return r.chance(p); }

    std::string ref(char k, const std::string& sym, double pv) {
        if (!ch(pv)) return sym;
        if ((int)r.below(1000) < mutants) return sym + "#k" + I(r.below(100000));
        return sym + "#" + I(1 + r.below(k == 's' ? 20 : k == 'r' ? 11 : 6));
    }
    Content content(int ns, double pv = 0.1, double complete = 0.93) {
        Content c; std::set<std::string> S, R;
        if (ch(.93)) S.insert("H2O@");
        if (ch(.4)) S.insert(of(solvents));
        if (ch(.35)) { int n = 1 + (int)r.below(4); for (int i = 0; i < n; ++i) S.insert(of(gases)); }
        for (int i = 0; i < ns; ++i) S.insert(r.pick(allSymbols('s')));
        int nr = (int)r.below(4); for (int i = 0; i < nr; ++i) R.insert(r.pick(allSymbols('r')));
        for (int round = 0; round < 3; ++round) {
            std::set<std::string> S2 = S;
            for (auto& s : S2) { auto x = reactionOf(s); if (!x.empty() && !R.count(x) && ch(complete)) R.insert(x); }
            for (auto& x : R) for (auto& s : reactantsOf(x)) if (!S.count(s) && s != "NoSuchSubstance" && ch(complete)) S.insert(s);
        }
        for (auto& s : S) c.s[s] = ref('s', s, pv);
        for (auto& x : R) c.r[x] = ref('r', x, pv);
        int m = (int)r.below(10);
        for (auto& e : allSymbols('e')) if (m < 6 || (m < 9 && ch(.6))) c.e[e] = ref('e', e, pv * .5);
        if (ch(.15)) c.conv = of(wtps);
        return c;
    }
    void pickTPs(int n, double weird = 0.02) {
        static const double T[] = {298.15, 298.15, 273.16, 300, 323.15, 350, 373.2, 423.15, 473.15, 520, 573.15, 640, 673.15, 773.15, 873.15, 973.15, 1100, 1273.15, 647.2, 846, 848.5};
        static const double P[] = {0, 0, 1e5, 1e5, 1e5, 101325, 2e5, 1e6, 1e7, 5e7, 1e8, 2e8, 5e8, 1e9};
        static const double Tw[] = {NAN, 0, -10, 50, 5000, 1e5}, Pw[] = {NAN, -1e5, 1e-3, 1e10, 1};
        tps.clear();
        for (int i = 0; i < n; ++i) {
            TP t{T[r.below(21)], P[r.below(14)]};
            if (ch(.15)) t.T = 270 + (double)r.below(9000) / 10.; if (ch(.1)) t.P = pow(10., 4 + r.below(60) / 10.);
            if (ch(weird)) t.T = Tw[r.below(6)]; if (ch(weird)) t.P = Pw[r.below(5)];
            if (ch(.06)) { static const double cT[] = {645.5, 646.5, 647.0, 647.096, 647.126, 647.3, 648, 650, 655, 263.15, 272}; t.T = cT[r.below(11)]; static const double cP[] = {0, 2.1e7, 2.2e7, 2.2064e7, 2.21e7, 2.25e7, 2.4e7, 1e5}; t.P = cP[r.below(8)]; }
            tps.push_back(t);
        }
    }
    std::string sym(const std::vector<std::string>& have, char k) {
        if (!have.empty() && !ch(.06)) return r.pick(have);
        if (ch(.3)) return k == 'r' ? "no-such-reaction" : "no-such-substance";
        return r.pick(allSymbols(k == 'r' ? 'r' : 's'));
    }
    std::string equation(const std::vector<std::string>& S) {
        static const char* cs[] = {"", "", "", "2", "0.5", "3", "10.7"}; int n = 2 + (int)r.below(3), cut = 1 + (int)r.below(n - 1); std::string e;
        for (int i = 0; i < n; ++i) { auto s = r.pick(S); if (i) e += i == cut ? " = " : " + "; e += (isalpha((unsigned char)s[0]) || s[0] == '(' ? cs[r.below(7)] : "") + s; }
        return e;
    }
    std::string query(const Content& c, bool objForms = true) {     // without the engine name
        auto t = r.pick(tps); std::string f, s; auto S = c.subs(), R = c.reas(); int q = (int)r.below(100);
        if (q < 42) { f = "sub"; s = sym(S, 's'); if (ch(.25)) { std::vector<std::string> g; for (auto x : gases) if (c.s.count(x)) g.push_back(x); if (!g.empty()) s = r.pick(g); } }
        else if (q < 57) { f = "rea"; s = sym(R, 'r'); if (S.size() > 1 && ch(.12)) s = equation(S); }
        else if (q < 67) { f = "rfr"; s = sym(R, 'r'); }
        else if (q < 77) { f = "prs"; s = ch(.8) ? std::string(of(solvents)) : sym(S, 's'); }
        else if (q < 85) { f = "els"; s = ch(.8) ? std::string(of(solvents)) : sym(S, 's'); }
        else if (!objForms || q < 87) { f = "sub"; s = sym(S, 's'); }
        else if (q < 89) { f = "subo"; s = sym(S, 's'); }
        else if (q < 91) { f = "subv"; s = ref('s', sym(S, 's'), .7); }
        else if (q < 92) { f = "reao"; s = sym(R, 'r'); }
        else if (q < 94) { f = "reav"; s = ref('r', r.pick(allSymbols('r')), .5); }
        else if (q < 95) { f = "rfro"; s = sym(R, 'r'); }
        else if (q < 96) { f = "prso"; s = of(solvents); }
        else if (q < 97) { f = "elso"; s = of(solvents); }
        else if (q < 98) { f = "frm"; s = formula(); } else { f = "ent"; s = formula(); }
        std::string l = f + " " + num(t.T) + " " + num(t.P) + " " + enc(s);
        if ((f == "prs" || f == "els" || f == "prso" || f == "elso") && ch(.5)) l += " " + I(r.below(3) == 0 ? -1 : r.below(2));
        return l;
    }
    std::string formula() { static const char* f[] = {"CaCO3", "H2O@", "SiO2", "Al2O3", "Fe|3|2O3", "C|-4|H4", "NaCl", "KAlSi3O8", "Mg5Al4Si6O22(OH)2", "Xx2O", "", "CO3-2", "UO2+2", "Ca(OH)2", "ZrF6-2"}; return f[r.below(15)]; }
    std::string pref(bool caches = true) { return pref1(caches) + (ch(.3) ? " held" : ""); }
    std::string pref1(bool caches) {
        int q = (int)r.below(caches ? 5 : 2); static const char* cs[] = {"0", "1", "2", "3", "5", "20", "1000000"};
        if (q == 0) return std::string("fallback=") + (ch(.5) ? "1" : "0"); if (q == 1) return std::string("pcorr=") + (ch(.5) ? "1" : "0");
        if (q == 2) return std::string("memo=") + (ch(.7) ? "1" : "0"); return std::string("cache=") + cs[r.below(7)];
    }
    std::string conv() { static const char* a[] = {"BENSON_HELGESON", "BERMAN_BROWN"}; static const char* w[] = {"GEOCHEMICAL", "STEAM_TABLES"}; return std::string(of2(a)) + " " + of2(w) + (ch(.3) ? " held" : ""); }
    const char* of2(const char* (&a)[2]) { return a[r.below(2)]; }
    std::string solvent(const Content& c) { std::vector<std::string> v; for (auto x : solvents) if (c.s.count(x)) v.push_back(x); if (v.empty() || ch(.1)) return ch(.5) ? "H2O@" : std::string(of(solvents)); return r.pick(v); }
    const char* via() { static const char* v[] = {"doc", "file", "arr", "afile", "vec", "mvec", "wdoc", "wfile"}; return v[r.below(8)]; }
    std::string solventLine(const std::string& E, const Content& c) { static const char* m[] = {"method", "ref", "pref", "held"}; return "solvent " + E + " " + enc(solvent(c)) + " " + m[r.below(4)]; }
    // an overwriting or new record, possibly several
    std::string change(Content& c, int maxn = 3) {
        std::vector<std::string> it; int n = 1 + (int)r.below(maxn);
        for (int i = 0; i < n; ++i) {
            int q = (int)r.below(100); std::string x;
            if (q < 55) { auto S = c.subs(); std::string s = (!S.empty() && ch(.8)) ? r.pick(S) : r.pick(allSymbols('s')); x = "s:" + ref('s', s, c.s.count(s) && c.s[s] != s ? .4 : .85); }
            else if (q < 75) { auto R = c.reas(); std::string s = (!R.empty() && ch(.75)) ? r.pick(R) : r.pick(allSymbols('r')); x = "r:" + ref('r', s, c.r.count(s) && c.r[s] != s ? .4 : .85); }
            else if (q < 95) { std::string s = r.pick(allSymbols('e')); if (ch(.6)) { static const char* ce[] = {"O", "H", "C", "Si", "Ca", "Al"}; s = ce[r.below(6)]; } x = "e:" + ref('e', s, c.e.count(s) && c.e[s] != s ? .4 : .85); }
            else x = std::string("c:") + of(wtps);
            bool dup = false; for (auto& y : it) if (y[0] == x[0] && (x[0] == 'c' || refSym(y.substr(2)) == refSym(x.substr(2)))) dup = true;
            if (dup) continue;
            it.push_back(x); c.put(x);
        }
        return join(it, ",");
    }
    bool hasConv(const std::string& items) { for (auto& x : split(items, ',')) if (x[0] == 'c') return true; return false; }
    const char* via2() { static const char* v[] = {"doc", "file", "arr", "afile", "wdoc", "wfile"}; return v[r.below(6)]; }
    std::string changeVia(const std::string& items) { std::string v = via(); if (hasConv(items)) v = ch(.5) ? "doc" : "file"; return v; }
    std::string oom() { double x = exp(r.below(1000) / 1000. * 8.0); return std::string(ch(.25) ? " !oomp=" : " !oom=") + I((long)x); }
    void engineSetup(const std::string& E, Content& c, double pMemo = .5) {
        if (ch(pMemo)) add("pref " + E + " " + pref());
        if (ch(.25)) add("pref " + E + " " + pref(false));
        if (ch(.2)) add("conv " + E + " " + conv());
        if (ch(.2)) add(solventLine(E, c));
    }
    std::string props(char k, int maxn) {
        int n = 1 + (int)r.below(maxn); std::vector<std::string> v; std::vector<std::string> all;
        if (k == 's') for (auto x : subProps) all.push_back(x); else for (auto x : reaProps) all.push_back(x);
        r.shuffle(all); for (int i = 0; i < n && i < (int)all.size(); ++i) v.push_back(all[i]);
        if (ch(.05) && !v.empty()) v.push_back(v[0]);
        if (ch(.03)) v.push_back(k == 's' ? "logKr" : "gibbs_energy");
        return join(v, ",");
    }
    struct Units { bool K = false; std::string p = "bar"; };
    std::map<std::string, Units> bu; std::set<std::string> ranged;
    double Tval(const std::string& B) { static const double t[] = {25, 25, 25, 5, 50, 100.5, 150, 200, 300, 400, 500, 600, 700}; double v = t[r.below(13)]; if (ch(.15)) { static const double d[] = {.01, .2, .4, 1e-4, 2}; v += d[r.below(5)]; } return bu[B].K ? v + 273.15 : v; }
    double Pval(const std::string& B, bool zero) { static const double p[] = {1, 1, 1, 10, 100, 500, 1000, 2000, 5000}; double v = zero && ch(.2) ? 0 : p[r.below(9)]; if (v > 0 && ch(.1)) v += ch(.5) ? .02 : .3; auto& u = bu[B].p; return u == "Pa" ? v * 1e5 : u == "kbar" ? v * 1e-3 : u == "MPa" ? v * .1 : v; }
    std::string list(const std::vector<double>& v) { std::string s; for (auto x : v) { if (!s.empty()) s += ","; s += num(x); } return s.empty() ? "-" : s; }
    std::string bcall(const std::string& O, const std::string& B, const Content& c, bool big = false) {
        char k = ch(.65) ? 's' : 'r'; auto have = k == 's' ? c.subs() : c.reas(); if (have.empty()) { k = 's'; have = c.subs(); }
        static const char* forms[] = {"one", "many", "grid", "pairs", "inc", "ggrid", "gpairs", "grid", "pairs", "many"};
        std::string f = ranged.count(B) && ch(.4) ? "inc" : forms[r.below(10)]; std::vector<std::string> syms; int n = f == "one" ? 1 : 1 + (int)r.below(big ? 6 : 3);
        for (int i = 0; i < n; ++i) syms.push_back(enc(ch(.03) ? "no-such-record" : have.empty() ? "H2O@" : r.pick(have)));
        if (f != "one" && syms.size() > 1 && !ch(.1)) { std::sort(syms.begin(), syms.end()); syms.erase(std::unique(syms.begin(), syms.end()), syms.end()); if (ch(.5)) r.shuffle(syms); }
        std::string a;
        bool zero = syms.size() == 1;
        if (f == "one" || f == "many") a = num(Tval(B)) + " " + num(Pval(B, zero));
        else if (f == "inc") a = "";
        else if (f == "grid" || f == "ggrid") {
            std::vector<double> T, P; int nt = 1 + (int)r.below(3), np = 1 + (int)r.below(3); for (int i = 0; i < nt; ++i) T.push_back(Tval(B)); for (int i = 0; i < np; ++i) P.push_back(Pval(B, false));
            if (!ch(.1)) { std::sort(T.begin(), T.end()); T.erase(std::unique(T.begin(), T.end()), T.end()); std::sort(P.begin(), P.end()); P.erase(std::unique(P.begin(), P.end()), P.end()); }
            a = list(T) + " " + list(P);
        } else { std::string s; int np = 1 + (int)r.below(4); for (int i = 0; i < np; ++i) s += (i ? "," : "") + num(Tval(B)) + ":" + num(Pval(B, zero && f == "pairs" && np == 1)); a = s; }
        return "bcall " + O + " " + B + " " + std::string(1, k) + " " + f + " " + a + (a.empty() ? "" : " ") + join(syms, ",") + " " + (f == "one" ? split(props(k, 1), ',')[0] : props(k, 4));
    }
    std::string bset(const std::string& B) {
        if (ch(.08)) { static const char* u[][4] = {{"gibbs_energy", "kJ/mol", "J/mol", "cal/mol"}, {"enthalpy", "kJ/mol", "cal/mol", "J/mol"}, {"entropy", "cal/K/mol", "J/K/mol", "kJ/K/mol"}, {"volume", "cm3", "J/bar", "cm3"}, {"reaction_gibbs_energy", "kcal/mol", "J/mol", "kJ/mol"}}; auto& x = u[r.below(5)]; return "bud " + B + " " + (ch(.06) ? "no-such-property" : x[0]) + " " + x[1 + r.below(3)] + " " + I(r.below(9)); }
        int q = (int)r.below(6);
        if (q == 0) { static const char* h[] = {"vec", "map", "ud"}; static const char* u[][3] = {{"gibbs_energy", "kJ/mol", "J/mol"}, {"enthalpy", "kJ/mol", "cal/mol"}, {"entropy", "cal/K/mol", "J/K/mol"}, {"volume", "cm3", "J/bar"}, {"heat_capacity_cp", "kJ/K/mol", "J/K/mol"}, {"reaction_gibbs_energy", "kcal/mol", "J/mol"}, {"reaction_volume", "cm3", "J/bar"}, {"reaction_enthalpy", "kJ/mol", "J/mol"}};
            std::string l = "bunit " + B + " " + h[r.below(3)]; int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) { auto& x = u[r.below(8)]; l += std::string(" ") + x[0] + "=" + x[1 + r.below(2)]; }
            if (ch(.1)) return l + (ch(.5) ? " no-such-property=J/mol" : " entropy=-");
            if (ch(.25)) { bool K = ch(.5); bu[B].K = K; l += K ? " temperature=K" : " temperature=degC"; } if (ch(.25)) { static const char* p[] = {"Pa", "bar", "kbar", "MPa"}; bu[B].p = p[r.below(4)]; l += " pressure=" + bu[B].p; }
            return l; }
        if (q == 1) { static const char* h[] = {"vec", "map", "ud"}; static const char* p[] = {"gibbs_energy", "entropy", "volume", "temperature", "pressure", "logKr", "reaction_gibbs_energy", "enthalpy"}; std::string l = "bdigit " + B + " " + h[r.below(3)]; int n = 1 + (int)r.below(4); for (int i = 0; i < n; ++i) l += std::string(" ") + p[r.below(8)] + "=" + I(r.below(9)); if (ch(.1)) l += ch(.5) ? " no-such-property=3" : " volume=-1"; return l; }
        if (q == 2) { ranged.insert(B); bool T = ch(.5); auto& u = bu[B]; double f = u.p == "Pa" ? 1e5 : u.p == "kbar" ? 1e-3 : u.p == "MPa" ? .1 : 1;
            if (ch(.4)) {                             // steps that binary fractions do not represent
                static const double sts[] = {.1, .7, 7.3, .3}; double st = sts[r.below(4)], lo = T ? (u.K ? 298.17 : 25.02) : 1.02; int n = 2 + (int)r.below(T ? 9 : 4); if (!T) st *= f, lo *= f;
                return "binc " + B + (T ? " T " : " P ") + num(lo) + " " + num(lo + (n - 1 - (ch(.2) ? .5 : 0)) * st) + " " + num(st); }
            if (T) { double lo = u.K ? 298.15 : 25, st = 25 * (1 + (int)r.below(4)); int n = 1 + (int)r.below(3); return "binc " + B + " T " + num(lo) + " " + num(lo + (n - 1) * st) + " " + num(st); }
            double lo = 1 * f, st = 100 * f * (1 + (int)r.below(4)); int n = 1 + (int)r.below(2); return "binc " + B + " P " + num(lo) + " " + num(lo + (n - 1) * st) + " " + num(st); }
        static const char* keys[] = {"fixed", "sci", "tpfirst", "tthenp", "nan", "rfr"}; static const char* seps[] = {",", ";", "%09", "%20%7c%20", "@", "H"};
        std::string l = std::string("bpref ") + B + (ch(.5) ? " set" : " ref"); int n = 1 + (int)r.below(2); for (int i = 0; i < n; ++i) { auto k = keys[r.below(6)]; l += std::string(" ") + k + "=" + (ch(.5) ? "1" : "0"); } if (ch(.2)) l += std::string(" sep=") + seps[r.below(6)];
        return l;
    }
    std::string csvFault() {
        int q = (int)r.below(10); int n = 1 + (int)r.below(q < 6 ? 2 : 4); static const char* es[] = {"ENOSPC", "EIO", "EDQUOT"};
        if (q < 2) return std::string(" !io=c.open.") + I(1) + "." + (ch(.5) ? "EACCES" : "EMFILE") + ".1." + (ch(.3) ? "1" : "0");
        if (q < 6) return std::string(" !io=c.write.") + I(n) + "." + es[r.below(3)] + ".1." + (ch(.5) ? "1" : "0");
        if (q < 7) return std::string(" !io=c.close.1.") + es[r.below(3)] + ".1.0";
        if (q < 9) return std::string(" !io=c.write.") + I(n) + ".short." + I(1 + r.below(300)) + "." + (ch(.5) ? "1" : "0");
        return std::string(" !io=c.write.1.short.") + I(1 + r.below(100)) + ".0 !io=c.write.2.ENOSPC.1.1";
    }
};

// ------------------------------------------------------------------------- per property
void c01(G& g) {
    int ne = 1 + (int)g.r.below(2); std::vector<Content> cs; if (g.ch(.2)) g.mutants = 250;
    for (int i = 0; i < ne; ++i) {
        Content c = i && g.ch(.5) ? cs[0] : g.content(2 + (int)g.r.below(9)); if (i && g.ch(.5)) g.change(c);
        cs.push_back(c); g.add("mkdb D" + I(i) + " doc " + c.str()); g.add("mkeng E" + I(i) + " D" + I(i)); g.engineSetup("E" + I(i), c, .7);
    }
    g.pickTPs(2 + (int)g.r.below(5), .04);
    std::vector<std::vector<std::string>> pool(ne);
    for (int i = 0; i < ne; ++i) { int n = 4 + (int)g.r.below(9); for (int k = 0; k < n; ++k) pool[i].push_back("q E" + I(i) + " " + g.query(cs[i])); }
    int n = g.deep ? 20 + (int)g.r.below(60) : 10 + (int)g.r.below(30);
    for (int k = 0; k < n; ++k) {
        int e = (int)g.r.below(ne);
        if (g.ch(.04)) g.add("pref E" + I(e) + " memo=" + (g.ch(.7) ? "1" : "0"));
        if (g.ch(.05)) { static const char* c[] = {"0", "1", "2", "4", "1000000"}; g.add("pref E" + I(e) + " cache=" + c[g.r.below(5)]); }
        if (g.ch(.03)) g.add("prefcopy E" + I(e));
        if (g.ch(.04)) { static const char* f[] = {"sub", "prs", "els"}; g.add("rep E" + I(e) + " " + I(2 + g.r.below(8)) + " " + f[g.r.below(3)] + " 300 " + I(5 + g.r.below(40)) + " " + (g.ch(.5) ? "0" : "1e5") + " " + enc(g.ch(.5) ? "H2O@" : g.sym(cs[e].subs(), 's'))); }
        if (g.ch(.05)) g.add("noise " + I(g.r.below(100000)));
        std::string q = g.ch(.12) ? "q E" + I(e) + " " + g.query(cs[e]) : g.r.pick(pool[e]);
        g.add(q); if (g.ch(.2)) g.add(q);
    }
}
void c02(G& g) {
    if (g.ch(.15)) g.mutants = 250;
    Content c = g.content(2 + (int)g.r.below(8)); g.add("mkdb D0 doc " + c.str()); g.add("mkeng E0 D0"); g.engineSetup("E0", c, .4);
    g.pickTPs(1 + (int)g.r.below(3), .02); std::vector<std::string> pool; int n = 3 + (int)g.r.below(8); for (int k = 0; k < n; ++k) pool.push_back("q E0 " + g.query(c));
    int steps = g.deep ? 8 + (int)g.r.below(20) : 4 + (int)g.r.below(9);
    for (int k = 0; k < steps; ++k) {
        int m = 1 + (int)g.r.below(4); for (int i = 0; i < m; ++i) g.add(g.r.pick(pool));
        int q = (int)g.r.below(100); Content before = c; std::string asked = g.r.pick(pool);
        if (g.ch(.7)) g.add(asked);
        if (q < 50) { auto x = g.change(c); g.add("append E0 " + g.changeVia(x) + " " + x + (g.ch(.1) ? " obs" : "")); }
        else if (q < 65) g.add(g.solventLine("E0", c)); else if (q < 82) g.add(std::string(g.ch(.25) ? "prefset" : "pref") + " E0 " + g.pref(false)); else if (q < 92) g.add("conv E0 " + g.conv()); else g.add(std::string(g.ch(.25) ? "prefset" : "pref") + " E0 " + g.pref());
        if (g.ch(.8)) g.add(asked);
        if (q < 50 && g.ch(.2)) { std::vector<std::string> it; for (auto& x : before.items()) if (x[0] != 'e') it.push_back(x); if (!it.empty()) { auto x = join(it, ","); g.add("append E0 " + g.changeVia(x) + " " + x); for (auto& y : it) c.put(y); g.add(asked); } }
        if (g.ch(.3)) pool.push_back("q E0 " + g.query(c));
    }
    for (auto& x : pool) if (g.ch(.5)) g.add(x);
}
void c03(G& g) {
    if (g.ch(.3)) g.mutants = 300;
    Content c = g.content(2 + (int)g.r.below(8), .15, .8); g.add("mkdb D0 doc " + c.str() + (g.ch(.1) ? g.oom() : "")); g.add("mkeng E0 D0"); g.engineSetup("E0", c);
    g.pickTPs(2 + (int)g.r.below(3), .04); std::vector<std::string> pool; int n = 4 + (int)g.r.below(8); for (int k = 0; k < n; ++k) pool.push_back("q E0 " + g.query(c));
    bool bat = g.ch(.4); if (bat) g.add("mkbat B0 E0"); int outs = 0;
    int steps = g.deep ? 15 + (int)g.r.below(35) : 8 + (int)g.r.below(22); double pf = g.ch(.5) ? .35 : .15;
    for (int k = 0; k < steps; ++k) {
        int q = (int)g.r.below(100); std::string f = g.ch(pf) ? g.oom() : "";
        if (q < 60) { auto x = g.ch(.15) ? "q E0 " + g.query(c) : g.r.pick(pool); g.add(x + f); if (!f.empty() && g.ch(.6)) g.add(x); }
        else if (q < 70) { Content c2 = c; auto x = g.change(c2); std::string v = g.changeVia(x); std::string file; if ((v == "file" || v == "afile" || v == "wfile") && g.ch(.3)) { file = g.ch(.5) ? " file=unlink:0" : " file=cut:0." + I(g.r.below(99)); } g.add("append E0 " + v + " " + x + (g.ch(.4) ? " obs" : "") + file + f); if (f.empty() && file.empty()) c = c2; g.add(g.r.pick(pool)); }
        else if (q < 74) g.add(std::string(g.ch(.25) ? "prefset" : "pref") + " E0 " + g.pref()); else if (q < 76) g.add(g.solventLine("E0", c) + f); else if (q < 78) g.add("conv E0 " + g.conv());
        else if (q < 82) { g.add("engcopy E1 E0" + f); g.add("q E1 " + g.query(c)); g.add("engdel E1"); }
        else if (q < 85) g.add("engobs E0");
        else if (bat) { if (q < 95) { std::string o = "O" + I(outs++ % 3); g.add(g.bcall(o, "B0", c) + f); if (g.ch(.7)) g.add("rd " + o); } else g.add(g.bset("B0") + (g.ch(.3) ? g.oom() : "")); }
        else g.add(g.r.pick(pool));
    }
}
void c04(G& g) {
    Content c = g.content(2 + (int)g.r.below(5), .1); if (g.ch(.5)) { while (c.s.size() > 6) c.s.erase(c.s.begin()); }
    g.add("mkdb D0 doc " + c.str()); g.add("mkeng E0 D0"); g.engineSetup("E0", c, .5); g.pickTPs(2, 0);
    std::vector<std::string> qs; int nq = 3 + (int)g.r.below(4); for (int i = 0; i < nq; ++i) qs.push_back(g.query(c, false));
    auto E = [&] { return "E" + I(g.r.below(4)); }; auto D = [&] { return "D" + I(g.r.below(3)); }; auto B = [&] { return "B" + I(g.r.below(2)); }; auto X = [&] { return "X" + I(g.r.below(3)); };
    int steps = g.deep ? 25 + (int)g.r.below(50) : 12 + (int)g.r.below(25); bool recs = g.ch(.4), bats = g.ch(.4), dbs = g.ch(.6);
    for (int k = 0; k < steps; ++k) {
        int q = (int)g.r.below(100);
        if (q < 38) g.add("q " + E() + " " + g.r.pick(qs));
        else if (q < 46) g.add("engcopy " + E() + " " + E());
        else if (q < 50) g.add("engassign " + E() + " " + E());
        else if (q < 55) g.add("engdel " + E());
        else if (q < 58) g.add("mkeng " + E() + " " + D());
        else if (q < 60) g.add(std::string(g.ch(.25) ? "prefset " : "pref ") + E() + " " + g.pref()); else if (q < 62) g.add("conv " + E() + " " + g.conv()); else if (q < 63) g.add(g.solventLine(E(), c));
        else if (q < 68) { auto x = g.change(c, 2); g.add("append " + E() + " " + (g.hasConv(x) ? "doc" : "arr") + " " + x); }
        else if (q < 70) g.add("engobs " + E());
        else if (q < 72) g.add("noise " + I(g.r.below(100000)));
        else if (dbs && q < 84) {
            int z = (int)g.r.below(9); std::string k2 = g.ch(.6) ? "s" : g.ch(.5) ? "r" : "e"; auto have = k2 == "s" ? c.subs() : k2 == "r" ? c.reas() : c.eles(); std::string s = have.empty() ? "H2O@" : g.r.pick(have);
            if (k2 == "r" && have.empty()) s = "R-qtz"; if (k2 == "e" && have.empty()) s = "O";
            if (z == 0) g.add("dbcopy " + D() + " " + D()); else if (z == 1) g.add("dbassign " + D() + " " + D()); else if (z == 2) g.add("dbdel " + D());
            else if (z == 3) g.add("dbset " + D() + " " + k2 + " " + g.ref(k2[0], s, .8) + (g.ch(.5) ? " obj" : " json")); else if (z == 4) g.add("dbobs " + D()); else if (z == 5) g.add("engdb " + E() + " " + D());
            else if (z == 6) g.add("dbref " + D() + " " + k2 + " " + s + " n.edited" + I(g.r.below(9))); else if (z == 7) g.add("dbget " + D() + " " + k2 + " " + s); else g.add("mkdb " + D() + " doc " + c.str());
        } else if (recs && q < 92) {
            int z = (int)g.r.below(8); std::string k2 = g.ch(.6) ? "s" : g.ch(.5) ? "r" : "e"; auto have = k2 == "s" ? c.subs() : k2 == "r" ? c.reas() : c.eles(); std::string s = have.empty() ? (k2 == "r" ? "R-qtz" : k2 == "e" ? "O" : "Qtz") : g.r.pick(have);
            static const char* ed[] = {"g.-5000", "n.zz", "t.300", "j.7", "u.900", "M.3", "L.208", "L.212", "K.1"};
            if (z == 0) g.add("rec " + X() + " " + k2 + " " + g.ref(k2[0], s, .4)); else if (z == 1) g.add("reccopy " + X() + " " + X()); else if (z == 2) g.add("recassign " + X() + " " + X()); else if (z == 3) g.add("recget " + X() + " " + D() + " " + k2 + " " + s);
            else if (z == 4) g.add("recedit " + X() + " " + ed[g.r.below(9)]); else if (z == 5) g.add("recput " + X() + " " + D()); else if (z == 6) g.add("recdel " + X()); else g.add("recobs " + X());
        } else if (bats) {
            int z = (int)g.r.below(8);
            if (z == 0 && g.ch(.25)) g.add("mkbatf " + B() + " " + (c.conv.empty() ? g.via2() : "file") + " " + c.str()); else if (z == 0) g.add("mkbat " + B() + " " + E()); else if (z == 1) g.add("mkbat " + B() + " " + D()); else if (z == 2) g.add("batcopy " + B() + " " + B()); else if (z == 3) g.add("batassign " + B() + " " + B()); else if (z == 4) g.add("batdel " + B());
            else if (z == 5) { auto b = B(); g.bu[b] = G::Units(); g.add(g.bcall("O" + I(g.r.below(2)), b, c)); } else if (z == 6) g.add("rd O" + I(g.r.below(2))); else { auto b = B(); std::string l; do l = g.bset(b); while (l.find("temperature=") != std::string::npos || l.find("pressure=") != std::string::npos || starts(l, "binc")); g.add(l); }
        } else g.add("q " + E() + " " + g.r.pick(qs));
    }
    for (int i = 0; i < 4; ++i) { g.add("q E" + I(i) + " " + g.r.pick(qs)); if (g.ch(.3)) g.add("engobs E" + I(i)); }
    for (int i = 0; i < 3; ++i) { if (dbs && g.ch(.6)) g.add("dbobs D" + I(i)); if (recs) g.add("recobs X" + I(i)); }
    if (bats) { g.add("rd O0"); g.add("rd O1"); }
}
void c05(G& g) {
    bool oom = g.ch(.35);
    std::map<char, std::vector<std::string>> pool;
    for (char k : {'e', 's', 'r'}) { int n = 2 + (int)g.r.below(4); for (int i = 0; i < n; ++i) pool[k].push_back(g.r.pick(allSymbols(k))); }
    if (g.ch(.3)) pool['s'].push_back("NewSub1"); 
    auto rf = [&](char k, double pv = .6) { return g.ref(k, g.r.pick(pool[k]), pv); };
    auto content = [&](int maxn) { std::vector<std::string> v; std::set<std::string> seen; int n = 1 + (int)g.r.below(maxn); for (int i = 0; i < n; ++i) { char k = "essr"[g.r.below(4)]; auto x = rf(k); if (seen.insert(std::string(1, k) + refSym(x)).second) v.push_back(std::string(1, k) + ":" + x); } return join(v, ","); };
    static const char* ed[] = {"n.renamed", "t.310", "p.2e5", "g.-1234.5", "M.12.5", "z.1", "u.1500", "v.3.3", "f.CaCO3", "c.2", "a.1", "r.R-qtz", "j.42", "L.208", "L.211", "L.214", "K.1", "m.2"};
    auto D = [&] { return "D" + I(g.r.below(2)); };
    if (g.ch(.5)) g.add("dbempty D0"); else g.add(std::string("mkdb D0 ") + g.via() + " " + content(5) + " obs"); if (g.ch(.4)) g.add("dbempty D1");
    int steps = g.deep ? 15 + (int)g.r.below(40) : 8 + (int)g.r.below(22);
    for (int i = 0; i < steps; ++i) {
        int q = (int)g.r.below(100); char k = "essr"[g.r.below(4)]; std::string ks(1, k), d = D(), f = oom && g.ch(.3) ? g.oom() : "";
        if (q < 20) g.add("dbadd " + d + " " + ks + " " + rf(k) + (g.ch(.5) ? " obj" : " json") + f);
        else if (q < 38) g.add("dbset " + d + " " + ks + " " + rf(k) + (g.ch(.5) ? " obj" : " json") + f);
        else if (q < 52) { std::string v = g.via(); std::string c = content(4); if (g.ch(.15)) { v = "vecs"; std::vector<std::string> one; for (auto& x : split(c, ',')) if (x[0] == c[0]) one.push_back(x); c = join(one, ","); } g.add("dbappend " + d + " " + v + " " + c + f); }
        else if (q < 60) { std::string rs; int n = 1 + (int)g.r.below(3); std::set<std::string> seen; for (int z = 0; z < n; ++z) { auto x = rf(k); if (seen.insert(refSym(x)).second) rs += (rs.empty() ? "" : ",") + x; } g.add((g.ch(.6) ? "dbaddmap " : "dbsetmap ") + d + " " + ks + " " + rs + f); }
        else if (q < 68) { std::string e; if (g.ch(.6)) e = std::string(" ") + ed[g.r.below(18)]; g.add("dbref " + d + " " + ks + " " + (g.ch(.2) ? std::string("Fresh") + I(g.r.below(3)) : g.r.pick(pool[k])) + e + (e.empty() ? f : "")); }
        else if (q < 80) g.add("dbget " + d + " " + ks + " " + (g.ch(.15) ? "no-such" : g.r.pick(pool[k])) + f);
        else if (q < 84) g.add("dbcopy D" + I(g.r.below(3)) + " " + d + f); else if (q < 87) g.add("dbassign " + d + " " + D() + f);
        else if (q < 91) { g.add(std::string(g.ch(.5) ? "dbent " : "dbfrm ") + d + " " + enc(g.formula())); }
        else if (q < 93) { g.add("mkeng E0 " + d); g.add("append E0 arr " + content(3)); g.add("engobs E0"); g.add("engdb E0 " + D()); }
        else if (q < 95) g.add("dbempty " + d); else if (q < 97) g.add("dbcharge " + d + f); else g.add("dbobs " + d);
        g.add("dbobs " + d);
    }
}

std::string dataFault(G& g, std::string& corrupt) {
    int q = (int)g.r.below(100); std::string at = g.ch(.15) ? ":0:" + I(g.r.below(40)) : ":" + num(g.r.below(10001) / 10000.);
    if (q < 30) { corrupt = " file=cut" + at; return ""; }
    if (q < 36) { corrupt = std::string(" file=") + (g.ch(.5) ? "badunit" : "badlabel") + at; return ""; }
    if (q < 52) { static const char* k[] = {"zero", "garbage", "hole", "dup", "flip", "unlink"}; corrupt = std::string(" file=") + k[g.r.below(6)] + at; return ""; }
    int n = 1 + (int)g.r.below(g.ch(.6) ? 1 : 5); std::string N = I(n);
    if (q < 58) return std::string(" !io=d.open.1.") + (g.ch(.5) ? "EACCES" : g.ch(.5) ? "EMFILE" : "ENOENT") + ".1." + (g.ch(.3) ? "1" : "0");
    if (q < 70) return " !io=d.read." + N + ".EIO.1." + (g.ch(.5) ? "1" : "0");
    if (q < 78) return " !io=d.read." + N + ".eof.1." + (g.ch(.7) ? "1" : "0");
    if (q < 84) return " !io=d.read." + N + ".EINTR.1.0";
    if (q < 93) return " !io=d.read." + N + ".short." + I(1 + g.r.below(g.ch(.5) ? 7 : 700)) + ".1";
    if (q < 97) return " !io=d.read.1.short." + I(1 + g.r.below(900)) + ".0 !io=d.read.2." + (g.ch(.5) ? "EIO" : "eof") + ".1.1";
    return " !io=d.close.1.EIO.1.0";
}
std::string prefixT(int t, const std::string& l) { return "T" + I(t) + " " + l; }
void c06(G& g) {
    if (g.ch(.2)) g.mutants = 200;
    Content c = g.content((int)g.r.below(4), .2); auto take = [&](int n) { Content x; for (int i = 0; i < n; ++i) { Content y = c; g.change(y, 1); for (auto& z : y.items()) { bool in = false; for (auto& w : c.items()) in |= w == z; if (!in) x.put(z); } } return x; };
    bool eng = g.ch(.5);
    if (g.ch(.5)) { g.add("mkdb D0 doc " + c.str()); } else { std::string cr; auto f = dataFault(g, cr); std::string v = g.ch(.7) ? "file" : "afile"; if (!c.conv.empty()) v = "file"; g.add("mkdb D0 " + v + " " + c.str() + " obs" + cr + f); g.add("mkdb D0 " + v + " " + c.str() + " obs"); }
    if (eng) { g.add("mkeng E0 D0"); }
    g.pickTPs(2, 0); std::vector<std::string> qs; for (int i = 0; i < 3; ++i) qs.push_back(g.query(c, false));
    int steps = g.deep ? 5 + (int)g.r.below(15) : 3 + (int)g.r.below(8);
    for (int k = 0; k < steps; ++k) {
        Content x = take(1 + (int)g.r.below(4)); std::string it = x.str(); if (it.empty()) continue;
        std::string cr, f; if (g.ch(.85)) { if (g.ch(.12)) f = g.oom(); else f = dataFault(g, cr); } std::string v = x.conv.empty() && g.ch(.35) ? "afile" : x.conv.empty() && g.ch(.3) ? "wfile" : "file"; int q = (int)g.r.below(100);
        std::string tgt = eng && q < 45 ? "append E0 " : "dbappend D0 ";
        if (q >= 96) { g.bu.clear(); std::string w = v == "afile" ? "file" : v; g.add("mkbatf B1 " + w + " " + c.str() + cr + f); if (g.ch(.6)) g.add("mkbatf B1 " + w + " " + c.str()); g.add(g.bcall("O1", "B1", c)); g.add("rd O1"); continue; }
        if (q >= 85) { std::string w = v == "afile" ? "file" : v; g.add("mkengf E1 " + w + " " + c.str() + " obs" + cr + f); if (g.ch(.5)) g.add("mkengf E1 " + w + " " + c.str() + " obs"); g.add("q E1 " + g.r.pick(qs)); continue; }
        if (eng && g.ch(.4)) g.add("q E0 " + g.r.pick(qs));
        g.add(tgt + v + " " + it + " obs" + cr + f);
        if (eng && g.ch(.5)) g.add("q E0 " + g.r.pick(qs));
        if (g.ch(.6)) { g.add(tgt + v + " " + it + " obs"); for (auto& z : x.items()) c.put(z); if (eng && g.ch(.5)) g.add("q E0 " + g.r.pick(qs)); }
        if (g.ch(.2)) g.add("dbobs D0");
    }
}
void c07(G& g) {
    Content c = g.content(2 + (int)g.r.below(4), .05); g.add("mkdb D0 doc " + c.str()); g.add("mkeng E0 D0"); g.pickTPs(3, 0);
    bool faulty = g.ch(.8);
    if (g.ch(.7)) {
        g.add("mkbat B0 E0"); int ns = (int)g.r.below(4); for (int i = 0; i < ns; ++i) g.add(g.bset("B0")); g.add("mkdir sub"); g.add("mkdir sub/in.ner");
        int calls = 1 + (int)g.r.below(3); static const char* names[] = {"out.csv", "sub/out.csv", "./res.csv", "sub/in.ner/a.csv", "nodir/out.csv", "other.csv"};
        for (int i = 0; i < calls; ++i) {
            std::string o = "O" + I(i); g.add(g.bcall(o, "B0", c, g.ch(.3))); int ex = 1 + (int)g.r.below(4);
            for (int k = 0; k < ex; ++k) { std::string n = names[g.r.below(6)], kd(1, "txg"[g.r.below(3)]); g.add("csv " + o + " " + kd + " " + n + (faulty && g.ch(.6) ? g.csvFault() : "")); if (g.ch(.6)) g.add("csv " + o + " " + std::string(1, "txg"[g.r.below(3)]) + " " + (g.ch(.7) ? n : names[g.r.below(4)])); }
            if (g.ch(.3)) g.add(g.bset("B0")); if (g.ch(.2)) { g.add("outcopy O9 " + o); g.add("outdel " + o); g.add("csv O9 t copy.csv"); }
        }
    }
    if (g.ch(.5)) {
        g.add("mkdir rows"); g.add("rowmk W0 " + std::string(g.ch(.9) ? "rows/x" : "missing/x")); int sess = 1 + (int)g.r.below(3);
        for (int s = 0; s < sess; ++s) {
            char k = "sspe"[g.r.below(4)]; std::string ks(1, k), n = std::string("r") + I(g.r.below(2)) + ks + ".csv";
            auto f = [&](double p) { return faulty && g.ch(p) ? g.csvFault() : std::string(); };
            g.add("rowopen W0 " + ks + " " + n + f(.2)); int rows = (int)g.r.below(4);
            for (int i = 0; i < rows; ++i) { auto t = g.r.pick(g.tps); g.add("rowwrite W0 " + ks + " E0 " + num(t.T) + " " + num(t.P > 0 ? t.P : 1e5) + " " + enc(k == 's' ? g.sym(c.subs(), 's') : g.solvent(c)) + f(.25)); }
            if (g.ch(.93)) g.add("rowclose W0 " + ks + (faulty && g.ch(.1) ? std::string(" !io=c.close.1.") + (g.ch(.5) ? "EIO" : "ENOSPC") + ".1.0" : f(.2)));
        }
        if (g.ch(.5)) g.add("rowdel W0");
    }
}
void c08(G& g) {
    Content c = g.content(3 + (int)g.r.below(5), .08); g.add("mkdb D0 doc " + c.str()); g.add("mkeng E0 D0"); g.engineSetup("E0", c, .3); int nb = 1 + (int)g.r.below(2);
    for (int i = 0; i < nb; ++i) { if (g.ch(.12)) g.add("mkbatf B" + I(i) + " " + (c.conv.empty() ? g.via2() : "file") + " " + c.str()); else g.add("mkbat B" + I(i) + (g.ch(.7) ? " E0" : " D0")); }
    int steps = g.deep ? 14 + (int)g.r.below(30) : 7 + (int)g.r.below(14), no = 0; auto B = [&] { return "B" + I(g.r.below(nb)); }; auto O = [&] { return "O" + I(g.r.below(std::max(no, 1))); };
    for (int k = 0; k < steps; ++k) {
        int q = (int)g.r.below(100);
        if (q < 32 || no == 0) g.add(g.bcall("O" + I(no++), B(), c, g.ch(.2)));
        else if (q < 55) g.add("rd " + O()); else if (q < 62) g.add((g.ch(.5) ? "rdd " : "rds ") + O()); else if (q < 72) g.add("csv " + O() + " " + std::string(1, "txg"[g.r.below(3)]) + " o" + I(g.r.below(3)) + ".csv");
        else if (q < 88) g.add(g.bset(B())); else if (q < 91) g.add("outcopy O" + I(no++) + " " + O()); else if (q < 93) g.add("outdel " + O()); else if (q < 95) g.add("bsolv " + B() + " " + enc(g.solvent(c)));
        else if (q < 97) { auto b = B(); auto a = B(); g.add("batcopy " + b + " " + a); } else g.add("q E0 " + [&] { g.pickTPs(2, 0); return g.query(c, false); }());
    }
    for (int i = 0; i < no; ++i) if (g.ch(.8)) g.add((g.ch(.7) ? "rd O" : "csv O") + I(i) + (g.L.back().empty() ? "" : "") );
    for (auto& l : g.L) if (starts(l, "csv ") && words(l).size() == 2) l += std::string(" ") + "txg"[g.r.below(3)] + " late.csv";
}
void c09(G& g, Plan& p) {
    int nt = 2 + (int)g.r.below(g.ch(.7) ? 1 : 3); bool gasy = g.ch(.6); g.pickTPs(2 + (int)g.r.below(3), .01);
    Content shared = g.content(2 + (int)g.r.below(4), 0);
    bool twins = g.ch(.4), focus = g.ch(.45); std::string hot = g.ch(.5) ? g.ch(.3) ? g.ch(.5) ? "CO2cgr" : "CH4cgr" : of(gases, g.r) : g.ch(.5) ? of(solvents, g.r) : g.r.pick(allSymbols('s')); std::vector<std::string> first;     // all threads doing the same meet in the same places
    for (int t = 0; t < nt; ++t) {
        if (twins && t) { for (auto x : first) { auto w = words(x); if (w[0] == "csv") w[3] = "t" + I(t) + ".csv"; g.add(prefixT(t, join(w, " "))); } continue; }
        Content c = g.ch(.5) ? shared : g.content(2 + (int)g.r.below(4), .05);
        if (gasy) { for (int i = 0; i < 2; ++i) { std::string x = of(gases, g.r); c.s[x] = x; } }
        if (focus) { c.s.clear(); c.s[hot] = hot; if (g.ch(.7)) c.s["H2O@"] = "H2O@"; c.r.clear(); }
        while (c.s.size() > 9) c.s.erase(std::next(c.s.begin(), g.r.below(c.s.size())));
        size_t at = g.L.size(); g.add("mkdb D0 doc " + c.str()); g.add("mkeng E0 D0"); if (g.ch(.3)) g.engineSetup("E0", c);
        if (gasy && g.ch(.6)) g.add("pref E0 pcorr=1");
        int n = 2 + (int)g.r.below(g.deep ? 9 : 5);
        for (int k = 0; k < n; ++k) {
            int q = (int)g.r.below(100);
            if (focus && g.ch(.8)) { auto tp = g.r.pick(g.tps); std::string at = num(tp.T) + " " + num(tp.P > 0 || !g.ch(.5) ? tp.P : 1e6) + " " + enc(hot);
                bool water = std::find_if(std::begin(solvents), std::end(solvents), [&](const char* x) { return hot == x; }) != std::end(solvents);
                g.add("q E0 " + std::string(water && g.ch(.5) ? g.ch(.6) ? "prs " : "els " : "sub ") + at); }
            else if (q < 62) g.add("q E0 " + g.query(c)); 
            else if (q < 76 && gasy) { std::vector<std::string> gs; for (auto x : gases) if (c.s.count(x)) gs.push_back(x); auto tp = g.r.pick(g.tps); if (!gs.empty()) g.add("q E0 sub " + num(tp.T) + " " + num(tp.P > 0 ? tp.P : 1e6) + " " + g.r.pick(gs)); }
            else if (q < 82) { auto x = g.change(c, 2); g.add("append E0 " + std::string(g.hasConv(x) ? "doc" : g.via()) + " " + x); if (g.hasConv(x)) {} }
            else if (q < 86) g.add("engcopy E1 E0"); else if (q < 89) g.add("q E1 " + g.query(c)); else if (q < 91) g.add("engdel E1"); else if (q < 93) g.add("engobs E0");
            else { g.add("mkbat B0 E0"); g.bu.clear(); g.add(g.bcall("O0", "B0", c)); g.add(g.ch(.5) ? "rd O0" : "csv O0 t t" + I(t) + ".csv"); }
        }
        if (twins) first.assign(g.L.begin() + at, g.L.end());
        for (size_t i = at; i < g.L.size(); ++i) g.L[i] = prefixT(t, g.L[i]);
    }
    static const char* kinds[] = {"pct", "pct", "pct", "conflict", "conflict", "rand", "global", "global", "global", "global"}; p.sched.kind = kinds[g.r.below(10)]; p.sched.seed = g.r.next() % 1000000007; p.sched.depth = 1 + (int)g.r.below(6);
    p.sched.horizon = (uint64_t)(1000 * exp(g.r.below(1000) / 1000. * 7.5)); p.sched.prob = p.sched.kind == "rand" ? pow(10., -2.5 - g.r.below(250) / 100.) : p.sched.kind == "global" ? pow(10., -.03 - g.r.below(90) / 100.) : pow(10., -.2 - g.r.below(250) / 100.);
}
void c10(G& g) {
    g.mutants = g.ch(.7) ? 800 : 200; double pv = g.ch(.7) ? .6 : .2;
    Content c = g.content(2 + (int)g.r.below(7), pv, .85); g.add(std::string("mkdb D0 ") + (c.conv.empty() ? g.via() : "doc") + " " + c.str()); 
    int ed = (int)g.r.below(4); static const char* kits[] = {"m.1", "m.2", "m.3", "m.4", "m.5", "m.6", "m.7", "m.8", "m.9", "k.1", "c.2", "c.0", "a.1", "a.4", "f.NaCl", "f.KCl"};
    for (int i = 0; i < ed; ++i) { auto s = g.r.pick(allSymbols('s')); std::string r = g.ref('s', s, pv) + "~" + kits[g.r.below(16)]; if (g.ch(.3)) r += std::string("~") + kits[g.r.below(16)]; g.add("dbset D0 s " + r + " obj"); c.s[s] = r; }
    if (g.ch(.2)) { std::string s = "NewSub" + I(g.r.below(3)); g.add("dbref D0 s " + s); c.s[s] = s + "#new"; }
    if (g.ch(.1)) g.add("dbref D0 r NewRea"), c.r["NewRea"] = "NewRea#new";
    if (g.ch(.1)) g.add("dbref D0 e Xx"), c.e["Xx"] = "Xx#new";
    g.add("mkeng E0 D0"); g.engineSetup("E0", c); g.pickTPs(2 + (int)g.r.below(3), .03);
    int n = g.deep ? 12 + (int)g.r.below(30) : 6 + (int)g.r.below(16); 
    std::vector<std::string> touched; for (auto& x : c.s) if (x.second != x.first) touched.push_back(x.first);
    for (int i = 0; i < n; ++i) {
        int q = (int)g.r.below(100);
        if (q < 35) g.add("q E0 " + g.query(c));
        else if (q < 65 && !touched.empty()) { auto t = g.r.pick(g.tps); static const char* f[] = {"sub", "sub", "sub", "subo", "prs", "els"}; g.add("q E0 " + std::string(f[g.r.below(6)]) + " " + num(t.T) + " " + num(t.P) + " " + g.r.pick(touched)); }
        else if (q < 72) { auto t = g.r.pick(g.tps); g.add("q E0 subv " + num(t.T) + " " + num(t.P) + " " + g.r.pick(allSymbols('s')) + "#k" + I(g.r.below(100000))); }
        else if (q < 76) { auto t = g.r.pick(g.tps); g.add("q E0 reav " + num(t.T) + " " + num(t.P) + " " + g.r.pick(allSymbols('r')) + "#k" + I(g.r.below(100000))); }
        else if (q < 82) { auto x = g.change(c, 3); g.add("append E0 " + std::string(g.hasConv(x) ? "doc" : g.via()) + " " + x); }
        else if (q < 85) g.add("engobs E0"); else if (q < 87) g.add("noise " + I(g.r.below(100000))); else if (q < 89) { g.add("engcopy E1 E0"); g.add("q E1 " + g.query(c)); g.add("engdel E1"); }
        else if (q < 91) { static const char* cv[] = {"~K.1", "~g.-1234~K.1"}; std::string s = g.r.pick(allSymbols('r')), x = g.ref('r', s, pv); if (g.ch(.85)) x += "~L." + I(200 + g.r.below(25)); x += cv[g.r.below(2)]; if (g.ch(.5)) { g.add("rec X0 r " + x); g.add("recobs X0"); } else { g.add("dbset D0 r " + x + " obj"); g.add("mkeng E1 D0"); auto t = g.r.pick(g.tps); g.add("q E1 rea " + num(t.T) + " " + num(t.P) + " " + s); } }
        else if (q < 93) { char k = "esr"[g.r.below(3)]; g.add(std::string("rec X0 ") + k + " " + g.r.pick(allSymbols(k)) + "#k" + I(g.r.below(100000))); g.add("recobs X0"); }
        else { g.bu.clear(); g.add("mkbat B0 E0"); if (g.ch(.5)) g.add("bpref B0 set nan=" + std::string(g.ch(.5) ? "1" : "0")); g.add(g.bcall("O0", "B0", c)); g.add(g.ch(.5) ? "rd O0" : std::string("csv O0 ") + "txg"[g.r.below(3)] + " o.csv"); }
    }
}
void stripFaults(std::vector<std::string>& v) { for (auto& l : v) { auto w = words(l); std::vector<std::string> k; for (auto& x : w) if (x[0] != '!' && !starts(x, "file=")) k.push_back(x); l = join(k, " "); } }
void c11(G& g) {
    int mode = (int)g.r.below(10);
    if (mode < 5) {                       // everything created is destroyed again: nothing stays behind
        if (g.ch(.3)) g.mutants = 300;
        Content c = g.content(2 + (int)g.r.below(6), .15, .85); bool faults = g.ch(.7); auto of = [&](double p) { return faults && g.ch(p) ? g.oom() : std::string(); };
        g.add("mkdb D0 " + std::string(c.conv.empty() ? g.via() : "file") + " " + c.str() + of(.2)); g.add("mkdb D1 doc " + c.str()); g.add("mkeng E0 D1" + of(.1)); g.engineSetup("E0", c); g.pickTPs(2 + (int)g.r.below(3), .03);
        g.add("mkbat B0 E0"); int n = 5 + (int)g.r.below(g.deep ? 30 : 14);
        for (int i = 0; i < n; ++i) {
            int q = (int)g.r.below(100);
            if (q < 55) g.add("q E0 " + g.query(c) + of(.3));
            else if (q < 65) { auto x = g.change(c, 3); std::string v = g.changeVia(x), cr, f; if (faults && (v == "file" || v == "afile" || v == "wfile") && g.ch(.5)) f = dataFault(g, cr); g.add("append E0 " + v + " " + x + cr + f + (f.empty() ? of(.3) : "")); }
            else if (q < 70) { g.add("engcopy E1 E0" + of(.4)); g.add("q E1 " + g.query(c)); if (g.ch(.5)) g.add("engassign E0 E1"); g.add("engdel E1"); }
            else if (q < 75) g.add(std::string(g.ch(.25) ? "prefset" : "pref") + " E0 " + g.pref()); else if (q < 78) { g.add("dbcopy D2 D1" + of(.4)); g.add("dbassign D0 D2" + of(.4)); }
            else if (q < 92) { g.bu.clear(); g.add(g.bcall("O0", "B0", c) + of(.3)); g.add("rd O0"); g.add(std::string("csv O0 ") + "txg"[g.r.below(3)] + " " + (g.ch(.9) ? "o.csv" : "nodir/o.csv") + (faults && g.ch(.5) ? g.csvFault() : of(.2))); }
            else { g.add("rowmk W0 ./x"); g.add("rowopen W0 s r.csv" + (faults && g.ch(.3) ? g.csvFault() : "")); g.add("rowwrite W0 s E0 300 1e5 " + enc(g.sym(c.subs(), 's'))); if (g.ch(.6)) g.add("rowclose W0 s"); g.add("rowdel W0"); }
        }
        std::vector<std::string> W = g.L; W.push_back("wipe"); std::vector<std::string> warm = W; stripFaults(warm);
        g.L.clear(); auto app = [&](const std::vector<std::string>& v) { for (auto& x : v) g.add(x); };
        app(warm); app(W); g.add("mark"); app(W); app(W); g.add("same");
    } else if (mode < 8) {                // the same questions again and again: nothing grows
        Content c = g.content(2 + (int)g.r.below(6), .1); g.add("mkdb D0 doc " + c.str()); g.add("mkeng E0 D0"); g.engineSetup("E0", c, .7); g.pickTPs(1 + (int)g.r.below(3), .1);
        std::vector<std::string> Q; int n = 3 + (int)g.r.below(7); for (int i = 0; i < n; ++i) Q.push_back("q E0 " + g.query(c));
        for (int i = 0; i < 3; ++i) for (auto& x : Q) g.add(x);
        g.add("mark"); for (int i = 0; i < (g.deep ? 6 : 3); ++i) for (auto& x : Q) g.add(x);
        g.add("same");
    } else {                              // many different questions: no more is remembered than allowed
        Content c = g.content(1 + (int)g.r.below(4), 0); c.s["H2O@"] = "H2O@"; c.s["H2Owp"] = "H2Owp"; g.add("mkdb D0 doc " + c.str()); g.add("mkeng E0 D0"); if (g.ch(.3)) g.add(g.solventLine("E0", c));
        static const int caps[] = {1, 2, 3, 5, 8, 13}; int cap = caps[g.r.below(6)]; bool off = g.ch(.25); g.add("pref E0 cache=" + I(cap)); if (off) g.add("pref E0 memo=0");
        static const char* f[] = {"sub", "sub", "prs", "els", "rea"}; std::string form = f[g.r.below(5)]; auto R = c.reas(); if (form == "rea" && R.empty()) form = "prs";
        std::string s = form == "rea" ? g.r.pick(R) : form == "sub" ? g.r.pick(c.subs()) : "H2O@"; 
        g.add("cachebound E0 " + I(cap) + " " + (off ? "0" : "1") + " " + form + " " + num(300 + g.r.below(60)) + " " + num(.5 + g.r.below(4)) + " " + (g.ch(.3) ? "0" : "2e7") + " " + enc(s));
    }
}
void c12(G& g) {
    Content c = g.content(2 + (int)g.r.below(5), .15, .7); g.add("mkdb D0 doc " + c.str()); g.add("mkeng E0 D0"); g.engineSetup("E0", c, .3); g.pickTPs(2, .05);
    std::vector<std::string> pool; int n = 4 + (int)g.r.below(6); for (int i = 0; i < n; ++i) pool.push_back("q E0 " + g.query(c));
    auto lf = [&] { int q = (int)g.r.below(10); std::string p = g.ch(.7) ? "1" : "0", n = I(1 + g.r.below(3)); static const char* e[] = {"ENOSPC", "EIO", "EROFS"};
        if (q < 3) return " !io=l.open.1." + std::string(g.ch(.5) ? "EACCES" : "EMFILE") + ".1." + p; if (q < 7) return " !io=l.write." + n + "." + e[g.r.below(3)] + ".1." + p; if (q < 8) return " !io=l.flush.1.EIO.1." + p; if (q < 9) return " !io=l.close.1.EIO.1." + p; return " !io=l.write." + n + ".short." + I(1 + g.r.below(20)) + "." + p; };
    int steps = g.deep ? 12 + (int)g.r.below(30) : 7 + (int)g.r.below(16); double pf = g.ch(.7) ? .4 : 0;
    for (int i = 0; i < steps; ++i) {
        int q = (int)g.r.below(100); std::string f = g.ch(pf) ? lf() : ""; static const char* names[] = {"a.log", "b.log", "sub/c.log", "deep/er/d.log"};
        if (q < 14) g.add("logupd x file " + std::string(names[g.r.below(4)]) + " " + I(g.r.below(8)) + f);
        else if (q < 20) g.add("logupd x cout " + I(g.r.below(8))); else if (q < 23) g.add("logupd x none " + I(g.r.below(8))); else if (q < 33) g.add("logclr " + std::string(g.ch(.7) ? names[g.r.below(4)] : "-") + f);
        else if (q < 36) g.add("clock " + std::string(g.ch(.5) ? "-" : "") + I(1 + g.r.below(100000)));
        else if (q < 80) g.add((g.ch(.25) ? "q E0 " + g.query(c) : g.r.pick(pool)) + f);
        else if (q < 88) { auto x = g.change(c, 2); g.add("append E0 " + std::string(g.hasConv(x) ? "doc" : g.via()) + " " + x + " obs" + f); }
        else if (q < 91) { g.add("engcopy E1 E0" + f); g.add("q E1 " + g.query(c) + f); }
        else if (q < 95) g.add("append E0 file s:Qtz file=unlink:0" + f);
        else { g.bu.clear(); g.add("mkbat B0 E0"); g.add(g.bcall("O0", "B0", c) + f); g.add("rd O0"); }
    }
    for (auto& x : pool) if (g.ch(.4)) g.add(x);
}
void c21(G& g) {
    if (g.ch(.1)) g.mutants = 200;
    Content c = g.content(2 + (int)g.r.below(6), .12, .96);
    int more = 1 + (int)g.r.below(4);             // reactions and substances defined by them, with what they need
    for (int i = 0; i < more; ++i) {
        auto x = g.r.pick(allSymbols('r')); c.r[x] = g.ref('r', x, .12);
        for (int round = 0; round < 2; ++round) { std::vector<std::string> R = c.reas(); for (auto& y : R) for (auto& s : reactantsOf(y)) if (s != "NoSuchSubstance") { if (!c.s.count(s)) c.s[s] = g.ref('s', s, .12); auto z = reactionOf(s); if (!z.empty() && !c.r.count(z)) c.r[z] = g.ref('r', z, .12); } }
    }
    if (g.ch(.15)) { std::string x = g.ch(.6) ? "R-fm" : g.ch(.5) ? "R-dm" : "ZrF6-2"; c.r[x] = x; for (auto& s : reactantsOf(x)) if (!c.s.count(s)) c.s[s] = s; if (!c.s.count("H2O@")) c.s["H2O@"] = "H2O@"; }
    g.add("mkdb D0 doc " + c.str()); g.add("mkeng E0 D0"); g.engineSetup("E0", c, .5); g.pickTPs(2 + (int)g.r.below(3), .02);
    for (auto& t : g.tps) if (t.P < 1000 && g.ch(.85)) t.P = g.ch(.5) ? 1e5 : 5e7;
    auto ask = [&]() -> std::string {
        if (g.ch(.15)) return "q E0 " + g.query(c);
        auto t = g.r.pick(g.tps); std::string at = " " + num(t.T) + " " + num(t.P) + " "; std::vector<std::string> defined, plain, model; for (auto& x : c.s) if (!reactionOf(x.first).empty()) defined.push_back(x.first);
        for (auto& x : c.r) (fromReactants(x.second) ? plain : model).push_back(x.first);
        int q = (int)g.r.below(100); auto S = c.subs();
        if (q < 35 && !defined.empty()) return std::string("q E0 ") + (g.ch(.85) ? "sub" : "subo") + at + enc(g.r.pick(defined));
        if (q < 55 && !plain.empty()) return std::string("q E0 ") + (g.ch(.85) ? "rea" : "reao") + at + enc(g.r.pick(plain));
        if (q < 66 && S.size() > 1) return "q E0 rea" + at + enc(g.equation(S));
        if (q < 80 && !model.empty()) return std::string("q E0 ") + (g.ch(.85) ? "rea" : "reao") + at + enc(g.r.pick(model));
        return std::string("q E0 ") + (g.ch(.85) ? "rfr" : "rfro") + at + enc(g.sym(c.reas(), 'r')); };
    std::vector<std::string> pool; int n = 4 + (int)g.r.below(7); for (int i = 0; i < n; ++i) pool.push_back(ask());
    int steps = g.deep ? 12 + (int)g.r.below(25) : 6 + (int)g.r.below(14); double pf = g.ch(.3) ? .2 : 0;
    for (int k = 0; k < steps; ++k) {
        int q = (int)g.r.below(100); std::string f = g.ch(pf) ? g.oom() : "";
        if (q < 62) g.add((g.ch(.2) ? ask() : g.r.pick(pool)) + f);
        else if (q < 74) { auto x = g.change(c, 2); g.add("append E0 " + g.changeVia(x) + " " + x + f); if (g.ch(.7)) g.add(g.r.pick(pool)); }
        else if (q < 82) g.add("pref E0 " + g.pref(false)); else if (q < 87) g.add("pref E0 " + g.pref()); else if (q < 91) g.add("conv E0 " + g.conv());
        else if (q < 94) g.add(g.solventLine("E0", c)); else if (q < 97) { g.add("engcopy E1 E0"); auto x = g.r.pick(pool); x[3] = '1'; g.add(x); }
        else { g.bu.clear(); g.add("mkbat B0 E0"); g.add(g.bcall("O0", "B0", c) + f); g.add("rd O0"); }
    }
    for (auto& x : pool) if (g.ch(.6)) g.add(x);
}
// the host program changes its locale at any point of a history about something else
void c13(G& g) {
    switch (g.r.below(7)) { case 0: case 1: c07(g); break; case 2: c08(g); break; case 3: c21(g); break; case 4: c05(g); break; case 5: c02(g); break; default: c12(g); }
    std::vector<std::string> L; double p = g.ch(.5) ? .1 : .3; std::string one = "locale " + I(1 + g.r.below(3));
    if (g.ch(.6)) L.push_back(one);
    for (auto& l : g.L) { if (g.ch(p)) L.push_back(g.ch(.4) ? one : "locale " + I(g.r.below(4))); L.push_back(l); }
    g.L = L;
}
// memory running out in a few operations of a history about something else
void sprinkle(G& g) {
    if (!g.ch(.25)) return; static const std::set<std::string> ops = {"q", "append", "mkdb", "mkeng", "engcopy", "engassign", "dbcopy", "dbassign", "engdb", "dbset", "dbref", "dbget", "rec", "reccopy", "recassign", "recget", "recput", "recedit", "mkbat", "mkbatf", "batcopy", "batassign", "bcall", "outcopy", "outassign", "pref", "prefset", "conv", "solvent", "bpref", "bunit", "bdigit", "binc", "rep"};
    double p = g.ch(.5) ? .05 : .15;
    for (auto& l : g.L) if (l.find(" !") == std::string::npos && ops.count(words(l)[0]) && g.ch(p)) l += g.oom();
}
// the program calls from several of its threads, one after the other
void hands(G& g) {
    if (!g.ch(.2)) return; int n = 1 + g.r.below(3); double p = g.ch(.5) ? .3 : .7; bool run = g.ch(.4); int k = 0;
    for (auto& l : g.L) { if (!run || g.ch(.3)) k = g.ch(p) ? 1 + (int)g.r.below(n) : 0; if (k && l[0] != '#' && l[0] != 'T') l = "on " + I(k) + " " + l; }
}
// several records of one symbol in one document: the last one counts
void twice(G& g) {
    if (!g.ch(.2)) return; static const std::set<std::string> ops = {"append", "mkdb", "dbappend", "mkengf"};
    for (auto& l : g.L) {
        auto w = split(l, ' '); if (w.size() < 4 || !ops.count(w[0]) || !g.ch(.3)) continue;
        std::vector<std::string> it; int n = 0;
        for (auto& x : split(w[3], ',')) {
            if (x[0] != 'c' && x.size() > 2 && g.ch(n ? .1 : .3)) { ++n; auto s = refSym(x.substr(2)); it.push_back(x.substr(0, 2) + s + (g.ch(.8) ? "#" + I(1 + g.r.below(x[0] == 's' ? 20 : x[0] == 'r' ? 11 : 6)) : "")); }
            it.push_back(x);
        }
        w[3] = join(it, ","); l = join(w, " ");
    }
}
} // namespace
Plan generate(const std::string& prop, uint64_t seed, bool deep) {
    Plan p; p.prop = prop; p.seed = seed;
    uint64_t h = fnv(prop); G g(seed ^ (h * 2654435761ull), deep);
    p.heapMode = (int)g.r.below(heap::nFillModes); p.heapSeed = 1 + g.r.below(1000);
    if (prop == "C01") c01(g); else if (prop == "C02") c02(g); else if (prop == "C03") c03(g); else if (prop == "C04") c04(g); else if (prop == "C05") c05(g); else if (prop == "C06") c06(g);
    else if (prop == "C07") c07(g); else if (prop == "C08") c08(g); else if (prop == "C09") c09(g, p); else if (prop == "C10") c10(g); else if (prop == "C11") c11(g); else if (prop == "C12") c12(g); else if (prop == "C21") c21(g); else if (prop == "C13") c13(g);
    if (prop == "C01" || prop == "C02" || prop == "C04" || prop == "C08") sprinkle(g);
    if (prop != "C11") twice(g);
    if (prop != "C09" && prop != "C10" && prop != "C11" && prop != "C13") hands(g);
    p.lines = g.L; return p;
}
} // namespace sim
