#include <charconv>
#include "ChemicalFun/FormulaParser/ChemicalData.h"
#include <cctype>
#include <cstdlib>
#include <memory>
#include <stdexcept>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/stdout_color_sinks.h>

namespace ChemicalFun {

std::shared_ptr<spdlog::logger> chfun_logger = spdlog::stdout_color_mt("chemicalfun");

namespace {
struct Parser {
    const std::string& s; size_t i = 0; double charge = 0.;
    explicit Parser(const std::string& str) : s(str) {}
    [[noreturn]] void fail(const char* why) { throw std::runtime_error("formula '" + s + "': " + why); }
    double number(double dflt) {
        size_t b = i;
        while (i < s.size() && (std::isdigit((unsigned char)s[i]) || s[i] == '.')) ++i;
        if (b == i) return dflt;
        double v = 0; std::from_chars(s.data() + b, s.data() + i, v); return v;
    }
    StoichiometryRowData group(char close) {
        StoichiometryRowData r;
        while (i < s.size()) {
            char c = s[i];
            if (close && c == close) return r;
            if (c == '(' || c == '[') {
                ++i; auto g = group(c == '(' ? ')' : ']');
                if (i >= s.size()) fail("unbalanced bracket");
                ++i; double n = number(1.);
                for (auto& e : g) r[e.first] += e.second * n;
            } else if (std::isupper((unsigned char)c)) {
                std::string el(1, c); ++i;
                while (i < s.size() && std::islower((unsigned char)s[i])) el += s[i++];
                if (i < s.size() && s[i] == '|') {          // |valence|
                    size_t e = s.find('|', i + 1);
                    if (e == std::string::npos) fail("unbalanced valence");
                    i = e + 1;
                }
                double n = number(1.);
                r[el == "Zz" ? ElementKey("Zz", 4) : ElementKey(el)] += n;
            } else if (c == '+' || c == '-') {
                ++i; double n = number(1.);
                charge += (c == '+') ? n : -n;
            } else if (c == '@' || c == ':' || c == '*') ++i;
            else fail("unexpected character");
        }
        if (close) fail("unbalanced bracket");
        return r;
    }
};
}

FormulaToken::FormulaToken(const std::string& formula) : formula_(formula) {
    Parser p(formula_);
    stoich = p.group(0);
    if (p.charge != 0.) stoich[ElementKey("Zz", 4)] += p.charge;
}

FormulaProperties FormulaToken::properties(const ElementsData& elements) const {
    FormulaProperties r; r.formula = formula_;
    for (auto& e : stoich) {
        if (e.first.Symbol() == "Zz") r.charge += e.second;
        auto it = elements.find(e.first);
        if (it == elements.end()) throw std::runtime_error("formula '" + formula_ + "': unknown element " + e.first.Symbol());
        r.atomic_mass += it->second.atomic_mass * e.second;
        r.elemental_entropy += it->second.entropy * e.second;
        r.elemental_heat_capacity += it->second.heat_capacity * e.second;
        r.elemental_volume += it->second.volume * e.second;
    }
    return r;
}

void DBElements::addElement(ElementKey key, const ElementValues& values) {
    auto it = dbelements.find(key);
    if (it != dbelements.end()) it->second = values;
    else dbelements.insert({key, values});
}

FormulaProperties DBElements::formulasProperties(const std::string& formula) const {
    return FormulaToken(formula).properties(dbelements);
}

int DBElements::defaultValence(const std::string& symbol) {
    static const std::map<std::string, int> v = {
        {"H", 1}, {"O", -2}, {"C", 4}, {"Na", 1}, {"K", 1}, {"Ca", 2}, {"Mg", 2}, {"Al", 3}, {"Si", 4},
        {"Cl", -1}, {"S", 6}, {"Fe", 2}, {"N", 5}, {"P", 5}, {"F", -1}, {"Zz", 1}};
    auto it = v.find(symbol);
    return it == v.end() ? 0 : it->second;
}

} // namespace ChemicalFun
