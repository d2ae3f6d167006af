// Stand-in for the ChemicalFun package (not installed here, not part of
// thermohub/thermofun).  It has the interface ThermoFun uses and a plain,
// deterministic formula parser:  (Group)n, nested parentheses, [] as (),
// |valence| (ignored for stoichiometry), trailing charge +n/-n/@, real
// coefficients, and the charge element Zz.
#pragma once
#include <map>
#include <string>

namespace ChemicalFun {

class ElementKey {
    std::string symbol; int class_; int isotope;
public:
    explicit ElementKey(const std::string& s, int cls = 0, int iso = 0) : symbol(s), class_(cls), isotope(iso) {}
    const std::string& Symbol() const { return symbol; }
    int Class() const { return class_; }
    int Isotope() const { return isotope; }
    bool operator<(const ElementKey& o) const {
        if (symbol != o.symbol) return symbol < o.symbol;
        if (class_ != o.class_) return class_ < o.class_;
        return isotope < o.isotope;
    }
    bool operator==(const ElementKey& o) const { return symbol == o.symbol && class_ == o.class_ && isotope == o.isotope; }
};

struct ElementValues {
    std::string recid;
    double atomic_mass = 0., entropy = 0., heat_capacity = 0., volume = 0.;
    int valence = 0, number = 0;
    std::string name;
};

using ElementsData = std::map<ElementKey, ElementValues>;
using StoichiometryRowData = std::map<ElementKey, double>;

struct FormulaProperties {
    std::string formula;
    double charge = 0., atomic_mass = 0., elemental_entropy = 0., elemental_heat_capacity = 0., elemental_volume = 0.;
};

class FormulaToken {
    std::string formula_;
    StoichiometryRowData stoich;
public:
    explicit FormulaToken(const std::string& formula);
    const StoichiometryRowData& getStoichCoefficients() const { return stoich; }
    FormulaProperties properties(const ElementsData& elements) const;
};

class DBElements {
    ElementsData dbelements;
public:
    void addElement(ElementKey key, const ElementValues& values);
    const ElementsData& elements() const { return dbelements; }
    FormulaProperties formulasProperties(const std::string& formula) const;
    static int defaultValence(const std::string& symbol);
};

} // namespace ChemicalFun
