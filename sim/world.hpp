// The simulated world: objects of the system under test, the executable
// reference models that go with them, and the interpreter of plan lines.
#pragma once
#include <array>
#include <set>
#include "base.hpp"
#include "seams.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <nlohmann/json.hpp>
#include "ThermoFun/ThermoFun.h"
#include "ThermoFun/Common/OutputToCSV.h"
#include "ThermoFun/GlobalVariables.h"

namespace sim {
using json = nlohmann::json;

// ------------------------------------------------------------------ data set
void loadBase(const std::string& file);                 // data/base.json
const std::vector<std::string>& allSymbols(char kind);  // 'e','s','r'
// record references: sym#variant  (deterministic mutation of the base record), optionally ~edit (C++ setters)
std::string recJson(char kind, const std::string& ref);
std::string refSym(const std::string& ref);
bool refEdited(const std::string& ref);
json docOf(const std::vector<std::string>& content);    // content items: s:ref e:ref r:ref c:conv
std::vector<std::string> reactantsOf(const std::string& reactionSym);
std::string reactionOf(const std::string& substanceSym);

// -------------------------------------------------------------- serialisation
std::string ser(const ThermoFun::ThermoPropertiesSubstance&);
std::string ser(const ThermoFun::ThermoPropertiesReaction&);
std::string ser(const ThermoFun::PropertiesSolvent&);
std::string ser(const ThermoFun::ElectroPropertiesSolvent&);
std::string ser(const ThermoFun::Substance&);
std::string ser(const ThermoFun::Reaction&);
std::string ser(const ThermoFun::Element&);
extern const std::map<std::string, std::string> sumFields;      // property of a substance -> of a reaction
std::string oneEquilibrium(const std::string& answer, double T);
std::array<double, 4> scalarOf(const std::string& answer, const std::string& field);     // value and derivatives
std::string statusOf(const std::string& answer, const std::string& field);
std::string sumDiffers(const std::string& want, const std::string& got, char kind, double T);
bool definedByReaction(const std::string& ref, std::string& reaction);
bool coefficients(const std::string& ref, std::map<std::string, double>& c);
bool fromReactants(const std::string& ref);
bool equation(const std::string& e, std::map<std::string, double>& coefficients);
double fieldOf(const std::string& answer, const std::string& field, int& status, bool& ok);

// --------------------------------------------------------------------- models
using RecMap = std::map<std::string, std::string>;      // symbol -> ref
struct DbModel {
    RecMap e, s, r; std::string wtp = "HKF_HGK_1974";
    RecMap& of(char k) { return k == 'e' ? e : k == 's' ? s : r; }
    const RecMap& of(char k) const { return k == 'e' ? e : k == 's' ? s : r; }
    void apply(const std::vector<std::string>& content);         // set/append semantics
    std::vector<std::string> lines(const std::string& id) const; // plan lines that build it
};
struct EngModel {
    DbModel db;
    bool memo = true; long cache = 1000000; std::string solvent = "H2O@"; bool fallback = false, pcorr = false;
    std::string app = "BENSON_HELGESON", wat = "GEOCHEMICAL";
    std::vector<std::string> lines() const;                      // builds engine E0
};
struct BatModel {
    EngModel eng; ThermoFun::BatchPreferences bp;
    std::map<std::string, std::string> units = ThermoFun::defaultPropertyUnits;
    std::map<std::string, int> digits = ThermoFun::defaultPropertyDigits;
    std::map<std::string, double> tinc = ThermoFun::defaultTemperatureIncrement, pinc = ThermoFun::defaultPressureIncrement;
};
struct OutModel {
    BatModel bat; char kind = 's';
    std::vector<std::vector<double>> pairs; std::vector<std::string> symbols, props;
};

// ---------------------------------------------------------------------- world
struct DbObj { std::unique_ptr<ThermoFun::Database> p; DbModel m; };
struct EngObj { std::unique_ptr<ThermoFun::ThermoEngine> p; EngModel m;
    ThermoFun::EnginePreferences* hp = nullptr; ThermoFun::EngineConventions* hc = nullptr; std::string* hs = nullptr; };     // references the user keeps
struct BatObj { std::unique_ptr<ThermoFun::ThermoBatch> p; BatModel m; };
struct OutObj { std::unique_ptr<ThermoFun::Output> p; OutModel m; };
struct RowObj { std::unique_ptr<ThermoFun::OutputToCSV> p; std::string dir; std::map<char, std::string> open; std::map<std::string, std::string> text; std::map<std::string, bool> ok; };
struct RecObj { char kind; std::unique_ptr<ThermoFun::Substance> s; std::unique_ptr<ThermoFun::Reaction> r; std::unique_ptr<ThermoFun::Element> e; std::string ref; };

struct World {
    std::function<void(const std::string&)> out;     // transcript line sink
    bool reference = false;                           // pristine reference process: answers only
    bool perLineHeap = true;
    bool foreign = false;                             // also check that what is raised is a std::exception (C03)
    bool sums = false;                                // also check what a reaction answer says about itself and its parts (C21)
    int opIndex = 0;
    bool marked = false, comparable = false, populated = false; long markLive = 0, markBytes = 0, markFds = 0; std::set<std::string> doneBefore;
    std::map<std::string, DbObj> db; std::map<std::string, EngObj> eng; std::map<std::string, BatObj> bat;
    std::map<std::string, OutObj> outp; std::map<std::string, RowObj> row; std::map<std::string, RecObj> rec;
    std::map<std::string, std::string> serCache;
    std::map<std::string, int> stateIds;
    std::map<std::string, long> probes;
    std::map<std::string, long> faults;
    std::vector<std::string> lastAnswers;

    std::string exec(const std::string& line);        // runs one plan line; returns its answer
    void finish();                                    // destroys all objects
    // oracle helpers
    void violation(const std::string& msg);
    void probe(const std::string& p, long n = 1) { probes[p] += n; }
    void check(const EngModel& m, const std::string& query, const std::string& answer, const std::string& mode = "x");
    void checkRec(char kind, const std::string& ref, const std::string& got);
    const std::string& serOf(char kind, const std::string& ref);
    void observeDb(const ThermoFun::Database& d, const DbModel& m, const std::string& what);
    // resolve the content of a database after an operation that failed part-way
    void resolveDb(const ThermoFun::Database& d, DbModel& m, const std::vector<std::string>& content, const std::string& what);
private:
    struct Op; friend struct OpImpl;
};

// an operation's arguments after fault tokens were taken off
struct Faults { long oom = 0; bool oomPersist = false; std::vector<io::Fault> io; bool any() const { return oom || !io.empty(); } };
Faults takeFaults(std::vector<std::string>& w);
extern thread_local long g_errorLogs;       // error-level messages seen in the ThermoFun log
bool installLogSpy(bool whenSilent = true);
std::vector<double> readDoubles(const std::string& s);   // comma separated
std::string expectMismatch(const std::string& ref, const ThermoFun::Substance& s);   // expect.cpp
std::string expectMismatch(const std::string& ref, const ThermoFun::Reaction& s);
std::string expectMismatch(const std::string& ref, const ThermoFun::Element& s);
// why a query cannot be answered from the data, "" if it may be
std::string unanswerable(const EngModel& m, const std::string& form, const std::string& sym);
std::string wrongPressure(const EngModel& m, const std::string& form, const std::string& sym, double T, double in, double out);
}
