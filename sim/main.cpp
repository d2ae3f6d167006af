// One simulator process tree: driver -> zygotes -> one child per simulated run.
//   simrun worker PROP FIRST STRIDE COUNT SECONDS DEEP OUTDIR [known-classes-file]
//   simrun replay FILE [-v]
//   simrun gen PROP SEED DEEP
// A zygote never runs code of the system under test; every child forked from
// it starts from the same memory image, so a plan is one execution.
#include "world.hpp"
#include "gen.hpp"
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <filesystem>
#include <unordered_map>
#include <unordered_set>
#include <exception>
#include <time.h>

using namespace sim;
static std::string I(long v) { return std::to_string(v); }
static const uint64_t OP_BUDGET = 600000000ull;         // instrumented accesses one operation may make

// =============================================================== inside a run
static int g_out = -1;
static void rawLine(const std::string& s) { SimScope q; std::string t = s; for (auto& c : t) if (c == '\n') c = '\x01'; t += '\n'; const char* p = t.data(); size_t n = t.size(); while (n) { ssize_t k = ::write(g_out, p, n); if (k <= 0) _exit(94); p += k; n -= (size_t)k; } }
extern "C" void sim_on_budget_impl() { t_sut = 0; rawLine("H operation exceeded its step budget"); _exit(95); }
namespace sim { extern "C" void sim_on_budget() { sim_on_budget_impl(); } }
static void onTerminate() {
    t_sut = 0; std::string m = "terminate";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& x) { m += std::string(": ") + x.what(); } catch (...) {} }
    rawLine("H " + m); _exit(98);
}
static std::string bare(const std::string& l) { return starts(l, "on ") && l.size() > 5 ? l.substr(5) : l; }     // without the thread that is to do it
static int threadOf(const std::string& l) { return l.size() > 3 && l[0] == 'T' && isdigit(l[1]) && l[2] == ' ' ? l[1] - '0' : -1; }

static void limits() {
    struct rlimit r{60, 61}; setrlimit(RLIMIT_CPU, &r); r = {8ull << 30, 8ull << 30}; setrlimit(RLIMIT_AS, &r); r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
    r = {64, 64}; setrlimit(RLIMIT_NOFILE, &r); r = {256u << 20, 256u << 20}; setrlimit(RLIMIT_FSIZE, &r); alarm(150);
}
static void runOps(World& w, const std::vector<std::pair<int, std::string>>& ops, bool budget) {
    for (auto& o : ops) {
        w.opIndex = o.first; w.out("O " + I(o.first) + " " + o.second);
        scribbleStack();
        if (budget) setBudget(OP_BUDGET);
        std::string a = w.exec(o.second);
        if (budget) setBudget(0);
        w.out("A " + I(o.first) + " " + enc(a));
        if (auto c = heap::corruption()) { w.violation(std::string("memory: ") + c); rawLine("END"); _exit(93); }
    }
}
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

static void childPlan() {
    Plan p = Plan::parse(slurp("../in.txt"));
    heap::enable(p.heapMode, p.heapSeed); installLogSpy(); std::set_terminate(onTerminate);
    std::map<std::string, long> faults, probes; sched::Result res; bool threaded = false; uint64_t work = 0;
    {
        World w; w.out = rawLine; w.sums = p.prop == "C21"; w.foreign = p.prop == "C03";
        std::vector<std::pair<int, std::string>> pre, post; std::map<int, std::vector<std::pair<int, std::string>>> th;
        for (size_t i = 0; i < p.lines.size(); ++i) { int t = threadOf(p.lines[i]); if (t >= 0) th[t].push_back({(int)i, p.lines[i].substr(3)}); else (th.empty() ? pre : post).push_back({(int)i, p.lines[i]}); }
        runOps(w, pre, true);
        if (!th.empty()) {
            threaded = true;
            std::vector<std::function<void()>> bodies; std::vector<std::vector<std::string>> buf(th.size()); std::vector<World> ws(th.size()); int k = 0;
            for (auto& t : th) {
                auto* b = &buf[k]; World* tw = &ws[k]; std::string tag = "t" + I(t.first) + "."; auto* ops = &t.second;
                tw->out = [b, tag](const std::string& l) { SimScope s; std::string x = l;
                    if (starts(x, "S ")) x = "S " + tag + x.substr(2);
                    else if (starts(x, "Q ")) { auto v = words(x); if (v[2] != "-1") v[2] = tag + v[2]; x = join(v, " "); }
                    b->push_back(x); };
                bodies.push_back([tw, ops] { runOps(*tw, *ops, false); tw->finish(); });
                ++k;
            }
            setBudget(OP_BUDGET * 2);
            res = sched::run(bodies, p.sched);
            setBudget(0);
            for (auto& b : buf) for (auto& l : b) rawLine(l);
            for (auto& x : ws) { for (auto& f : x.faults) faults[f.first] += f.second; for (auto& f : x.probes) probes[f.first] += f.second; }
        }
        runOps(w, post, true);
        w.opIndex = (int)p.lines.size(); w.finish(); heap::scanQuarantine();
        if (auto c = heap::corruption()) w.violation(std::string("memory: ") + c);
        for (auto& f : w.faults) faults[f.first] += f.second; for (auto& f : w.probes) probes[f.first] += f.second;
        work = g_steps;
    }
    for (auto& f : faults) rawLine("F " + f.first + " " + I(f.second));
    for (auto& f : probes) rawLine("P " + f.first + " " + I(f.second));
    rawLine("E " + std::to_string(work) + " " + std::to_string(timesim::simulatedNs()) + " " + I(io::stats().opens) + " " + I(io::stats().reads) + " " + I(io::stats().writes) + " " + std::to_string(res.accesses) + " " + std::to_string(res.conflicts));
    if (threaded) { std::string x = "X"; for (auto& s : res.switches) x += " " + std::to_string(s.first) + ":" + I(s.second); rawLine(x); }
    rawLine("END"); _exit(0);
}
// state lines, "--", queries: every query is answered in a process of its own
static void childReference() {
    std::istringstream in(slurp("../in.txt")); std::string l; std::vector<std::string> st, q; bool b = false;
    while (std::getline(in, l)) { if (l == "--") { b = true; continue; } (b ? q : st).push_back(l); }
    heap::enable(0, 1); installLogSpy(); std::set_terminate(onTerminate);
    World w; w.reference = true; w.out = [](const std::string&) {};
    for (auto& x : st) { setBudget(OP_BUDGET); w.exec(x); }
    for (auto& x : q) {
        pid_t p = fork();
        if (!p) { setBudget(OP_BUDGET); std::string a = w.exec(x); rawLine("R " + enc(a)); _exit(0); }
        int s = 0; while (waitpid(p, &s, 0) < 0) {}
        if (WIFSIGNALED(s)) rawLine("R " + enc("crash " + I(WTERMSIG(s)))); else if (WEXITSTATUS(s)) rawLine("R " + enc("hang-or-abort " + I(WEXITSTATUS(s))));
    }
    _exit(0);
}
static int zygote() {
    // 10: requests, 11: results, cwd: <scratch>/w
    signal(SIGPIPE, SIG_IGN); prctl(PR_SET_PDEATHSIG, SIGKILL);
    const char* d = getenv("SIMDATA"); loadBase(d);
    char c;
    while (::read(10, &c, 1) == 1) {
        pid_t p = fork();
        if (!p) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); ::close(10); ::close(11); limits();
            g_out = ::open("../out.txt", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(g_out, 20); ::close(g_out); g_out = 20;
            int n = ::open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); if (n > 2) ::close(n);
            int e = ::open("../err.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2); if (e > 2) ::close(e);
            if (c == 'P') childPlan(); else childReference();
        }
        int s = 0; while (waitpid(p, &s, 0) < 0) {}
        if (::write(11, &s, sizeof s) != sizeof s) break;
    }
    return 0;
}

// =============================================================== driver side
static std::string g_exeDir, g_data, g_scratch;
static void emptyDir(const std::string& d) { std::error_code ec; for (auto& e : std::filesystem::directory_iterator(d, ec)) std::filesystem::remove_all(e.path(), ec); }
struct Zygote {
    std::string exe, dir; pid_t pid = 0; int req = -1, resp = -1;
    void start() {
        dir = g_scratch + "/" + std::filesystem::path(exe).filename().string(); std::filesystem::create_directories(dir + "/w");
        int a[2], b[2]; if (pipe(a) || pipe(b)) exit(2);
        pid = fork();
        if (!pid) {
            int x = fcntl(a[0], F_DUPFD, 50), y = fcntl(b[1], F_DUPFD, 50); dup2(x, 10); dup2(y, 11);
            for (int i = 3; i < 256; ++i) if (i != 10 && i != 11) ::close(i);
            if (chdir((dir + "/w").c_str())) _exit(2);
            if (!getenv("SIM_ASLR")) personality(ADDR_NO_RANDOMIZE);
            std::string e = "SIMDATA=" + g_data, loc = "LOCPATH=" + g_data.substr(0, g_data.rfind('/') + 1) + "locale"; const char* av[] = {"zyg", nullptr}; const char* ev[] = {e.c_str(), loc.c_str(), nullptr};
            execve(exe.c_str(), (char* const*)av, (char* const*)ev); _exit(2);
        }
        ::close(a[0]); ::close(b[1]); req = a[1]; resp = b[0];
    }
    void stop() { if (pid) { ::close(req); ::close(resp); kill(pid, SIGKILL); int s; waitpid(pid, &s, 0); pid = 0; } }
    int request(char c, const std::string& input) {
        if (!pid) start();
        emptyDir(dir + "/w");      // files of the previous run, in our own scratch directory
        { std::ofstream o(dir + "/in.txt", std::ios::binary | std::ios::trunc); o << input; }
        unlink((dir + "/out.txt").c_str());
        int s = 0;
        if (::write(req, &c, 1) != 1 || ::read(resp, &s, sizeof s) != sizeof s) { stop(); fprintf(stderr, "zygote died\n"); return -1; }
        return s;
    }
};

static bool g_local = false;       // the plan changes the locale
struct Violation { int op = -1; std::string msg, cls; };
struct Run {
    std::vector<Violation> v; std::vector<std::string> answers, ops; std::vector<std::string> lines; std::string X; uint64_t hash = 0, sched = 0, steps = 0, ns = 0, conflicts = 0, accesses = 0; long opens = 0, reads = 0, writes = 0;
    std::map<std::string, long> faults, probes; std::vector<uint64_t> states; long checks = 0; int status = 0; bool wall = false;
    bool has(const std::string& c) const { for (auto& x : v) if (x.cls == c) return true; return false; }
};
static std::string classOf(const std::string& m) {
    std::string r; int n = 0;
    for (auto& w : words(m)) { bool bad = false; for (char c : w) if (isdigit((unsigned char)c) || c == '\'' || c == '#' || c == '/' || c == '@' || c == '\x01') bad = true; if (bad || n >= 7) break; r += (n++ ? " " : "") + w; }
    return r;
}
struct Driver {
    Zygote z0, z1, z2; std::unordered_map<uint64_t, std::string> refs; long refRuns = 0, planRuns = 0; bool verbose = false;
    void init() { z0.exe = g_exeDir + "/simrun"; z1.exe = g_exeDir + "/simrun-zero"; z2.exe = g_exeDir + "/simrun-patt"; }
    void stop() { z0.stop(); z1.stop(); z2.stop(); }
    std::vector<std::string> outLines(Zygote& z) { std::vector<std::string> r; std::ifstream i(z.dir + "/out.txt", std::ios::binary); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }

    static bool exactEq(const std::string& a, const std::string& b) { return a == b; }
    static std::string noPlace(std::string s) {             // error text without the place in the source where it was raised
        for (size_t a = 0; (a = s.find("***%20Location:", a)) != std::string::npos;) { auto e = s.find("%0a", a); s.erase(a, e == std::string::npos ? e : e - a); }
        return s;
    }
    // how numbers are spelled inside message texts may follow the host's locale
    static std::string spelled(std::string s) {
        auto plain = [&](size_t a, size_t e) { for (size_t i = a + 1; i + 1 < e; ++i) if (isdigit((unsigned char)s[i - 1]) && isdigit((unsigned char)s[i + 1]) && s[i] == ',') s[i] = '.'; };
        if (starts(s, "error ")) s.erase(std::remove_if(s.begin(), s.end(), [](char c) { return c == '.' || c == ',' || c == '*'; }), s.end());
        for (size_t a = 0; (a = s.find("out%20of%20T(", a)) != std::string::npos; ++a) plain(a, std::min(s.size(), s.find("bounds", a)));
        return s;
    }
    // empty: fine; otherwise why not
    static std::string compare(const std::string& mode, const std::string& want, const std::string& got) {
        if (mode == "x") return want == got || noPlace(want) == noPlace(got) || (g_local && spelled(noPlace(want)) == spelled(noPlace(got))) ? "" : "differs";
        if (starts(mode, "sum:")) return sumDiffers(want, got, mode[4], mode[4] == 'r' ? strtod(mode.c_str() + 6, nullptr) : 0);
        auto t = split(mode, ':'); double f = strtod(t[2].c_str(), nullptr), ab = strtod(t[3].c_str(), nullptr), re = strtod(t[4].c_str(), nullptr); int nf = atoi(t[5].c_str());
        int st; bool ok; double v = fieldOf(want, t[1], st, ok);
        if (!ok) return "no direct answer";
        bool notdef = st == 0 && t[1] != "P";
        if (nf == 2 && notdef) return got == "NaN" ? "" : "not-defined value shown";
        if (nf && got == "NaN") return "NaN shown for a defined value";
        char* e; double g = strtod(got.c_str(), &e); if (got.empty() || *e) return "no number";
        v *= f; if (std::isnan(v) && std::isnan(g)) return ""; if (v == g) return "";
        if (fabs(g - v) <= ab + re * fabs(v)) return "";
        return "differs";
    }
    // converting a temperature or pressure between units may change its last digits, and models have steps (at the reference
    // pressure, at phase transitions): a cell is right when it is the answer at a point within rounding of the requested one
    bool nearby(const std::string& st, const std::string& q, const std::string& mode, const std::string& a) {
        auto w = words(q); if (w.size() < 6 || w[0] != "q") return false;
        auto alts = [](const std::string& x) { std::vector<std::string> r; double v = strtod(x.c_str(), nullptr); char b[40]; snprintf(b, sizeof b, "%.12g", v);
            for (double y : {strtod(b, nullptr), v, v * (1 + 2e-15), v * (1 - 2e-15), v * (1 + 1e-14), v * (1 - 1e-14)}) { auto n = num(y); if (std::find(r.begin(), r.end(), n) == r.end()) r.push_back(n); } return r; };
        std::string in = st.empty() ? "" : st + "\n"; in += "--\n"; 
        for (auto& T : alts(w[3])) for (auto& P : alts(w[4])) { auto v = w; v[3] = T; v[4] = P; in += join(v, " ") + "\n"; }
        z0.request('R', in); ++refRuns;
        for (auto& l : outLines(z0)) if (l[0] == 'R' && compare(mode, dec(l.substr(2)), a).empty()) return true;
        return false;
    }
    Run single(const Plan& p, Zygote& z, bool checkRefs) {
        g_local = p.prop == "C13"; Run r; r.status = z.request('P', p.text()); ++planRuns;
        r.lines = outLines(z); std::map<std::string, std::string> states; struct Q { int op; std::string st, mode, q, a; }; std::vector<Q> qs; bool end = false; int lastO = -1; std::string lastLine; std::string H; uint64_t h = 1469598103934665603ull;
        r.answers.assign(p.lines.size(), ""); 
        for (auto& l : r.lines) {
            char c = l[0];
            if (c == 'O' || c == 'A' || c == 'S' || c == 'Q' || c == 'V' || c == 'H') h = fnv(l, h);
            if (c == 'O') { auto s1 = l.find(' ', 2); lastO = atoi(l.c_str() + 2); lastLine = bare(l.substr(s1 + 1)); }
            else if (c == 'A') { int i = atoi(l.c_str() + 2); auto s1 = l.find(' ', 2); if (i >= 0 && i < (int)r.answers.size()) r.answers[i] = l.substr(s1 + 1); lastLine.clear(); }
            else if (c == 'S') { auto w = words(l); states[w[1]] = dec(w[2]); r.states.push_back(fnv(w[2])); }
            else if (c == 'Q') { auto w = words(l); qs.push_back({atoi(w[1].c_str()), w[2], w[3], dec(w[4]), dec(w[5])}); }
            else if (c == 'V') { int i = atoi(l.c_str() + 2); auto s1 = l.find(' ', 2); std::string m = l.substr(s1 + 1); r.v.push_back({i, m, classOf(m)}); }
            else if (c == 'H') H = l.substr(2);
            else if (c == 'F') { auto w = words(l); r.faults[w[1]] += atol(w[2].c_str()); }
            else if (c == 'P') { auto w = words(l); r.probes[w[1]] += atol(w[2].c_str()); }
            else if (c == 'E' && l != "END") { auto w = words(l); r.steps = strtoull(w[1].c_str(), 0, 10); r.ns = strtoull(w[2].c_str(), 0, 10); r.opens = atol(w[3].c_str()); r.reads = atol(w[4].c_str()); r.writes = atol(w[5].c_str()); r.accesses = strtoull(w[6].c_str(), 0, 10); r.conflicts = strtoull(w[7].c_str(), 0, 10); }
            else if (c == 'X') { r.X = l; r.sched = fnv(l); }
            else if (l == "END") end = true;
        }
        r.hash = h;
        if (!end) {
            std::string op = lastLine.empty() ? "end of run" : words(lastLine)[0], m; if (op == "q" && words(lastLine).size() > 2) op += "." + words(lastLine)[2];
            if (WIFSIGNALED(r.status)) { int s = WTERMSIG(r.status); if (s == SIGALRM || s == SIGXCPU || s == SIGKILL) { r.wall = true; m = "hang (time limit)"; } else m = "crash signal " + std::string(s == SIGSEGV ? "SEGV" : s == SIGABRT ? "ABRT" : s == SIGFPE ? "FPE" : s == SIGBUS ? "BUS" : "other"); }
            else if (WEXITSTATUS(r.status) == 96) m = "deadlock"; else m = H.empty() ? "run ended early, exit " + I(WEXITSTATUS(r.status)) : starts(H, "operation exceeded") ? "hang (step budget)" : H;
            m += " in " + op; r.v.push_back({lastO, m + " : " + lastLine, m});
        }
        if (!checkRefs) return r;
        // the reference answers
        std::map<std::string, std::vector<std::string>> need; auto key = [&](const std::string& st, const std::string& q) { return fnv(q, fnv(st + "\n--\n")); };
        for (auto& q : qs) { auto& st = states[q.st]; uint64_t k = key(st, q.q); if (!refs.count(k)) { auto& v = need[st]; if (std::find(v.begin(), v.end(), q.q) == v.end()) v.push_back(q.q); } }
        if (refs.size() > 300000) refs.clear();
        for (auto& n : need) {
            std::string in = n.first; if (!in.empty()) in += "\n"; in += "--\n"; for (auto& q : n.second) in += q + "\n";
            int s = z0.request('R', in); ++refRuns; auto L = outLines(z0); std::vector<std::string> a; for (auto& l : L) if (l[0] == 'R') a.push_back(dec(l.substr(2)));
            for (size_t i = 0; i < n.second.size(); ++i) refs[key(n.first, n.second[i])] = i < a.size() ? a[i] : "reference failed " + I(s);
        }
        for (auto& q : qs) {
            ++r.checks; auto it = refs.find(key(states[q.st], q.q)); if (it == refs.end()) { r.v.push_back({q.op, "no reference answer", "no reference answer"}); continue; }
            auto why = compare(q.mode, it->second, q.a);
            if (!why.empty() && q.mode != "x" && !starts(q.mode, "sum:") && nearby(states[q.st], q.q, q.mode, q.a)) why.clear();
            if (!why.empty()) {
                auto w = words(q.q); std::string op = q.op < (int)p.lines.size() ? words(threadOf(p.lines[q.op]) >= 0 ? p.lines[q.op].substr(3) : bare(p.lines[q.op]))[0] : "end"; std::string f = w[0] == "q" && w.size() > 2 ? w[2] : w[0];
                std::string cls = op + ":" + f + (q.mode == "x" || starts(q.mode, "sum:") ? "" : " cell") + " answer " + why;
                r.v.push_back({q.op, cls + " | " + q.q + (q.mode == "x" ? "" : " [" + q.mode + "]") + "\n   fresh engine: " + it->second + "\n   here:         " + q.a, cls});
            }
        }
        std::stable_sort(r.v.begin(), r.v.end(), [](const Violation& a, const Violation& b) { return a.op < b.op; });
        return r;
    }
    Run run(const Plan& p) {
        Run r = single(p, z0, true);
        if (p.prop == "C10") {
            struct Alt { Zygote* z; int mode; const char* n; };
            Alt alts[] = {{&z0, (p.heapMode + 1) % heap::nFillModes, "another heap and stack fill"}, {&z1, (p.heapMode + 2) % heap::nFillModes, "zeroed automatic variables"}, {&z2, (p.heapMode + 3) % heap::nFillModes, "patterned automatic variables"}};
            for (auto& a : alts) {
                Plan q = p; q.heapMode = a.mode; q.heapSeed = p.heapSeed + 17; Run s = single(q, *a.z, false); r.steps += s.steps;
                for (size_t i = 0; i < p.lines.size(); ++i) if (s.answers[i] != r.answers[i]) {
                    auto w = words(bare(p.lines[i])); std::string cls = "memory contents show in " + w[0] + (w[0] == "q" ? "." + w[2] : "");
                    r.v.push_back({(int)i, cls + " (" + a.n + ") | " + p.lines[i] + "\n   first:  " + dec(r.answers[i]) + "\n   second: " + dec(s.answers[i]), cls}); break; }
                for (auto& x : s.v) if (!r.has(x.cls)) r.v.push_back(x);
                r.hash = fnv(&s.hash, 8, r.hash);
            }
            std::stable_sort(r.v.begin(), r.v.end(), [](const Violation& a, const Violation& b) { return a.op < b.op; });
        }
        return r;
    }
    // ------------------------------------------------------------- minimisation
    long tries = 0; double until = 0; static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
    bool still(const Plan& p, const std::string& cls) { if (++tries > 600 || now() > until) return false; return run(p).has(cls); }
    template <class V, class F> void ddmin(V& items, F test) {
        size_t n = 2;
        while (items.size() >= 1) {
            size_t chunk = std::max<size_t>(1, items.size() / n); bool reduced = false;
            for (size_t at = 0; at < items.size(); ) {
                V t(items.begin(), items.begin() + at); t.insert(t.end(), items.begin() + std::min(items.size(), at + chunk), items.end());
                if (test(t)) { items = t; reduced = true; } else at += chunk;
                if (tries > 600 || now() > until) return;
            }
            if (chunk == 1 && !reduced) return;
            if (!reduced) n = std::min(items.size(), n * 2); else n = std::max<size_t>(2, n - 1);
            if (items.empty()) return;
        }
    }
    Plan minimise(Plan p, const std::string& cls, double seconds) {
        tries = 0; until = now() + seconds;
        { Run r = run(p); int at = -1; for (auto& x : r.v) if (x.cls == cls) { at = x.op; break; } bool thr = false; for (auto& l : p.lines) thr |= threadOf(l) >= 0;
          if (!thr && at >= 0 && at + 1 < (int)p.lines.size()) { Plan q = p; q.lines.resize(at + 1); if (still(q, cls)) p = q; } }
        ddmin(p.lines, [&](const std::vector<std::string>& t) { Plan q = p; q.lines = t; return still(q, cls); });
        for (auto& l : p.lines) if (starts(l, "on ")) { auto o = l; l = bare(l); if (!still(p, cls)) l = o; }
        for (size_t i = 0; i < p.lines.size(); ++i) {        // fault tokens and list items
            auto w = words(p.lines[i]);
            for (size_t k = w.size(); k-- > 1; ) if (w[k][0] == '!' || starts(w[k], "file=")) { auto w2 = w; w2.erase(w2.begin() + k); Plan q = p; q.lines[i] = join(w2, " "); if (still(q, cls)) { p = q; w = w2; } }
            for (size_t k = 1; k < w.size(); ++k) if (w[k].find(',') != std::string::npos && w[k].size() > 3) {
                auto it = split(w[k], ','); ddmin(it, [&](const std::vector<std::string>& t) { if (t.empty()) return false; auto w2 = w; w2[k] = join(t, ","); Plan q = p; q.lines[i] = join(w2, " "); return still(q, cls); });
                w[k] = join(it, ","); p.lines[i] = join(w, " "); }
        }
        if (p.heapMode) { Plan q = p; q.heapMode = 0; q.heapSeed = 1; if (still(q, cls)) p = q; }
        if (p.sched.kind != "none") {
            Run r = run(p); Plan q = p; q.sched.kind = "list"; q.sched.list.clear(); auto w = words(r.X); for (size_t i = 1; i < w.size(); ++i) { auto t = split(w[i], ':'); q.sched.list.push_back({strtoull(t[0].c_str(), 0, 10), atoi(t[1].c_str())}); }
            tries = 0; until = now() + seconds / 2;
            if (!r.X.empty() && still(q, cls)) { p = q; auto L = p.sched.list; ddmin(L, [&](const std::vector<std::pair<uint64_t, int>>& t) { Plan z = p; z.sched.list = t; return still(z, cls); }); p.sched.list = L; }
        }
        return p;
    }
};
static std::string flat(const std::string& s) { std::string r; for (char c : s) r += c == '\n' || c == '\x01' ? ' ' : c; return r; }
static std::string lines1(const std::string& s) { std::string r = "# "; for (char c : s) { if (c == '\x01') c = '\n'; r += c; if (c == '\n') r += "# "; } return r; }
static std::string jstr(const std::string& s) { return json(s).dump(-1, ' ', true, json::error_handler_t::replace); }

static int replayFile(Driver& d, const std::string& file, bool verbose) {
    std::string t = slurp(file); Plan p = Plan::parse(t); Run r = d.run(p);
    if (verbose) for (auto& l : r.lines) std::cout << flat(l) << "\n";
    std::string want; std::istringstream s(t); std::string l; while (std::getline(s, l)) if (starts(l, "# class: ")) want = l.substr(9);
    std::cout << "transcript " << hex(r.hash) << "\n";
    for (auto& v : r.v) { std::string m = v.msg; for (auto& c : m) if (c == '\x01') c = '\n'; std::cout << "violation at operation " << v.op << " [" << v.cls << "] " << m << "\n"; }
    if (want.empty()) return r.v.empty() ? 0 : 1;
    return r.has(want) ? 1 : 0;
}
static int worker(Driver& d, char** a, int n) {
    std::string prop = a[0]; uint64_t first = strtoull(a[1], 0, 10), stride = strtoull(a[2], 0, 10); long count = atol(a[3]); double secs = atof(a[4]); bool deep = atoi(a[5]); std::string out = a[6]; std::set<std::string> known; if (n > 7) { std::ifstream i(a[7]); std::string l; while (std::getline(i, l)) if (!l.empty()) known.insert(l); }
    double t0 = Driver::now(); long runs = 0, ops = 0, checks = 0, nontriv = 0, repeat = 0, nondet = 0, wall = 0; uint64_t steps = 0, ns = 0, acc = 0, conf = 0; long opens = 0, reads = 0, writes = 0, opf = 0;
    std::map<std::string, long> faults, probes, knownHits; std::unordered_set<uint64_t> tr, ntr, sc, st, bi; json samples = json::array(), viol = json::array(); std::set<std::string> seen; int minimised = 0; long switches = 0;
    std::ofstream hs(out + "/hashes-" + std::to_string(first), std::ios::trunc);
    int maxv = getenv("SIM_MAXV") ? atoi(getenv("SIM_MAXV")) : 3; double minSecs = getenv("SIM_MINSECS") ? atof(getenv("SIM_MINSECS")) : 40; std::string stop = out + "/stop"; int deepOf = atoi(a[5]);
    for (long i = 0; i < count && Driver::now() - t0 < secs && minimised < maxv && access(stop.c_str(), F_OK); ++i) {
        if (deepOf > 1) deep = i % deepOf == deepOf - 1;          // 0 never, 1 always, n every n-th run
        uint64_t seed = first + i * stride; Plan p = generate(prop, seed, deep); Run r = d.run(p);
        ++runs; ops += (long)p.lines.size(); checks += r.checks; steps += r.steps; ns += r.ns; acc += r.accesses; conf += r.conflicts; opens += r.opens; reads += r.reads; writes += r.writes;
        for (auto& f : r.faults) { faults[f.first] += f.second; opf += f.second; } for (auto& f : r.probes) probes[f.first] += f.second;
        if (tr.insert(r.hash).second) hs << "t " << hex(r.hash) << "\n"; if (r.sched && sc.insert(r.sched).second) hs << "s " << hex(r.sched) << "\n"; for (auto x : r.states) if (st.insert(x).second) hs << "e " << hex(x) << "\n";
        if (!r.X.empty()) switches += (long)words(r.X).size() - 1;
        { std::string prev; for (size_t k = 0; k < p.lines.size(); ++k) { auto w = words(threadOf(p.lines[k]) >= 0 ? p.lines[k].substr(3) : bare(p.lines[k])); std::string cur = w[0] + (w[0] == "q" && w.size() > 2 ? "." + w[2] : ""); cur += starts(r.answers[k], "error") ? "!" : r.answers[k] == "skip" ? "-" : ""; uint64_t h = fnv(prev + ">" + cur); if (bi.insert(h).second) hs << "b " << hex(h) << "\n"; prev = cur; } }
        long fsum = 0; for (auto& f : r.faults) fsum += f.second;
        bool nt = r.checks >= 2 || fsum > 0 || (prop == "C05" || prop == "C06" || prop == "C11" || prop == "C07" ? p.lines.size() >= 5 : false); nontriv += nt; if (nt && ntr.insert(r.hash).second) hs << "n " << hex(r.hash) << "\n";
        if (i % 64 == 7) { Run r2 = d.run(p); ++repeat; if (r2.hash != r.hash || r2.sched != r.sched) { ++nondet; std::cerr << "nondeterministic run: seed " << seed << "\n"; } }
        if (samples.size() < 3 && nt && i % 5 == 2) samples.push_back(json{{"seed", seed}, {"heap_fill", p.heapMode}, {"operations", std::vector<std::string>(p.lines.begin(), p.lines.begin() + std::min<size_t>(12, p.lines.size()))}, {"transcript", hex(r.hash)}});
        for (auto& v : r.v) {
            if (known.count(v.cls)) { ++knownHits[v.cls]; continue; }
            if (seen.count(v.cls)) continue;
            // the same plan again, in a process tree of its own: it has to come out the same
            Run again = d.run(p); 
            if (!again.has(v.cls)) { if (r.wall) { ++wall; continue; } ++nondet; std::cerr << "not reproduced: seed " << seed << " " << flat(v.msg).substr(0, 300) << "\n"; continue; }
            seen.insert(v.cls); ++minimised;
            if (getenv("SIM_STOP")) std::ofstream(stop).put('s'); Plan m = d.minimise(p, v.cls, minSecs); Run f = d.run(m); std::string msg = v.msg; if (!f.has(v.cls)) { m = p; f = d.run(p); } for (auto& x : f.v) if (x.cls == v.cls) { msg = x.msg; break; }
            std::string file = out + "/" + prop + "-" + std::to_string(seed) + "-" + I(minimised) + ".plan"; { std::ofstream o(file); auto t = m.text(); auto nl = t.find('\n'); o << t.substr(0, nl + 1) << "# class: " << v.cls << "\n# transcript: " << hex(f.hash) << "\n# found with seed " << seed << ", " << p.lines.size() << " operations, minimised to " << m.lines.size() << "\n" << lines1(msg) << "\n" << t.substr(nl + 1); }
            viol.push_back(json{{"class", v.cls}, {"seed", seed}, {"file", file}, {"hash", hex(f.hash)}, {"message", flat(msg).substr(0, 2000)}});
            break;
        }
    }
    json o{{"runs", runs}, {"operations", ops}, {"checks", checks}, {"nontrivial", nontriv}, {"steps", steps}, {"simulated_ns", ns}, {"accesses", acc}, {"conflicts", conf}, {"switches", switches}, {"opens", opens}, {"reads", reads}, {"writes", writes}, {"faults", faults}, {"probes", probes}, {"known", knownHits}, {"repeats", repeat}, {"nondeterministic", nondet}, {"timeouts_not_reproduced", wall}, {"seconds", Driver::now() - t0}, {"samples", samples}, {"violations", viol}, {"reference_processes", d.refRuns}, {"plan_processes", d.planRuns}};
    std::cout << o.dump(-1, ' ', true, json::error_handler_t::replace) << std::endl;
    return 0;
}
int main(int argc, char** argv) {
    if (argc >= 1 && std::string(argv[0]) == "zyg") return zygote();
    char self[4096]; ssize_t k = readlink("/proc/self/exe", self, 4095); self[k > 0 ? k : 0] = 0; g_exeDir = std::filesystem::path(self).parent_path().string();
    const char* dt = getenv("SIMDATA"); g_data = dt ? dt : "/verif/data/base.json"; loadBase(g_data);
    if (argc < 3) return 2; std::string mode = argv[1];
    if (mode == "gen") { std::cout << generate(argv[2], strtoull(argv[3], 0, 10), argc > 4 && atoi(argv[4])).text(); return 0; }
    signal(SIGPIPE, SIG_IGN);
    char tmpl[64]; snprintf(tmpl, 64, "%s/thermofunsimXXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"); if (!mkdtemp(tmpl)) { snprintf(tmpl, 64, "/tmp/thermofunsimXXXXXX"); if (!mkdtemp(tmpl)) return 2; } g_scratch = tmpl;
    int rc = 2; { Driver d; d.init(); if (mode == "replay") rc = replayFile(d, argv[2], argc > 3); else if (mode == "worker" && argc >= 9) rc = worker(d, argv + 2, argc - 2); d.stop(); }
    std::error_code ec; std::filesystem::remove_all(g_scratch, ec); return rc;
}
