// Seams owned by the simulator: heap, stack contents, file I/O, logical time.
#pragma once
#include "base.hpp"

namespace sim {

// ---- scope: true while code of the system under test runs on this thread
extern thread_local int t_sut;
struct SutScope { SutScope() { ++t_sut; } ~SutScope() { --t_sut; } };
struct SimScope { int s; SimScope() : s(t_sut) { t_sut = 0; } ~SimScope() { t_sut = s; } };

// ---- heap
namespace heap {
void enable(int fillMode, uint64_t fillSeed);    // fresh/freed memory contents
void armFailure(long nth, bool persistent);      // nth SUT allocation from now throws bad_alloc
long disarm();                                   // allocations failed since arm
long opAllocations();                            // SUT allocations since arm()/resetOp()
void resetOp();
long liveCount(); long liveBytes();              // allocated in SUT scope and not released
const char* corruption();                        // nullptr or what was found
void scanQuarantine();
extern const int nFillModes;
}
// ---- stack contents
void scribbleStack();

// ---- files
namespace io {
struct Fault { std::string role, call, action; long nth; long arg; bool persistent; long seen = 0, fired = 0; };
void clear();
void add(const Fault& f);          // counted per SUT call on a file of the role
std::vector<Fault>& list();
long openDescriptors();            // descriptors of the process
struct Stats { long opens = 0, reads = 0, writes = 0, closes = 0; };
Stats& stats();
void resetStats();
}

// ---- wall clock as the code under test sees it
namespace timesim { void jump(int64_t ns); int64_t simulatedNs(); long reads(); }

// ---- locale the host program has set: in force while code of the system under test runs
// bit 0: global C++ locale, bit 1: numbers of the C library; both as in German: 1.234,5
namespace locales {
extern int g_host;
bool available();                  // the C library finds data/locale
struct Scope { bool counted, on; Scope(); ~Scope(); };
}

// ---- logical time: instrumented memory accesses of the system under test
extern uint64_t g_steps, g_budget;
void setBudget(uint64_t steps);    // from now; 0: none
extern "C" void sim_on_budget();   // does not return

} // namespace sim
