// Cooperative scheduler: real threads, exactly one of which runs at a time;
// who runs next is decided at instrumented memory accesses.
#pragma once
#include "base.hpp"
#include <functional>

namespace sim { namespace sched {
struct Policy {
    std::string kind = "none";      // none | rand | pct | conflict | global | list
    uint64_t seed = 1;
    double prob = 0.001;            // rand: per access; conflict: per conflicting access; global: per write to a variable of the program
    int depth = 3;                  // pct: number of priority change points
    uint64_t horizon = 200000;      // pct: expected number of accesses
    std::vector<std::pair<uint64_t, int>> list;   // list: (access number, thread)
};
struct Result {
    std::vector<std::pair<uint64_t, int>> switches;  // what was done, replayable as a list
    uint64_t accesses = 0, conflicts = 0;
    bool deadlock = false;
};
// runs the bodies to completion under the policy
Result run(const std::vector<std::function<void()>>& bodies, const Policy& p);
int self();                         // -1 outside
}}
