// Seed -> plan: workload, faults, memory contents and schedule of one simulated run.
#pragma once
#include "base.hpp"
#include "sched.hpp"
namespace sim {
struct Plan {
    std::string prop; uint64_t seed = 0; int heapMode = 0; uint64_t heapSeed = 1;
    sched::Policy sched; std::vector<std::string> lines;
    std::string text() const;
    static Plan parse(const std::string& text);
};
Plan generate(const std::string& prop, uint64_t seed, bool deep);
}
