#pragma once
#include "kernel.h"
#include <string>
#include <vector>

namespace sim {

struct Op {
    int k = 0, a = 0, b = 0, c = 0, d = 0;
};

enum { NPARAM = 40 };
struct Plan {
    std::string prop;
    uint64_t seed = 0;
    int p[NPARAM] = {0};
    std::vector<Op> ops;
    SchedCfg sched;
    bool race = false, uaf = false, leak = false;
};

struct Scenario {
    const char *prop;
    const char *name;
    // fills p[] / ops (and may tune the schedule configuration) from the seed
    void (*gen)(Rng &, Plan &);
    // executes the plan inside the simulated process (runs as the driver fiber, returns at the end of the run)
    void (*run)(Plan &);
    // text for one operation
    const char *const *op_names;
    const char *const *param_names;
    uint32_t weight = 1;
    bool wants_race = false;
    // a scenario lent by another property: the classes (prefixes, separated by blanks) which count
    const char *only = nullptr;
};

void register_scenario(const Scenario &);
struct Reg {
    Reg(const Scenario &s) { register_scenario(s); }
};

} // namespace sim
