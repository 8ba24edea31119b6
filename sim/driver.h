// What a harness provides, and the main program around it.
#pragma once
#include "rt.h"

namespace sim {

struct Scenario {
    std::string description;          // The workload, for reports and evidence.
    Params params;
    std::function<void()> body;       // Runs as simulated thread 0.
    bool nontrivial = true;
};

// Provided by the harness.  Makes the workload of one seed; everything random
// in it comes from rng.
Scenario make_scenario(Rng& rng, uint64_t seed);
// Called once, unsimulated, before the first run.
void warm_up();

// Fills in scheduling parameters, swarm style.
void swarm_schedule(Rng& rng, Params& p);
// Whether this finding is listed in known_findings.json; counts it if so.
bool known_finding(char const* id);
std::string option(char const* name, char const* fallback);   // --opt name=value

} // namespace sim
