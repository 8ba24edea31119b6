// Shared between the parts of the runtime and the driver.
#pragma once
#include "rt.h"
namespace sim {
Result current_result();
std::string current_description();
std::string current_context();
uint64_t current_seed();
int64_t stalled_ns();
bool io_active();
void io_point(int kind);
} // namespace sim
