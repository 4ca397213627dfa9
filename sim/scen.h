// Scenario registry.
#pragma once
#include "world.h"
namespace sim {
struct Scenario { const char* name; void (*fn)(Ctx&); const char* props; int weight; bool deep = false; }; // deep: thorough tier only
const std::vector<Scenario>& scenarios();
void add_scenario(const Scenario& s);
struct Reg { Reg(const Scenario& s) { add_scenario(s); } };
}
