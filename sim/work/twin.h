// Twin executions of a vector OLE expansion that differ in nothing but one
// party's randomness from a chosen operation on.
#ifndef SIM_WORK_TWIN_H_
#define SIM_WORK_TWIN_H_
#include "work/gen.h"
namespace sim {
struct TwinOut { bool ok = false; Ring ring; std::vector<std::vector<u128>> u, v; };
Plan twin_plan(Gen& g, int profile, bool any_type = false);
TwinOut twin_run(const Plan& p);
}  // namespace sim
#endif
