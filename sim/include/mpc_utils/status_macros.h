#ifndef SIM_MPC_UTILS_STATUS_MACROS_H_
#define SIM_MPC_UTILS_STATUS_MACROS_H_
#include "mpc_utils/status.h"
#include "mpc_utils/statusor.h"
#define SIM_SM_CONCAT_(a, b) a##b
#define SIM_SM_CONCAT(a, b) SIM_SM_CONCAT_(a, b)
#define RETURN_IF_ERROR(expr)                      \
  do {                                             \
    const ::mpc_utils::Status sim_st_ = (expr);    \
    if (!sim_st_.ok()) return sim_st_;             \
  } while (0)
#define ASSIGN_OR_RETURN(lhs, rexpr) \
  SIM_AOR_IMPL(SIM_SM_CONCAT(sim_statusor_, __LINE__), lhs, rexpr)
#define SIM_AOR_IMPL(so, lhs, rexpr)      \
  auto so = (rexpr);                      \
  if (!so.ok()) return so.status();       \
  lhs = std::move(so).ValueOrDie()
#endif
