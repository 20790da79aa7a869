#ifndef SIM_MPC_UTILS_BENCHMARKER_HPP_
#define SIM_MPC_UTILS_BENCHMARKER_HPP_
namespace mpc_utils {
class Benchmarker {};
}  // namespace mpc_utils
#endif
