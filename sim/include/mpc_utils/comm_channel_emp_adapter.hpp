#ifndef SIM_MPC_UTILS_COMM_CHANNEL_EMP_ADAPTER_HPP_
#define SIM_MPC_UTILS_COMM_CHANNEL_EMP_ADAPTER_HPP_
#include <memory>

#include "absl/memory/memory.h"
#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/statusor.h"
namespace mpc_utils {
class CommChannelEMPAdapter {
 public:
  static StatusOr<std::unique_ptr<CommChannelEMPAdapter>> Create(
      comm_channel* channel, bool direct_connection = false) {
    if (!channel) return InvalidArgumentError("`channel` must not be NULL");
    return absl::WrapUnique(new CommChannelEMPAdapter(
        channel->sim_endpoint()->open_adapter(direct_connection)));
  }
  void send_data(const void* data, int64_t len) { ad_->send(data, len); }
  void recv_data(void* data, int64_t len) { ad_->recv(data, len); }
  void flush() { ad_->flush(); }
  sim::Adapter* sim_adapter() const { return ad_; }

 private:
  explicit CommChannelEMPAdapter(sim::Adapter* ad) : ad_(ad) {}
  sim::Adapter* ad_;
};
}  // namespace mpc_utils
#endif
