// Stand-in for mpc_utils::comm_channel: the transport seam of the library. All
// bytes go through the simulated network (sim/core/net.h).
#ifndef SIM_MPC_UTILS_COMM_CHANNEL_HPP_
#define SIM_MPC_UTILS_COMM_CHANNEL_HPP_
#include <cmath>
#include <memory>
#include <numeric>
#include <string>
#include <vector>

#include "core/net.h"
#include "mpc_utils/serialize_sim.h"

namespace mpc_utils {

class comm_channel {
 public:
  comm_channel(sim::Endpoint* ep) : ep_(ep) {}
  comm_channel(const comm_channel&) = delete;
  comm_channel& operator=(const comm_channel&) = delete;

  int get_id() const { return ep_->id(); }
  int get_peer_id() const { return ep_->peer_id(); }
  bool is_measured() const { return ep_->measured(); }
  int64_t get_num_bytes_sent() const { return ep_->chan().bytes_sent(); }
  int64_t get_num_bytes_received() const { return ep_->chan().bytes_received(); }

  template <class T>
  void send(const T& v) {
    sim::Writer w;
    w.put(v);
    ep_->send_message(w.buf);
  }
  template <class T>
  void recv(T& v) {
    std::vector<uint8_t> b = ep_->recv_message();
    sim::Reader r(b);
    try {
      r.get(v);
      if (!r.done()) throw sim::WireError("message longer than expected");
    } catch (const sim::WireError& e) {
      sim::protocol_desync(std::string("channel: ") + e.what());
    }
  }
  template <class T>
  T recv() { T v; recv(v); return v; }
  void flush() { ep_->flush(); }
  void sync() { ep_->sync(); }

  sim::Endpoint* sim_endpoint() const { return ep_; }

 private:
  sim::Endpoint* ep_;
};

}  // namespace mpc_utils
using mpc_utils::comm_channel;
#endif
