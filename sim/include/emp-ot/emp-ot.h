// Stand-in for emp-ot's SHOTExtension: a dealer-model derandomised OT. The
// trusted dealer (sim/core/net.cpp) supplies correlated random OTs; what the
// parties exchange (choice corrections, padded messages) goes over the real
// adapter, so blocking, flushing and faults behave as with any OT.
#ifndef SIM_EMP_OT_H_
#define SIM_EMP_OT_H_
#include <emmintrin.h>

#include <cstdint>
#include <cstring>
#include <iostream>
#include <memory>
#include <string>
#include <vector>

#include "core/net.h"
namespace emp {
using namespace std;
using block = __m128i;
inline block makeBlock(int64_t high, int64_t low) { return _mm_set_epi64x(high, low); }
inline void initialize_relic() {}

template <typename IO>
class SHOTExtension {
 public:
  explicit SHOTExtension(IO* io) : io_(io) {}
  void send(const block* data0, const block* data1, int64_t length) {
    sim::OTSender s(io_->sim_adapter(), 'o', length);
    for (int64_t i = 0; i < length; i++) s.put(i, &data0[i], &data1[i]);
    s.finish();
  }
  void recv(block* data, const bool* b, int64_t length) {
    sim::OTReceiver r(io_->sim_adapter(), 'o', length, b);
    for (int64_t i = 0; i < length; i++) r.get(i, &data[i]);
  }
  template <class Correlator>
  void send_cot_ft(block* data0, Correlator&& f, int64_t length) {
    sim::OTSender s(io_->sim_adapter(), 'c', length);
    for (int64_t i = 0; i < length; i++) {
      block m0;
      s.random_block(&m0);
      data0[i] = m0;
      block m1 = f(m0, static_cast<uint64_t>(i));
      s.put(i, &m0, &m1);
    }
    s.finish();
  }
  void recv_cot(block* data, const bool* b, int64_t length) {
    sim::OTReceiver r(io_->sim_adapter(), 'c', length, b);
    for (int64_t i = 0; i < length; i++) r.get(i, &data[i]);
  }

 private:
  IO* io_;
};
}  // namespace emp
using namespace std;
#endif
