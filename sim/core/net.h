// Simulated two-party network: reliable ordered byte streams with adversarial
// buffering, latency, segmentation, outages, and connection loss.
#ifndef SIM_CORE_NET_H_
#define SIM_CORE_NET_H_
#include <stdint.h>

#include <deque>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "core/sim.h"

namespace sim {

// What a party sees when the connection breaks.
struct ConnectionLost : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// Unwinds the crashed party; deliberately not a std::exception.
struct CrashNow {};

[[noreturn]] void protocol_desync(const std::string& what);

class Endpoint;
struct Net;

struct Stream {  // one direction of a link
  std::vector<uint8_t> unflushed;
  std::deque<uint8_t> rx;              // delivered, not yet consumed
  uint64_t written = 0, flushed = 0, delivered = 0, consumed = 0;
  uint64_t last_delivery = 0;
  uint64_t inflight = 0;
  bool closed_by_sender = false;       // no more data will ever be flushed
  bool eof = false;                    // receiver has been told
  bool reset = false;                  // receiver side is gone
  bool reset_seen = false;             // sender has been told
  uint64_t lost_from = UINT64_MAX;     // bytes at or behind this offset never arrive
};
struct Link {
  Stream dir[2];                       // dir[s]: written by side s
  bool used[2] = {false, false};
};

struct ChanView {
  const Endpoint* e;
  uint64_t bytes_sent() const;
  uint64_t bytes_received() const;
};

class Adapter {
 public:
  Adapter(Endpoint* e, int idx, Link* l) : ep(e), index(idx), link(l) {}
  void send(const void* p, int64_t n);
  void recv(void* p, int64_t n);
  void flush();
  Endpoint* ep;
  int index;
  Link* link;                    // null: tunnelled through the main channel
  std::deque<uint8_t> tunnel_rx;
  uint64_t ot_count = 0;
  bool in_ot = false;
};

struct TranscriptItem { bool ot; uint32_t offset, len; };

class Endpoint {
 public:
  int id() const { return id_; }
  int peer_id() const { return peer_id_; }
  bool measured() const { return measured_; }
  ChanView chan() const { return ChanView{this}; }
  void send_message(const std::vector<uint8_t>& b);
  std::vector<uint8_t> recv_message();
  void flush();
  void sync();
  Adapter* open_adapter(bool direct);
  void close();                        // orderly local close (connection gone)

  uint64_t sent() const;               // bytes handed to the transport
  uint64_t unflushed() const;
  uint64_t received() const;           // bytes consumed

  // raw stream operations with crash points
  void write(Link* l, const void* p, size_t n);
  void read(Link* l, void* p, size_t n);
  void do_flush(Link* l);
  void op(const char* what);           // crash point + yield

  Net* net = nullptr;
  int side = 0;
  int id_ = 0, peer_id_ = 1;
  bool measured_ = false;
  bool dead = false;                   // crashed or closed
  uint64_t ops = 0;                    // transport operations so far
  int64_t crash_at = -1;               // op number at which this party crashes
  int crash_mode = 0;                  // 0 before, 1 after, 2 torn flush
  bool crashed = false;
  bool crash_pending = false;
  bool record = false;
  std::vector<uint8_t> seen_plain;     // bytes received outside OT
  std::vector<std::vector<uint8_t>> msgs;   // messages received on the channel
  std::vector<uint8_t> seen_ot;        // blocks obtained from OT as receiver
  std::vector<uint8_t> seen_in;        // pairs put into OT as sender
  uint64_t cots = 0;                   // correlated OTs run, in either role
  std::vector<std::unique_ptr<Adapter>> adapters;
  [[noreturn]] void crash(bool torn);
  void crash_effects(bool torn);
  [[noreturn]] void fail(const char* what);
  void lose();                         // the connection breaks, the party lives on
  void die();                          // drop all connections of this side
};

struct Net {  // one session between two parties
  Net(int world, int pair, int id0, int id1, bool measured, uint64_t salt);
  int world, pair;
  uint64_t salt;
  Endpoint ep[2];
  Link main;
  std::vector<std::unique_ptr<Link>> direct;
  std::vector<Link*> links();
  bool quiet(std::string* why);        // nothing unflushed, in flight or unread
};

class OTSender {
 public:
  OTSender(Adapter* a, char kind, int64_t n);
  void put(int64_t i, const void* m0, const void* m1);
  void random_block(void* out);
  void finish();

 private:
  Adapter* a_;
  char kind_;
  int64_t n_;
  uint64_t ctr_;
  std::vector<uint8_t> d_;
  std::vector<uint8_t> out_;
};
class OTReceiver {
 public:
  OTReceiver(Adapter* a, char kind, int64_t n, const bool* b);
  void get(int64_t i, void* out);

 private:
  Adapter* a_;
  int64_t n_;
  uint64_t ctr_;
  std::vector<uint8_t> r_, in_;
  const bool* b_;
};

}  // namespace sim
#endif
