// Plans, sessions, reference arithmetic and per-type drivers.
#ifndef SIM_WORK_COMMON_H_
#define SIM_WORK_COMMON_H_
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "core/net.h"
#include "core/sim.h"

namespace sim {

using u128 = unsigned __int128;
std::string u128s(u128 v);
u128 parse_u128(const std::string& s);

// ---------------------------------------------------------------- plan
struct Fields {
  std::map<std::string, std::string> kv;
  bool has(const std::string& k) const { return kv.count(k) != 0; }
  int64_t i(const std::string& k, int64_t d = 0) const;
  uint64_t u(const std::string& k, uint64_t d = 0) const;
  double f(const std::string& k, double d) const;
  std::string s(const std::string& k, const std::string& d = "") const;
  std::vector<int64_t> list(const std::string& k) const;
  void set(const std::string& k, int64_t v) { kv[k] = std::to_string(v); }
  void setu(const std::string& k, uint64_t v) { kv[k] = std::to_string(v); }
  void sets(const std::string& k, const std::string& v) { kv[k] = v; }
  void setl(const std::string& k, const std::vector<int64_t>& v);
};
struct Op : Fields { std::string kind; int pair = 0; };
struct Plan {
  std::string property;
  Fields cfg;                       // scenario configuration and scheduler knobs
  std::vector<Op> ops;
  std::vector<TapeEntry> tape;
  bool replay = false;              // tape is authoritative
  std::string text() const;
  static Plan parse(const std::string& text);
};
Knobs knobs_of(const Plan& p);

// ---------------------------------------------------------------- rings
enum TypeId { kU8 = 0, kU16, kU32, kU64, kU128, kGF, kZZp, kzzp, kS16, kS64, kNumTypes };
extern const char* const kTypeNames[kNumTypes];
inline bool is_ntl(int t) { return t == kZZp || t == kzzp; }
int type_bits(int t);               // bits of a fixed-width type

struct Ring {                        // reference arithmetic, independent of the library
  int type = kU64;
  u128 mod = 0;                      // modulus for NTL types
  u128 mask() const;
  u128 reduce(u128 a) const;
  u128 add(u128 a, u128 b) const;
  u128 neg(u128 a) const;
  u128 sub(u128 a, u128 b) const { return add(a, neg(b)); }
  u128 mul(u128 a, u128 b) const;
  u128 random(Rng& r) const;
  double bits() const;
};
struct MulBy {                       // fast multiplication by a fixed element
  MulBy(const Ring& r, u128 c);
  u128 operator()(u128 a) const;
  Ring ring;
  u128 c;
  std::vector<u128> tab;
};

// ---------------------------------------------------------------- session
struct OpOut {
  bool ran = false, done = false, threw = false, crashed = false;
  int code = 0;                      // StatusCode of the library call
  std::string msg;
  std::vector<std::vector<u128>> vals;
  u128 scalar = 0;
  std::vector<int64_t> ints;
  uint64_t sent0 = 0, sent1 = 0, recv0 = 0, recv1 = 0, ops0 = 0, ops1 = 0;
  uint64_t cots0 = 0, cots1 = 0;     // correlated OTs
  uint64_t unflushed = 0;            // bytes this party left unflushed
  bool modulus_kept = true;          // caller's modulus is what it was
  Ring ring;                         // ring in force when the op began
  std::vector<u128> got_msg, got_ot; // what this party was sent, as ring elements (recording sessions)
  std::vector<u128> put_ot;          // pairs this party put into OT
  size_t got_first = 0;              // elements of the first message
  std::vector<u128> got_diff;        // differences of neighbours in one message
  std::vector<u128> got_plain;       // blocks of what it was sent outside of OT, if that is short
  std::vector<uint8_t> view;         // begin and end of the bytes it was sent, see collect()
  uint64_t view_plain = 0, view_ot = 0, view_msgs = 0;
};

struct Session;
struct World;
struct Party {
  Session* s = nullptr;
  int side = 0;
  Endpoint* ep = nullptr;
  std::shared_ptr<void> channel;                       // mpc_utils::comm_channel
  std::map<std::string, std::shared_ptr<void>> inst;   // protocol instances
  Ring ring_ntl[2];                                    // current moduli: ZZ_p, zz_p
  Ring ring(int type) const;
  std::vector<OpOut> out;
  Task* task = nullptr;
  bool stopped = false;                                // a fault ended this party's script
  int64_t alloc_fail_at = INT64_MAX;
  uint64_t allocs = 0;
  size_t finished = 0;                                 // ops completed
};
struct SlotState {
  bool known = false;
  u128 delta = 0;
  // Elements handed out since the last precomputation against the traffic
  // spent on them, see check_values().
  bool counted = false;              // the size of an expansion is known
  int64_t batch = 0, taken = 0, expansions = 0;
  double bytes = 0, least = 0;
};
struct Session {
  const Plan* plan = nullptr;
  int world = 0, pair = 0;
  World* w = nullptr;
  std::unique_ptr<Net> net;
  Party party[2];
  std::vector<const Op*> ops;
  double sec = 40;
  bool faulted = false;              // this session may legitimately fail
  std::map<std::string, SlotState> slots;   // VOLE instances: offset in force
  int twin = 0;
  bool go_on = false;                // parties keep calling after a failed call
  bool broken = false;               // a call of this session has failed
  int64_t crash_side = -1;           // side with an injected crash
};

// Executes one op for one party (dispatches on type). Never throws except
// CrashNow / ConnectionLost.
void exec_op(Party& p, const Op& op, OpOut& out);

struct TypeDriver {
  virtual ~TypeDriver() = default;
  virtual bool exec(Party& p, const Op& op, OpOut& out) = 0;   // false: op not known
};
TypeDriver* driver(int type);
TypeDriver* vole_driver(int type);
void register_driver(int type, TypeDriver* d);
void register_vole_driver(int type, TypeDriver* d);
bool exec_hash(Party& p, const Op& op, OpOut& out);
bool exec_rng(Party& p, const Op& op, OpOut& out);
bool exec_prim(Party& p, const Op& op, OpOut& out);
void omp_release();
void set_modulus(int type, u128 mod);
void set_modulus_wide(const std::string& decimal);
u128 current_modulus(int type);

// Builds sessions, runs all ops of both parties, checks every op.
struct World {
  World(const Plan& plan, int world, bool faulted = false);
  bool faulted;
  std::map<u128, std::string> seen;  // random elements met so far
  std::map<u128, std::string> sent;  // masked elements met so far
  std::map<u128, std::string> apart; // differences of masked elements met so far
  ~World();
  void add_session(int pair, std::unique_ptr<Net> net, std::vector<const Op*> ops);
  void start();
  void wait();
  const Plan& plan;
  int id;
  std::vector<std::unique_ptr<Session>> sessions;
  std::vector<std::pair<Task*, uint64_t>> tasks;
};

// Oracles.
struct Oracle {
  bool shares = true;        // outputs satisfy the protocol's relation
  bool status = true;        // valid calls must succeed
  bool drained = true;       // nothing unread/unflushed when both finished an op
  bool fresh = false;        // uniqueness of random elements
  bool agree = true;         // hashing results of both parties agree
  bool uniform = false;      // masks drawn by hashing are uniform but for 2^-security
  bool modulus = true;       // caller's modulus unchanged
};
extern Oracle g_oracle;
void check_op(Session& s, size_t k);             // both parties finished op k
void note_fresh(Session& s, const Ring& r, const std::vector<u128>& v, const std::string& what);
std::string op_text(const Op& op);
std::string derive_withheld(const std::vector<std::vector<u128>>& got, const std::vector<int64_t>& withheld,
                            const std::vector<u128>& secret, const std::vector<u128>& keys, const std::vector<u128>& blocks,
                            const Ring& ring);
std::vector<int64_t> op_indices(const Op& op);                 // normalised to the sizes
std::vector<int64_t> mp_indices(const Op& op);

std::vector<u128> gen_values(const Ring& r, uint64_t seed, size_t n, int style);

// Harness-side data shared between parties must not look like races of the
// library.
struct NoRace {
  Task* t;
  NoRace() : t(self()) { if (t) { t->no_race++; t->no_preempt++; } }
  ~NoRace() { if (t) { t->no_race--; t->no_preempt--; } }
};

// ---------------------------------------------------------------- scenarios
struct Scenario {
  virtual ~Scenario() = default;
  virtual Plan generate(uint64_t seed, int tier, uint64_t index) = 0;
  virtual void execute(const Plan& p) = 0;       // inside the simulation
  virtual std::string describe() { return ""; }
  // Batch-level oracle over aux/extra of all runs; empty: nothing to report.
  virtual bool aggregate(const Result& r, const Plan& p) { return false; }
  virtual std::string batch_verdict(std::string* cls) { return ""; }
};
double insertion_failure(int64_t n, double sec, int nf);
int64_t optimal_buckets(int64_t n, double sec);   // as the multi-point protocol chooses them
int64_t vole_max_batch(double sec);               // largest batch the sizes table in force supports
bool vole_scaled(int profile);                    // the vector OLE's sizes table follows a profile
extern const int kViewHead, kViewTail, kViewOT;
Scenario* scenario(const std::string& property);
void register_scenario(const std::string& property, Scenario* s);
std::vector<std::string> scenario_names();

}  // namespace sim
#endif
