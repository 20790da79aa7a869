// Deterministic simulator core: tasks (real threads parked and released one at
// a time), virtual time, decision tape, run outcome.
#ifndef SIM_CORE_SIM_H_
#define SIM_CORE_SIM_H_
#include <pthread.h>
#include <stdint.h>

#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- decisions
// Every nondeterministic choice of a run is a decision with default 0. A run is
// a pure function of (plan, decisions that differ from 0).
enum class Dec : uint8_t {
  kSched = 0,   // which runnable task continues
  kStall,       // stall the current task (virtual time)
  kLatency,     // network latency of a segment
  kSplit,       // where a flush is cut into segments
  kSpill,       // early partial delivery of unflushed bytes
  kOutage,      // link outage before a segment
  kChunk,       // chunk size handed out by a dynamic/guided loop
  kPreempt,     // accesses until the next preemption point (instrumented build)
  kShortRecv,   // socket hands over fewer bytes than available
  kCount
};
const char* dec_name(Dec d);

struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  void reseed(uint64_t seed);
  uint64_t next();
  uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
  bool chance(uint32_t per1024) { return below(1024) < per1024; }
};
uint64_t mix64(uint64_t x);
inline uint64_t mix2(uint64_t a, uint64_t b) { return mix64(a ^ mix64(b + 0x9e3779b97f4a7c15ull)); }

struct Knobs {  // per-run scheduler and fault knobs (swarm)
  uint64_t seed = 1;
  uint32_t policy = 0;      // 0 run-to-block, 1 random, 2 priorities, 3 round robin
  uint32_t p_switch = 0;    // per 1024, at voluntary yield points
  uint32_t starve = 0;      // 0 none, 1+party: that party runs only when nothing else can
  uint32_t p_stall = 0;     // per 1024
  uint32_t p_latency = 0;   // per 1024
  uint32_t p_split = 0;
  uint32_t p_spill = 0;
  uint32_t p_outage = 0;    // per 1024 per flush
  uint32_t p_chunk = 0;
  uint32_t p_short = 0;
  uint32_t preempt_mean = 0;  // 0: no memory-access preemption
  uint32_t poison = 1;
  uint32_t cpu_limit = 0;   // seconds of processor time, 0: default
};

// Fault and reach statistics of one run, summed over a batch by the driver.
enum Stat : int {
  kStSwitches = 0, kStYields, kStDecisions, kStNonDefault,
  kStStall, kStLatency, kStSplit, kStSpill, kStOutage, kStShortRecv, kStChunk, kStPreempt,
  kStCrash, kStTorn, kStAllocFail, kStLostTail, kStRestart, kStLinkLoss,
  kStParallel, kStBarriers, kStLoopChunks, kStOrdered, kStGuardWait, kStMutexWait,
  kStTasks, kStBytes, kStFlushes, kStMsgs, kStOTs, kStRandBytes, kStAccesses, kStRaceChecks,
  kStOps, kStOpsErr, kStVirtMs, kStValues, kStProbe0, kStProbe1, kStProbe2, kStProbe3,
  kStProbe4, kStProbe5, kStProbe6, kStProbe7, kStCount
};
extern const char* const kStatNames[kStCount];

// ---------------------------------------------------------------- outcome
enum class Outcome : uint32_t { kNone = 0, kOk = 1, kViolation = 2, kHarness = 3 };
constexpr int kMaxTape = 400000;
struct TapeEntry { uint64_t key; uint64_t val; };
struct Result {  // lives in memory shared with the driver
  volatile uint32_t outcome;
  char cls[128];      // violation class, e.g. "deadlock"
  char msg[4096];
  uint64_t trace_hash;
  uint64_t state_hash;   // measure of distinct interleavings (order of sync events)
  uint64_t virt_ns;
  uint64_t stats[kStCount];
  uint64_t aux[64];      // batch-level measurements made by a workload
  uint32_t tape_len;
  uint32_t tape_overflow;
  uint32_t extra_len;
  uint8_t extra[1 << 20];  // free-form payload of a workload (histograms, ...)
  TapeEntry tape[kMaxTape];
};
extern Result* g_res;

// ---------------------------------------------------------------- tasks
struct Team;
struct Task {
  int slot = -1;
  uint64_t uid = 0;
  int pair = 0, party = 0;     // simulated process this thread belongs to
  int world = 0;
  const char* role = "";
  std::function<void()> fn;
  pthread_t thread;
  int go = 0;                  // futex word
  enum State { kFree, kRunnable, kBlocked, kSleeping, kDone } state = kFree;
  const void* wait_key = nullptr;
  const char* wait_what = "";
  uint64_t wake_at = 0;
  bool timed_out = false;
  uint32_t prio = 0;
  // OpenMP state
  int nthreads_icv = 1;
  Team* team = nullptr;
  int team_tid = 0;
  int level = 0;
  uint32_t ws_index = 0;       // work-sharing constructs met in this region
  void* cur_ws = nullptr;
  int64_t chunk_begin = 0, chunk_end = 0;
  bool chunk_held = false;
  int64_t static_pos = 0;
  std::vector<Task*> pool;     // worker pool of a master thread
  struct Job { void (*fn)(void*) = nullptr; void* data = nullptr; Team* team = nullptr; int tid = 0; bool quit = false; bool has = false; } job;
  // memory-access preemption
  int64_t until_preempt = 0;
  int no_preempt = 0;
  int no_race = 0;
  int in_rt = 0;               // inside the simulator: no tracing, no poison
  // allocation-failure fault
  int64_t alloc_fail_at = -1;
  int64_t alloc_count = 0;
  void (*on_alloc_fail)(Task*) = nullptr;   // the process dies at this allocation
  int locks = 0;               // locks and static-initialisation guards held
  void* user = nullptr;
};

extern thread_local Task* t_self __attribute__((tls_model("initial-exec")));
inline Task* self() { return t_self; }
extern bool g_active;

struct RtScope {  // marks simulator-internal code
  Task* t;
  RtScope() : t(t_self) { if (t) t->in_rt++; }
  ~RtScope() { if (t) t->in_rt--; }
};

const Knobs& knobs();
uint64_t now();
void stat(Stat s, uint64_t n = 1);
void trace(uint64_t a, uint64_t b = 0, uint64_t c = 0);   // order-sensitive event log hash
void probe(int i);                                          // reach probe

// Decision: gen() is consulted in record mode only.
uint64_t decide(Dec d, uint32_t ctx, const std::function<uint64_t(Rng&)>& gen);

void yield(const char* what);                 // preemption point
void block_on(const void* key, const char* what);   // park until wake(key)
bool block_on_until(const void* key, const char* what, uint64_t deadline);
void wake(const void* key);
void sleep_for(uint64_t ns);
void at(uint64_t when, std::function<void()> f);    // timed event
Task* spawn(const char* role, int world, int pair, int party, std::function<void()> fn);
bool alive(Task* t);
[[noreturn]] void vanish();                   // the calling task and its pool are gone, without unwinding
uint64_t steps();

// Ends the run at once (process exits).
[[noreturn]] void violation(const std::string& cls, const std::string& msg);
[[noreturn]] void harness_error(const std::string& msg);
[[noreturn]] void finish_ok();

// Runs main_fn as task 0 to completion; called in the forked child.
[[noreturn]] void run(const Knobs& k, bool replay, const std::vector<TapeEntry>& tape,
                      uint64_t step_limit, std::function<void()> main_fn);

// In-run deterministic randomness behind RAND_bytes: one stream per party.
void rand_bytes(uint8_t* out, size_t n);
void seed_ntl_for(Task* t);
// Salt that selects the randomness of a party; changed by twin-run workloads.
void set_rand_salt(int pair, int party, uint64_t salt);
void reset_rand(int pair, int party);
uint64_t rand_drawn(int pair, int party);

// Event log (only when SIM_LOG is set in the environment).
extern bool g_log;
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Happens-before edges for the race detector (no-ops in the plain build).
namespace hb {
void fork(Task* parent, Task* child);
void join(Task* child, Task* into);
void release(const void* obj);
void acquire(const void* obj);
void on_alloc(void* p, size_t n);
void on_free(void* p, size_t n);
void task_start(Task* t);
void forget(const void* obj, size_t n);      // the memory starts a new life
void range(const void* p, size_t n, bool write);   // access by code that is not instrumented
void flush_stats();
void init();
}  // namespace hb

}  // namespace sim
#endif
