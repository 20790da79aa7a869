#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <queue>
#include <typeinfo>
#include <cxxabi.h>

#include "NTL/ZZ.h"
#include "core/alloc.h"
#include "core/sim.h"

namespace sim {

const char* dec_name(Dec d) {
  static const char* n[] = {"sched", "stall", "latency", "split", "spill", "outage", "chunk", "preempt", "short"};
  return n[(int)d];
}
const char* const kStatNames[kStCount] = {
    "context_switches", "yield_points", "decisions", "non_default_decisions",
    "fault_stall", "fault_latency", "fault_split_segment", "fault_early_spill", "fault_link_outage",
    "fault_short_recv", "omp_random_chunk", "preempt_at_access",
    "fault_crash", "fault_torn_write", "fault_alloc_fail", "fault_lost_tail", "restart", "fault_link_loss",
    "omp_parallel", "omp_barriers", "omp_loop_chunks", "omp_ordered", "guard_waits", "mutex_waits",
    "tasks", "bytes_sent", "flushes", "messages", "ots", "rand_bytes", "traced_accesses", "race_checks",
    "ops", "ops_error_status", "virtual_ms", "values_checked",
    "probe0", "probe1", "probe2", "probe3", "probe4", "probe5", "probe6", "probe7"};

Result* g_res;
thread_local Task* t_self __attribute__((tls_model("initial-exec"))) = nullptr;
bool g_active = false;
bool g_log = false;

uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
void Rng::reseed(uint64_t seed) {
  for (int i = 0; i < 4; i++) s[i] = mix64(seed + 0x1234567ull * (i + 1));
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Rng::next() {
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}

// ------------------------------------------------------------------ globals
namespace {
constexpr int kMaxTasks = 128;
constexpr size_t kStackSize = 8u << 20;
constexpr uintptr_t kStackBase = 0x150000000000ull;

struct Event { uint64_t when, seq; std::function<void()> f; };
struct EvLater { bool operator()(const Event& a, const Event& b) const { return a.when != b.when ? a.when > b.when : a.seq > b.seq; } };

struct G {
  Knobs k;
  bool replay = false;
  std::map<uint64_t, uint64_t> tape;
  Rng rng;                 // scheduling and fault choices in record mode
  uint64_t now = 0, seq = 0, steps = 0, step_limit = 0, uid = 0;
  std::priority_queue<Event, std::vector<Event>, EvLater> events;
  Task tasks[kMaxTasks];
  bool joinable[kMaxTasks] = {};
  Task* join_first = nullptr;   // task whose thread must be joined before continuing
  Task* current = nullptr;
  int n_alive = 0;
  uint64_t trace = 0xcbf29ce484222325ull, state = 0x9ae16a3b2f90404full;
  std::map<uint64_t, uint64_t> dec_count;
  struct Rand { Rng rng; uint64_t salt = 0; uint64_t ntl = 0; bool init = false; uint64_t drawn = 0; uint8_t buf[8]; int left = 0; };
  std::map<std::pair<int, int>, Rand> rand;
  int driver_go = 0;
  int rr = 0;
};
G* g;
volatile int g_ending = 0;

void futex_wait(int* p) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
void futex_post(int* p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void finalize() {
  if (!g_res || !g) return;
  hb::flush_stats();
  g_res->trace_hash = g->trace;
  g_res->state_hash = g->state;
  g_res->virt_ns = g->now;
  g_res->stats[kStVirtMs] = g->now / 1000000;
}

[[noreturn]] void end_run(Outcome o, const char* cls, const char* msg) {
  // First ender wins; only one task runs at a time, but signal handlers may
  // enter as well.
  if (__sync_lock_test_and_set(&g_ending, 1)) {
    if (o == Outcome::kHarness) _exit(3);
    for (;;) pause();
  }
  finalize();
  if (g_res) {
    snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
    snprintf(g_res->msg, sizeof g_res->msg, "%s", msg);
    __sync_synchronize();
    g_res->outcome = (uint32_t)o;
  } else {
    fprintf(stderr, "run ended: %s: %s\n", cls, msg);
  }
  _exit(0);
}

std::string describe_tasks() {
  std::string s;
  for (auto& t : g->tasks) {
    if (t.state == Task::kFree || t.state == Task::kDone) continue;
    char b[256];
    snprintf(b, sizeof b, " [%s world%d pair%d party%d tid%d %s%s]", t.role, t.world, t.pair, t.party, t.team_tid,
             t.state == Task::kBlocked ? "blocked on " : t.state == Task::kSleeping ? "asleep in " : "runnable ",
             t.wait_what);
    s += b;
  }
  return s;
}

void start_thread_body(Task* t);
void* thread_main(void* p) {
  Task* t = (Task*)p;
  futex_wait(&t->go);
  t_self = t;
  start_thread_body(t);
  return nullptr;
}

void ensure_joined() {
  if (g->join_first) {
    Task* j = g->join_first;
    g->join_first = nullptr;
    pthread_join(j->thread, nullptr);
    j->state = Task::kFree;
    t_self ? (void)0 : (void)0;
  }
}

// Chooses the task that continues; cur may be null (finished).
Task* pick(Task* cur) {
  Task* run[kMaxTasks];
  for (;;) {
    while (!g->events.empty() && g->events.top().when <= g->now) {
      auto f = g->events.top().f;
      g->events.pop();
      f();
    }
    int n = 0;
    bool cur_runnable = cur && cur->state == Task::kRunnable;
    if (cur_runnable) run[n++] = cur;
    for (auto& t : g->tasks)
      if (t.state == Task::kRunnable && &t != cur) run[n++] = &t;
    if (n == 0) {
      if (g->events.empty()) {
        if (g->n_alive == 0) return nullptr;
        violation("deadlock", "no task can make progress:" + describe_tasks());
      }
      g->now = g->events.top().when;
      continue;
    }
    if (n == 1) return run[0];
    const Knobs& k = g->k;
    uint64_t i = decide(Dec::kSched, 0, [&](Rng& r) -> uint64_t {
      if (cur_runnable && !r.chance(k.p_switch)) {
        if (!(k.starve && (uint32_t)cur->party + 1 == k.starve)) return 0;
      }
      int cand[kMaxTasks], m = 0;
      for (int j = 0; j < n; j++)
        if (!(k.starve && (uint32_t)run[j]->party + 1 == k.starve)) cand[m++] = j;
      if (m == 0) for (int j = 0; j < n; j++) cand[m++] = j;
      switch (k.policy) {
        case 2: {  // random priorities, occasionally changed
          int best = cand[0];
          for (int j = 1; j < m; j++) if (run[cand[j]]->prio > run[best]->prio) best = cand[j];
          if (r.chance(60)) run[best]->prio = (uint32_t)r.below(1u << 20);
          return best;
        }
        case 3: {
          int best = -1;
          for (int j = 0; j < m; j++) if (run[cand[j]]->slot > g->rr && (best < 0 || run[cand[j]]->slot < run[best]->slot)) best = cand[j];
          if (best < 0) for (int j = 0; j < m; j++) if (best < 0 || run[cand[j]]->slot < run[best]->slot) best = cand[j];
          g->rr = run[best]->slot;
          return best;
        }
        default:
          return cand[r.below(m)];
      }
    });
    return run[i % n];
  }
}

void reset_task(Task* t) {
  int slot = t->slot;
  *t = Task();
  t->slot = slot;
}

void switch_to(Task* from, Task* to) {
  if (from == to) return;
  g_res->stats[kStSwitches]++;
  g->state = mix2(g->state, ((uint64_t)to->slot << 8) ^ (uintptr_t)(to->wait_what ? to->wait_what[0] : 0) ^ (g->steps << 20));
  g->current = to;
  futex_post(&to->go);
  if (from) {
    futex_wait(&from->go);
    ensure_joined();
  }
}

void reschedule() {
  Task* me = t_self;
  Task* nx = pick(me);
  if (!nx) harness_error("no task to run");
  switch_to(me, nx);
}

void arm_preempt(Task* t) {
  if (!g->k.preempt_mean) { t->until_preempt = INT64_MAX; return; }
  uint64_t v = decide(Dec::kPreempt, t->slot, [&](Rng& r) -> uint64_t {
    // geometric-ish: sometimes very short, sometimes long
    uint64_t m = g->k.preempt_mean;
    switch (r.below(4)) {
      case 0: return 1 + r.below(16);
      case 1: return 1 + r.below(m);
      default: return 1 + r.below(2 * m);
    }
  });
  t->until_preempt = v ? (int64_t)v : INT64_MAX;
}

void start_thread_body(Task* t) {
  ensure_joined();
  hb::task_start(t);
  t->in_rt++;
  seed_ntl_for(t);
  arm_preempt(t);
  t->in_rt--;
  try {
    t->fn();
  } catch (const std::exception& e) {
    violation("uncaught_exception", std::string(typeid(e).name()) + ": " + e.what() + " in " + t->role);
  } catch (...) {
    violation("uncaught_exception", std::string("unknown exception in ") + t->role);
  }
  t->in_rt++;
  t->fn = nullptr;
  t->state = Task::kDone;
  g->n_alive--;
  wake(t);
  trace(3, t->slot, t->uid);
  Task* nx = pick(nullptr);
  g->join_first = t;
  if (nx) {
    switch_to(nullptr, nx);
  } else {
    futex_post(&g->driver_go);
  }
  // returns: thread-local destructors run now while everybody else is parked
}

// ---------------------------------------------------------------- signals
char sigstack[65536];
void on_signal(int sig, siginfo_t* si, void*) {
  char m[600];
  const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : sig == SIGILL ? "SIGILL" : "signal";
  Task* t = t_self;
  snprintf(m, sizeof m, "%s in task %s pair%d party%d%s", nm, t ? t->role : "driver", t ? t->pair : -1,
           t ? t->party : -1, t && t->in_rt ? " (simulator code)" : "");
  if (sig == SIGPROF || sig == SIGVTALRM)
    end_run(Outcome::kViolation, "no_progress", "a task computed for longer than the CPU limit without reaching a scheduling point");
  end_run(t ? Outcome::kViolation : Outcome::kHarness, "crash", m);
}
}  // namespace

// ------------------------------------------------------------------ API
// A task is interrupted at a memory access (instrumented build).
void preempt_now(Task* t) {
  RtScope rs;
  arm_preempt(t);
  stat(kStPreempt);
  yield("preempt");
}
const Knobs& knobs() { return g->k; }
uint64_t now() { return g->now; }
uint64_t steps() { return g->steps; }
void stat(Stat s, uint64_t n) { if (g_res) g_res->stats[s] += n; }
void probe(int i) { if (g_res) g_res->stats[kStProbe0 + i]++; }
void trace(uint64_t a, uint64_t b, uint64_t c) {
  g->trace = mix2(mix2(mix2(g->trace, a), b), c ^ ((uint64_t)(t_self ? t_self->slot + 1 : 0) << 48));
}
void logf(const char* fmt, ...) {
  if (!g_log) return;
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  Task* t = t_self;
  char o[2300];
  int n = snprintf(o, sizeof o, "%12llu step=%llu w%d pair%d party%d.%d %s: %s\n", (unsigned long long)g->now,
                   (unsigned long long)g->steps, t ? t->world : -1, t ? t->pair : -1, t ? t->party : -1, t ? t->team_tid : -1,
                   t ? t->role : "-", b);
  if (write(2, o, n) < 0) {}
}

uint64_t decide(Dec d, uint32_t ctx, const std::function<uint64_t(Rng&)>& gen) {
  RtScope rs;
  uint64_t base = ((uint64_t)d << 56) | ((uint64_t)ctx << 40);
  uint64_t& c = g->dec_count[base];
  uint64_t key = base | c;
  c++;
  g_res->stats[kStDecisions]++;
  uint64_t v = 0;
  if (g->replay) {
    auto it = g->tape.find(key);
    if (it != g->tape.end()) v = it->second;
  } else {
    v = gen(g->rng);
  }
  if (v) {
    g_res->stats[kStNonDefault]++;
    if (g_res->tape_len < (uint32_t)kMaxTape) {
      g_res->tape[g_res->tape_len].key = key;
      g_res->tape[g_res->tape_len].val = v;
      g_res->tape_len++;
    } else {
      g_res->tape_overflow = 1;
    }
  }
  trace(1, key, v);
  return v;
}

void yield(const char* what) {
  Task* me = t_self;
  if (!me || !g_active) return;
  RtScope rs;
  g->steps++;
  g_res->stats[kStYields]++;
  g->now += 100;
  if (g->steps > g->step_limit)
    violation("no_progress", "step limit reached without the operations completing:" + describe_tasks());
  const Knobs& k = g->k;
  if (k.p_stall) {
    uint64_t v = decide(Dec::kStall, me->slot, [&](Rng& r) -> uint64_t {
      if (!r.chance(k.p_stall)) return 0;
      return 1 + r.below(r.chance(128) ? 600000 : 2000);   // ms
    });
    if (v) {
      stat(kStStall);
      logf("stall %llu ms at %s", (unsigned long long)v, what);
      sleep_for(v * 1000000);
      return;
    }
  }
  me->wait_what = what;
  reschedule();
}

void block_on(const void* key, const char* what) {
  Task* me = t_self;
  RtScope rs;
  me->state = Task::kBlocked;
  me->wait_key = key;
  me->wait_what = what;
  g->steps++;
  if (g->steps > g->step_limit)
    violation("no_progress", "step limit reached without the operations completing:" + describe_tasks());
  reschedule();
}
void wake(const void* key) {
  for (auto& t : g->tasks)
    if (t.state == Task::kBlocked && t.wait_key == key) { t.state = Task::kRunnable; t.wait_key = nullptr; }
}
void at(uint64_t when, std::function<void()> f) { RtScope rs; g->events.push(Event{when, g->seq++, std::move(f)}); }
void sleep_for(uint64_t ns) {
  Task* me = t_self;
  RtScope rs;
  me->state = Task::kSleeping;
  me->wait_what = "sleep";
  g->events.push(Event{g->now + ns, g->seq++, [me] { if (me->state == Task::kSleeping) me->state = Task::kRunnable; }});
  reschedule();
}

Task* spawn(const char* role, int world, int pair, int party, std::function<void()> fn) {
  RtScope rs;
  Task* t = nullptr;
  int i = 0;
  for (; i < kMaxTasks; i++)
    if (g->tasks[i].state == Task::kFree) { t = &g->tasks[i]; break; }
  if (!t) harness_error("too many tasks");
  reset_task(t);
  t->slot = i;
  t->uid = ++g->uid;
  t->world = world;
  t->pair = pair;
  t->party = party;
  t->role = role;
  t->fn = std::move(fn);
  t->prio = (uint32_t)mix2(g->k.seed, t->uid);
  t->state = Task::kRunnable;
  g->n_alive++;
  stat(kStTasks);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, (void*)(kStackBase + (uintptr_t)i * kStackSize), kStackSize);
  if (t_self) hb::fork(t_self, t);
  int rc = pthread_create(&t->thread, &a, thread_main, t);
  pthread_attr_destroy(&a);
  if (rc) harness_error("pthread_create failed");
  return t;
}
bool alive(Task* t) { return t->state != Task::kDone && t->state != Task::kFree; }

void vanish() {
  Task* me = t_self;
  me->in_rt++;
  me->state = Task::kDone;
  g->n_alive--;
  auto gone = [](Task* t) {
    for (Task* w : t->pool) if (alive(w)) { w->state = Task::kDone; g->n_alive--; }
  };
  gone(me);
  for (auto& t : g->tasks)   // other threads of the same process
    if (&t != me && alive(&t) && t.world == me->world && t.pair == me->pair && t.party == me->party &&
        (!strcmp(t.role, "thread") || (!strcmp(me->role, "thread") && !strcmp(t.role, "party")))) {
      gone(&t);
      t.state = Task::kDone;
      g->n_alive--;
      wake(&t);
    }
  wake(me);
  trace(11, me->slot, me->uid);
  Task* nx = pick(nullptr);
  if (!nx) harness_error("no task left after a crash");
  switch_to(nullptr, nx);
  for (;;) pause();
}

void violation(const std::string& cls, const std::string& msg) {
  if (g_log) logf("VIOLATION %s: %s", cls.c_str(), msg.c_str());
  end_run(Outcome::kViolation, cls.c_str(), msg.c_str());
}
void harness_error(const std::string& msg) { end_run(Outcome::kHarness, "harness", msg.c_str()); }
void finish_ok() { end_run(Outcome::kOk, "ok", ""); }

// ------------------------------------------------------------------ RAND
static G::Rand& rand_of(int pair, int party) {
  auto& r = g->rand[{pair, party}];
  if (!r.init) {
    r.init = true;
    r.rng.reseed(mix2(mix2(g->k.seed, 0x52414e44), mix2((uint64_t)pair << 8 | (uint64_t)party, r.salt)));
  }
  return r;
}
void set_rand_salt(int pair, int party, uint64_t salt) {
  RtScope rs;
  auto& r = g->rand[{pair, party}];
  r.salt = salt;
  r.ntl = 0;
  r.init = false;
  r.left = 0;
  rand_of(pair, party);
}
void reset_rand(int pair, int party) {
  RtScope rs;
  auto& r = g->rand[{pair, party}];
  r.init = false;
  r.ntl = 0;
  r.left = 0;
  rand_of(pair, party);
}
uint64_t rand_drawn(int pair, int party) { return g->rand[{pair, party}].drawn; }
void rand_bytes(uint8_t* out, size_t n) {
  Task* t = t_self;
  RtScope rs;
  auto& r = rand_of(t ? t->pair : 0, t ? t->party : 0);
  r.drawn += n;
  stat(kStRandBytes, n);
  while (n) {
    uint64_t v = r.rng.next();
    size_t m = n < 8 ? n : 8;
    memcpy(out, &v, m);
    out += m;
    n -= m;
  }
}
void seed_ntl_for(Task* t) {
  // NTL's generator is thread-local and would otherwise seed itself from the
  // clock and process id.
  auto& r = rand_of(t->pair, t->party);
  unsigned char seed[32];
  uint64_t base = mix2(mix2(g->k.seed, r.salt), ((uint64_t)t->pair << 16) ^ ((uint64_t)t->party << 8) ^ 0x4e544cull);
  base = mix2(base, ++r.ntl);
  // Nobody seeds this generator in a deployment. Processes forked from one that
  // had used it before go on with the same state: half of the runs have all
  // parties and sessions in that position.
  if (mix2(g->k.seed, 0x666f726bull) % 2 == 0 && !strcmp(t->role, "party")) base = mix2(g->k.seed, 0x4e544c);
  for (int i = 0; i < 4; i++) { uint64_t v = mix2(base, i); memcpy(seed + 8 * i, &v, 8); }
  NTL::SetSeed(seed, sizeof seed);
}

// ------------------------------------------------------------------ run
static void on_terminate() {
  std::string m = "std::terminate";
  if (std::type_info* ti = abi::__cxa_current_exception_type()) {
    m += " with exception ";
    m += ti->name();
    try { throw; } catch (const std::exception& e) { m += ": "; m += e.what(); } catch (...) {}
  }
  Task* t = t_self;
  end_run(t ? Outcome::kViolation : Outcome::kHarness, "crash", m.c_str());
}

void run(const Knobs& k, bool replay, const std::vector<TapeEntry>& tape, uint64_t step_limit,
         std::function<void()> main_fn) {
  static G* storage = nullptr;
  storage = (G*)mmap(nullptr, (sizeof(G) + 4095) & ~4095ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g = new (storage) G();
  g->k = k;
  g->replay = replay;
  for (auto& e : tape) g->tape[e.key] = e.val;
  g->rng.reseed(mix2(k.seed, 0x5343484544ull));
  g->step_limit = step_limit;
  for (int i = 0; i < kMaxTasks; i++) g->tasks[i].slot = i;
  void* st = mmap((void*)kStackBase, kStackSize * kMaxTasks, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (st != (void*)kStackBase) harness_error("cannot map task stacks");
  arena_init(mix2(k.seed, 0x706f69736full), k.poison);
  hb::init();
  stack_t ss{};
  ss.ss_sp = sigstack;
  ss.ss_size = sizeof sigstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  uint64_t cpu_limit = k.cpu_limit ? k.cpu_limit : 40;
  itimerval tv{};
  tv.it_value.tv_sec = cpu_limit;
  setitimer(ITIMER_PROF, &tv, nullptr);
  g_active = true;
  Task* t = spawn("main", 0, 0, 0, std::move(main_fn));
  t->no_race = t->no_preempt = 1;      // the simulator's own
  g->current = t;
  futex_post(&t->go);
  futex_wait(&g->driver_go);
  ensure_joined();
  g_active = false;
  finish_ok();
}

}  // namespace sim

// ---------------------------------------------------------------- seams
extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  if (sim::g_active && sim::self()) {
    sim::yield("rand_bytes");
    sim::hb::range(buf, len, true);
    sim::rand_bytes(buf, len);
  } else {
    for (size_t i = 0; i < len; i++) buf[i] = (uint8_t)sim::mix64(i + 99);
  }
  return 1;
}

extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char*) {
  const char* b = strrchr(file, '/');
  char m[1500];
  snprintf(m, sizeof m, "assertion failed: %.900s at %s:%u", expr, b ? b + 1 : file, line);
  if (sim::self()) sim::violation("crash", m);
  fprintf(stderr, "%s\n", m);
  abort();
}

// Clocks and entropy sources the code under test might consult: simulated time,
// and the party's own seeded stream.
#include <random>
#include <sys/random.h>
#include <time.h>
static const uint64_t kEpoch = 1600000000ull;
static bool simulated() { return sim::g_active && sim::self() && !sim::self()->in_rt; }
extern "C" {
int clock_gettime(clockid_t c, timespec* ts) noexcept {
  if (!simulated()) return (int)syscall(SYS_clock_gettime, c, ts);
  uint64_t n = sim::now();
  ts->tv_sec = (time_t)(kEpoch + n / 1000000000ull);
  ts->tv_nsec = (long)(n % 1000000000ull);
  return 0;
}
time_t time(time_t* t) noexcept {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int gettimeofday(timeval* tv, void*) noexcept {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
clock_t clock(void) noexcept {
  if (simulated()) return (clock_t)(sim::now() / 1000);
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
  return (clock_t)(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
ssize_t getrandom(void* b, size_t n, unsigned f) {
  if (!simulated()) return syscall(SYS_getrandom, b, n, f);
  sim::rand_bytes((uint8_t*)b, n);
  return (ssize_t)n;
}
int getentropy(void* b, size_t n) {
  return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1;
}
pid_t getpid(void) noexcept { return simulated() ? 4242 : (pid_t)syscall(SYS_getpid); }
static uint64_t g_rand_state = 88172645463325252ull;
void srand(unsigned s) noexcept { g_rand_state = sim::mix64(s); }
int rand(void) noexcept { g_rand_state = sim::mix64(g_rand_state); return (int)(g_rand_state & 0x7fffffff); }
void srandom(unsigned s) noexcept { srand(s); }
long random(void) noexcept { return rand(); }
}
namespace std {
random_device::result_type random_device::_M_getval() {
  unsigned v;
  if (getrandom(&v, sizeof v, 0) != sizeof v) v = 1;
  return v;
}
}
