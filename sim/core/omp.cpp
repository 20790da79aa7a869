// libgomp ABI on simulated threads. Every point at which a real OpenMP runtime
// could interleave threads is a scheduling point of the simulator, and the
// sizes of dynamic/guided chunks are decisions.
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <map>
#include <memory>
#include <vector>

#include "core/sim.h"

namespace sim {

struct WorkShare {
  enum Kind { kStatic, kDynamic, kGuided, kSections } kind = kDynamic;
  bool uns = false;            // unsigned long long variant
  __int128 next = 0, end = 0, incr = 1;
  uint64_t chunk = 1;
  bool ordered = false;
  uint64_t iters_total = 0, iters_given = 0;
  uint64_t ordered_next = 0;   // iteration whose chunk may run its ordered regions
  int done = 0;
  bool single_taken = false;
  void* copyprivate = nullptr;
  __int128 start = 0;
};

struct Team {
  int n = 1;
  Task* members[64];
  int arrived = 0;
  int left = 0;                // workers that have left the region
  uint64_t generation = 0;
  std::map<uint32_t, std::unique_ptr<WorkShare>> ws;
  Team* parent = nullptr;
  WorkShare* preset = nullptr;
};

static const int kDefaultThreads = 4;
static std::map<const void*, Task*>* g_locks;   // critical sections and omp locks
static int max_threads(Task* t) { return t ? t->nthreads_icv : 1; }

static void team_barrier(Team* tm, const char* what) {
  Task* me = self();
  RtScope rs;
  stat(kStBarriers);
  trace(4, me->team_tid, tm->generation);
  if (tm->n == 1) return;
  uint64_t gen = tm->generation;
  // two keys in turn: who is late to leave one barrier learns nothing of those
  // who already wait at the next
  const char* key = (const char*)tm + 8 * (gen & 1);
  hb::release(key);
  if (++tm->arrived == tm->n) {
    tm->arrived = 0;
    tm->generation++;
    wake(tm);
    yield(what);
  } else {
    while (tm->generation == gen) block_on(tm, what);
  }
  hb::acquire(key);
}

// "parallel for" regions come with their first work share already set up.
static void adopt_ws(Team* tm) {
  Task* me = self();
  if (!tm->preset) return;
  me->cur_ws = tm->preset;
  me->ws_index = 1;
  me->chunk_held = false;
  me->static_pos = 0;
}

static void worker_main(Task* t) {
  for (;;) {
    {
      RtScope rs;
      while (!t->job.has) block_on(&t->job, "omp_idle");
    }
    t->job.has = false;
    if (t->job.quit) return;
    Team* tm = t->job.team;
    t->team = tm;
    t->team_tid = t->job.tid;
    t->level = 1;
    t->ws_index = 0;
    t->cur_ws = nullptr;
    adopt_ws(tm);
    hb::acquire(&t->job);
    yield("omp_start");
    t->job.fn(t->job.data);
    team_barrier(tm, "omp_end");
    t->team = nullptr;
    t->level = 0;
    t->team_tid = 0;
    tm->left++;
    wake(&tm->left);
  }
}

static void retire(Task* w) {
  RtScope rs;
  uint64_t uid = w->uid;
  w->job.quit = true;
  w->job.has = true;
  wake(&w->job);
  while (w->uid == uid && alive(w)) block_on(w, "omp_retire");
}

// Called by a master that is about to end: its pool ends with it.
void omp_release_pool() {
  Task* me = self();
  while (!me->pool.empty()) {
    Task* w = me->pool.back();
    me->pool.pop_back();
    retire(w);
  }
}

static void run_parallel(void (*fn)(void*), void* data, unsigned num_threads,
                         const std::function<void(Team*)>& setup) {
  Task* me = self();
  stat(kStParallel);
  int n = num_threads ? (int)num_threads : max_threads(me);
  if (n > 32) n = 32;
  if (me->level >= 1) n = 1;   // nested parallelism inactive, as by default
  trace(5, n, (uint64_t)me->level);
  Team tm_storage;
  Team* tm = &tm_storage;
  hb::forget(tm, sizeof *tm);
  tm->n = n;
  tm->parent = me->team;
  tm->members[0] = me;
  // save
  Team* s_team = me->team;
  int s_tid = me->team_tid, s_level = me->level;
  uint32_t s_ws = me->ws_index;
  void* s_cur = me->cur_ws;
  {
    RtScope rs;
    if (n > 1) {
      while ((int)me->pool.size() > n - 1) {   // libgomp lets surplus threads end
        Task* w = me->pool.back();
        me->pool.pop_back();
        retire(w);
      }
      while ((int)me->pool.size() < n - 1) {
        Task* w = spawn("omp_worker", me->world, me->pair, me->party, nullptr);
        w->nthreads_icv = me->nthreads_icv;
        w->fn = [w] { worker_main(w); };
        w->alloc_fail_at = -1;
        hb::forget(&w->job, sizeof w->job);
        me->pool.push_back(w);
      }
    }
    if (setup) {
      setup(tm);
      tm->preset = tm->ws[0].get();
    }
    for (int i = 1; i < n; i++) {
      Task* w = me->pool[i - 1];
      tm->members[i] = w;
      w->nthreads_icv = me->nthreads_icv;
      w->job.fn = fn;
      w->job.data = data;
      w->job.team = tm;
      w->job.tid = i;
      w->job.has = true;
      hb::release(&w->job);
      wake(&w->job);
    }
  }
  me->team = tm;
  me->team_tid = 0;
  me->level = s_level + 1;
  me->ws_index = 0;
  adopt_ws(tm);
  if (n > 1) yield("omp_start");
  fn(data);
  team_barrier(tm, "omp_end");
  // The team lives on this stack: wait until every member has left it.
  me->team = s_team;
  me->team_tid = s_tid;
  me->level = s_level;
  me->ws_index = s_ws;
  me->cur_ws = s_cur;
  if (n > 1) {
    RtScope rs;
    while (tm->left < n - 1) block_on(&tm->left, "omp_join");
  }
}

// ---------------------------------------------------------------- work sharing
static Team* solo_team() {   // orphaned construct outside any region
  static std::map<Task*, std::unique_ptr<Team>>* solo;
  RtScope rs;
  if (!solo) solo = new std::map<Task*, std::unique_ptr<Team>>();
  auto& p = (*solo)[self()];
  if (!p) { p.reset(new Team()); p->members[0] = self(); }
  return p.get();
}
static Team* cur_team() { return self()->team ? self()->team : solo_team(); }

static WorkShare* enter_ws(bool* first) {
  Task* me = self();
  Team* tm = cur_team();
  RtScope rs;
  uint32_t i = me->ws_index++;
  auto& p = tm->ws[i];
  *first = !p;
  if (!p) p.reset(new WorkShare());
  me->cur_ws = p.get();
  me->chunk_held = false;
  me->static_pos = 0;
  return p.get();
}
static void leave_ws() {
  Task* me = self();
  Team* tm = cur_team();
  RtScope rs;
  WorkShare* w = (WorkShare*)me->cur_ws;
  me->cur_ws = nullptr;
  if (!w) return;
  if (++w->done == tm->n)
    for (auto it = tm->ws.begin(); it != tm->ws.end(); ++it)
      if (it->second.get() == w) { tm->ws.erase(it); break; }
}

static void init_loop(WorkShare* w, WorkShare::Kind kind, __int128 start, __int128 end, __int128 incr, uint64_t chunk, bool ordered) {
  w->kind = kind;
  w->start = w->next = start;
  w->incr = incr;
  w->chunk = chunk;
  w->ordered = ordered;
  __int128 n = incr > 0 ? (end - start + incr - 1) / incr : (start - end - incr - 1) / -incr;
  if (n < 0) n = 0;
  w->iters_total = (uint64_t)n;
  w->end = end;
}

// Hands out iterations [*a, *b) (as iteration numbers) or returns false.
static bool next_chunk(WorkShare* w, uint64_t* a, uint64_t* b) {
  Task* me = self();
  Team* tm = cur_team();
  if (w->ordered && me->chunk_held) {
    RtScope rs;
    // finishing a chunk: pass the ordered turn on once it is ours
    while (w->ordered_next != (uint64_t)me->chunk_begin) block_on(&w->ordered_next, "omp_ordered");
    w->ordered_next = me->chunk_end;
    hb::release(&w->ordered_next);
    wake(&w->ordered_next);
    me->chunk_held = false;
  }
  yield("omp_loop");
  RtScope rs;
  uint64_t n = w->iters_total, T = tm->n, id = me->team_tid;
  if (w->kind == WorkShare::kStatic) {
    if (w->chunk == 0) {
      if (me->static_pos) return false;
      me->static_pos = 1;
      uint64_t q = n / T, r = n % T;
      uint64_t s = id < r ? id * (q + 1) : id * q + r, c = id < r ? q + 1 : q;
      if (c == 0) return false;
      *a = s;
      *b = s + c;
    } else {
      uint64_t s = ((uint64_t)me->static_pos * T + id) * w->chunk;
      if (s >= n) return false;
      me->static_pos++;
      *a = s;
      *b = std::min(n, s + w->chunk);
    }
  } else {
    if (w->iters_given >= n) return false;
    uint64_t left = n - w->iters_given, c = std::max<uint64_t>(1, w->chunk);
    if (w->kind == WorkShare::kGuided) {
      uint64_t q = std::max<uint64_t>(c, (left + T - 1) / T);
      if (knobs().p_chunk && q > c) {
        uint64_t v = decide(Dec::kChunk, 0, [&](Rng& r) -> uint64_t { return r.chance(knobs().p_chunk) ? 1 + r.below(q - c) : 0; });
        if (v) { q = std::max<uint64_t>(c, q > v ? q - v : 1); stat(kStChunk); }
      }
      c = q;
    }
    c = std::min(c, left);
    *a = w->iters_given;
    *b = *a + c;
    w->iters_given += c;
  }
  stat(kStLoopChunks);
  trace(6, *a, *b);
  if (w->ordered) { me->chunk_held = true; me->chunk_begin = *a; me->chunk_end = *b; }
  return true;
}

static bool loop_next_l(long* is, long* ie) {
  WorkShare* w = (WorkShare*)self()->cur_ws;
  uint64_t a, b;
  if (!next_chunk(w, &a, &b)) return false;
  *is = (long)(w->start + (__int128)a * w->incr);
  __int128 e = w->start + (__int128)b * w->incr;
  if (b == w->iters_total) e = w->end;
  *ie = (long)e;
  return true;
}
static bool loop_next_u(unsigned long long* is, unsigned long long* ie) {
  WorkShare* w = (WorkShare*)self()->cur_ws;
  uint64_t a, b;
  if (!next_chunk(w, &a, &b)) return false;
  *is = (unsigned long long)(w->start + (__int128)a * w->incr);
  __int128 e = w->start + (__int128)b * w->incr;
  if (b == w->iters_total) e = w->end;
  *ie = (unsigned long long)e;
  return true;
}
static bool loop_start_l(WorkShare::Kind k, long s, long e, long i, long c, bool ord, long* is, long* ie) {
  bool first;
  WorkShare* w = enter_ws(&first);
  if (first) init_loop(w, k, s, e, i, c, ord);
  return loop_next_l(is, ie);
}
static bool loop_start_u(WorkShare::Kind k, bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, bool ord, unsigned long long* is, unsigned long long* ie) {
  bool first;
  WorkShare* w = enter_ws(&first);
  if (first) init_loop(w, k, s, e, up ? (__int128)i : (__int128)(long long)i, c, ord);
  return loop_next_u(is, ie);
}

static void lock_obj(const void* key, const char* what) {
  Task* me = self();
  yield(what);
  RtScope rs;
  if (!g_locks) g_locks = new std::map<const void*, Task*>();
  while ((*g_locks)[key]) block_on(key, what);
  (*g_locks)[key] = me;
  me->locks++;
  hb::acquire(key);
}
static void unlock_obj(const void* key) {
  {
    RtScope rs;
    hb::release(key);
    (*g_locks)[key] = nullptr;
    self()->locks--;
    wake(key);
  }
  yield("omp_unlock");
}

}  // namespace sim

using namespace sim;
typedef unsigned long long ull;
static char crit_default, atomic_default;

extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { run_parallel(fn, data, nt, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) {
  (void)fn; (void)data; (void)nt;
  harness_error("GOMP_parallel_reductions is not simulated");
}

#define LOOPS(name, kind)                                                                                                    \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start_l(kind, s, e, i, c, false, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next_l(is, ie); }                                         \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, long c, unsigned) {   \
    run_parallel(fn, data, nt, [=](Team* tm) {                                                                              \
      auto& p = tm->ws[0];                                                                                                  \
      p.reset(new WorkShare());                                                                                             \
      init_loop(p.get(), kind, s, e, i, c, false);                                                                          \
    });                                                                                                                     \
  }                                                                                                                         \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return loop_start_u(kind, up, s, e, i, c, false, is, ie); } \
  bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return loop_next_u(is, ie); }

LOOPS(static, WorkShare::kStatic)
LOOPS(dynamic, WorkShare::kDynamic)
LOOPS(guided, WorkShare::kGuided)
LOOPS(nonmonotonic_dynamic, WorkShare::kDynamic)
LOOPS(nonmonotonic_guided, WorkShare::kGuided)
#undef LOOPS

#define LOOPS_RT(name)                                                                                                       \
  bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie) { return loop_start_l(WorkShare::kDynamic, s, e, i, 1, false, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next_l(is, ie); }                                         \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, unsigned) {           \
    run_parallel(fn, data, nt, [=](Team* tm) {                                                                              \
      auto& p = tm->ws[0];                                                                                                  \
      p.reset(new WorkShare());                                                                                             \
      init_loop(p.get(), WorkShare::kDynamic, s, e, i, 1, false);                                                           \
    });                                                                                                                     \
  }                                                                                                                         \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return loop_start_u(WorkShare::kDynamic, up, s, e, i, 1, false, is, ie); } \
  bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return loop_next_u(is, ie); }
LOOPS_RT(runtime)
LOOPS_RT(nonmonotonic_runtime)
LOOPS_RT(maybe_nonmonotonic_runtime)
#undef LOOPS_RT

#define LOOPS_ORD(name, kind)                                                                                                \
  bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start_l(kind, s, e, i, c, true, is, ie); } \
  bool GOMP_loop_ordered_##name##_next(long* is, long* ie) { return loop_next_l(is, ie); }                                 \
  bool GOMP_loop_ull_ordered_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return loop_start_u(kind, up, s, e, i, c, true, is, ie); } \
  bool GOMP_loop_ull_ordered_##name##_next(ull* is, ull* ie) { return loop_next_u(is, ie); }
LOOPS_ORD(static, WorkShare::kStatic)
LOOPS_ORD(dynamic, WorkShare::kDynamic)
LOOPS_ORD(guided, WorkShare::kGuided)
#undef LOOPS_ORD

static WorkShare::Kind kind_of(long sched) {
  switch (sched & 0x7fffffff) {
    case 1: return WorkShare::kStatic;
    case 3: return WorkShare::kGuided;
    default: return WorkShare::kDynamic;
  }
}
bool GOMP_loop_start(long s, long e, long i, long sched, long c, long* is, long* ie, uintptr_t* red, void** mem) {
  if (red || mem) harness_error("loop with reductions/mem is not simulated");
  if (!is) { bool first; WorkShare* w = enter_ws(&first); if (first) init_loop(w, kind_of(sched), s, e, i, c, false); return true; }
  return loop_start_l(kind_of(sched), s, e, i, c, false, is, ie);
}
bool GOMP_loop_ordered_start(long s, long e, long i, long sched, long c, long* is, long* ie, uintptr_t* red, void** mem) {
  if (red || mem) harness_error("loop with reductions/mem is not simulated");
  return loop_start_l(kind_of(sched), s, e, i, c, true, is, ie);
}

static void finish_ordered() {
  Task* me = self();
  WorkShare* w = (WorkShare*)me->cur_ws;
  if (w && w->ordered && me->chunk_held) { uint64_t a, b; next_chunk(w, &a, &b); }
}
void GOMP_loop_end(void) {
  finish_ordered();
  Team* tm = cur_team();
  leave_ws();
  team_barrier(tm, "omp_loop_end");
}
void GOMP_loop_end_nowait(void) { finish_ordered(); leave_ws(); yield("omp_nowait"); }
bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return false; }

void GOMP_barrier(void) { team_barrier(cur_team(), "omp_barrier"); }

void GOMP_ordered_start(void) {
  Task* me = self();
  WorkShare* w = (WorkShare*)me->cur_ws;
  stat(kStOrdered);
  yield("omp_ordered");
  if (!w || !w->ordered || !me->chunk_held) return;
  RtScope rs;
  while (w->ordered_next != (uint64_t)me->chunk_begin) block_on(&w->ordered_next, "omp_ordered");
  hb::acquire(&w->ordered_next);
}
void GOMP_ordered_end(void) { yield("omp_ordered_end"); }

void GOMP_critical_start(void) { lock_obj(&crit_default, "omp_critical"); }
void GOMP_critical_end(void) { unlock_obj(&crit_default); }
void GOMP_critical_name_start(void** p) { lock_obj(p, "omp_critical"); }
void GOMP_critical_name_end(void** p) { unlock_obj(p); }
void GOMP_atomic_start(void) { lock_obj(&atomic_default, "omp_atomic"); }
void GOMP_atomic_end(void) { unlock_obj(&atomic_default); }

bool GOMP_single_start(void) {
  yield("omp_single");
  bool first;
  WorkShare* w = enter_ws(&first);
  bool mine = !w->single_taken;
  w->single_taken = true;
  leave_ws();
  return mine;
}
struct CopyPrivate { void* p = nullptr; };
static std::map<Team*, void*>* g_copy;
void* GOMP_single_copy_start(void) {
  yield("omp_single");
  bool first;
  WorkShare* w = enter_ws(&first);
  if (!w->single_taken) { w->single_taken = true; return nullptr; }
  Team* tm = cur_team();
  leave_ws();
  team_barrier(tm, "omp_single_copy");
  return (*g_copy)[tm];
}
void GOMP_single_copy_end(void* data) {
  Team* tm = cur_team();
  {
    RtScope rs;
    if (!g_copy) g_copy = new std::map<Team*, void*>();
    (*g_copy)[tm] = data;
  }
  leave_ws();
  team_barrier(tm, "omp_single_copy");
}

unsigned GOMP_sections_next(void) {
  WorkShare* w = (WorkShare*)self()->cur_ws;
  uint64_t a, b;
  if (!next_chunk(w, &a, &b)) return 0;
  return (unsigned)a + 1;
}
unsigned GOMP_sections_start(unsigned count) {
  bool first;
  WorkShare* w = enter_ws(&first);
  if (first) init_loop(w, WorkShare::kDynamic, 0, count, 1, 1, false);
  return GOMP_sections_next();
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned nt, unsigned count, unsigned) {
  run_parallel(fn, data, nt, [=](Team* tm) {
    auto& p = tm->ws[0];
    p.reset(new WorkShare());
    init_loop(p.get(), WorkShare::kDynamic, 0, count, 1, 1, false);
  });
}
void GOMP_sections_end(void) { GOMP_loop_end(); }
void GOMP_sections_end_nowait(void) { GOMP_loop_end_nowait(); }
bool GOMP_sections_end_cancel(void) { GOMP_loop_end(); return false; }

// Tasks run at once in the creating thread (a legal schedule).
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  yield("omp_task");
  if (cpy) {
    std::vector<char> buf(size + align);
    char* a = (char*)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1));
    cpy(a, data);
    fn(a);
  } else {
    fn(data);
  }
}
void GOMP_taskwait(void) { yield("omp_taskwait"); }
void GOMP_taskyield(void) { yield("omp_taskyield"); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_num_threads(void) { Task* t = self(); return t && t->team ? t->team->n : 1; }
int omp_get_thread_num(void) { Task* t = self(); return t && t->team ? t->team_tid : 0; }
int omp_get_max_threads(void) { Task* t = self(); return t ? max_threads(t) : kDefaultThreads; }
void omp_set_num_threads(int n) { if (Task* t = self()) t->nthreads_icv = n < 1 ? 1 : n; }
int omp_in_parallel(void) { Task* t = self(); return t && t->team && t->team->n > 1; }
int omp_get_num_procs(void) { return kDefaultThreads; }
int omp_get_level(void) { Task* t = self(); return t ? t->level : 0; }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_thread_limit(void) { return 64; }
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_ancestor_thread_num(int) { return 0; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
double omp_get_wtime(void) { return (double)sim::now() * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
struct OmpLock { void* x; };
void omp_init_lock(OmpLock*) {}
void omp_destroy_lock(OmpLock*) {}
void omp_set_lock(OmpLock* l) { lock_obj(l, "omp_lock"); }
void omp_unset_lock(OmpLock* l) { unlock_obj(l); }
int omp_test_lock(OmpLock* l) {
  yield("omp_test_lock");
  RtScope rs;
  if (!g_locks) g_locks = new std::map<const void*, Task*>();
  if ((*g_locks)[l]) return 0;
  (*g_locks)[l] = self();
  self()->locks++;
  hb::acquire(l);
  return 1;
}

// ---- function-local static initialisation -------------------------------
// Guard word: byte 0 initialised, byte 1 in progress.
int __cxa_guard_acquire(uint64_t* gd) {
  char* b = (char*)gd;
  if (!g_active || !self()) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  RtScope rs;
  if (b[0]) { hb::acquire(gd); return 0; }
  yield("guard");
  for (;;) {
    if (b[0]) { hb::acquire(gd); return 0; }
    if (!b[1]) { b[1] = 1; self()->locks++; return 1; }
    stat(kStGuardWait);
    block_on(gd, "guard");
  }
}
void __cxa_guard_release(uint64_t* gd) {
  char* b = (char*)gd;
  b[0] = 1;
  b[1] = 0;
  if (g_active && self()) { RtScope rs; self()->locks--; hb::release(gd); wake(gd); }
}
void __cxa_guard_abort(uint64_t* gd) {
  char* b = (char*)gd;
  b[1] = 0;
  if (g_active && self()) { RtScope rs; self()->locks--; wake(gd); }
}

// ---- mutexes of the code under test (linked with --wrap) ------------------
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!g_active || !self()) return __real_pthread_mutex_lock(m);
  RtScope rs;
  for (;;) {
    int rc = pthread_mutex_trylock(m);
    if (rc == 0) break;
    if (rc != EBUSY) return rc;
    stat(kStMutexWait);
    block_on(m, "mutex");
  }
  self()->locks++;
  hb::acquire(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!g_active || !self()) return __real_pthread_mutex_unlock(m);
  RtScope rs;
  self()->locks--;
  hb::release(m);
  int rc = __real_pthread_mutex_unlock(m);
  wake(m);
  return rc;
}
}
