// POSIX threads, condition variables, reader-writer locks, one-time
// initialisation, sleeping and futures of the code under test, on simulated
// tasks. (The library uses OpenMP only; a change may bring these in.)
// pthread_once, rwlocks and mutexes are redirected in the objects that are
// linked (--wrap); what the C++ runtime library calls is defined here.
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#include <future>
#include <map>

#include "core/sim.h"

using namespace sim;

extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
}
namespace sim {
void omp_release_pool();

static bool mine() { return g_active && self() && !self()->in_rt; }
template <class F> static F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

struct Thr { Task* task = nullptr; uint64_t uid = 0; void* ret = nullptr; bool done = false, joined = false; };
static std::map<uint64_t, Thr*>* g_thr;
static uint64_t g_thr_seq;
constexpr uint64_t kHandle = 0x5e55000000000000ull;
static Thr* find(pthread_t h) {
  if (((uint64_t)h & 0xffff000000000000ull) != kHandle || !g_thr) return nullptr;
  auto it = g_thr->find((uint64_t)h);
  return it == g_thr->end() ? nullptr : it->second;
}
static std::map<const void*, Task*>* g_writer;
static void nap(uint64_t ns) {
  yield("sleep");
  sleep_for(ns ? ns : 1);
}
static uint64_t ns_of(const timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
constexpr uint64_t kEpochNs = 1600000000ull * 1000000000ull;
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  Task* me = self();
  uint64_t uid = me->uid;
  bool late = false;
  {
    RtScope rs;
    hb::release(m);
    me->locks--;
    pthread_mutex_unlock(m);
    wake(m);
    if (deadline != UINT64_MAX)
      at(deadline, [me, uid, c] { if (me->uid == uid && me->state == Task::kBlocked && me->wait_key == c) { me->state = Task::kRunnable; me->wait_key = nullptr; me->timed_out = true; } });
    me->timed_out = false;
    block_on(c, "condition");
    late = me->timed_out;
  }
  __wrap_pthread_mutex_lock(m);
  return late ? ETIMEDOUT : 0;
}
}  // namespace sim

extern "C" {
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!mine()) return __real_pthread_once(o, f);
  yield("once");
  volatile int* s = (volatile int*)o;
  for (;;) {
    RtScope rs;
    if (*s == 2) { hb::acquire(o); return 0; }
    if (*s == 0) break;
    stat(kStGuardWait);
    block_on(o, "once");
  }
  *s = 1;
  self()->locks++;
  struct End {
    pthread_once_t* o;
    bool ok = false;
    ~End() {
      RtScope rs;
      self()->locks--;
      *(volatile int*)o = ok ? 2 : 0;
      hb::release(o);
      wake(o);
    }
  } end{o};
  f();
  end.ok = true;
  return 0;
}

int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!mine()) return __real_pthread_rwlock_rdlock(l);
  yield("rwlock");
  RtScope rs;
  while (int rc = pthread_rwlock_tryrdlock(l)) {
    if (rc != EBUSY) return rc;
    stat(kStMutexWait);
    block_on(l, "rwlock");
  }
  self()->locks++;
  hb::acquire(l);
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!mine()) return __real_pthread_rwlock_wrlock(l);
  yield("rwlock");
  RtScope rs;
  while (int rc = pthread_rwlock_trywrlock(l)) {
    if (rc != EBUSY) return rc;
    stat(kStMutexWait);
    block_on(l, "rwlock");
  }
  self()->locks++;
  if (!g_writer) g_writer = new std::map<const void*, Task*>();
  (*g_writer)[l] = self();
  hb::acquire(l);
  hb::acquire((char*)l + 8);
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!mine()) return __real_pthread_rwlock_unlock(l);
  {
    RtScope rs;
    self()->locks--;
    int rc = __real_pthread_rwlock_unlock(l);
    if (rc) return rc;
    // the second word collects the readers: a writer is after them, other readers are not
    bool writer = g_writer && (*g_writer)[l] == self();
    if (writer) { (*g_writer)[l] = nullptr; hb::release(l); }
    hb::release((char*)l + 8);
    wake(l);
  }
  yield("rwlock_unlock");
  return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!mine()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
  return cond_wait(c, m, UINT64_MAX);
}
static uint64_t deadline_of(const timespec* t) {
  uint64_t n = ns_of(t);
  n = n > kEpochNs ? n - kEpochNs : 0;
  return n < now() ? now() : n;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  if (!mine()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait"); return f(c, m, t); }
  return cond_wait(c, m, deadline_of(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  if (!mine()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait"); return f(c, m, k, t); }
  return cond_wait(c, m, deadline_of(t));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!mine()) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
  yield("signal");
  RtScope rs;
  wake(c);      // waking more than one is allowed
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!mine()) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
  yield("signal");
  RtScope rs;
  wake(c);
  return 0;
}

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (!mine()) { static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return r(h, a, f, arg); }
  Task* me = self();
  {
    RtScope rs;
    if (!g_thr) g_thr = new std::map<uint64_t, Thr*>();
    Thr* t = new Thr();
    *h = (pthread_t)(kHandle + ++g_thr_seq);
    (*g_thr)[(uint64_t)*h] = t;
    t->task = spawn("thread", me->world, me->pair, me->party, [t, f, arg] {
      t->ret = f(arg);
      omp_release_pool();
      RtScope rs;
      t->done = true;
      hb::release(t);
      wake(t);
    });
    t->task->nthreads_icv = 4;
    t->uid = t->task->uid;
  }
  yield("thread_create");
  return 0;
}
int pthread_join(pthread_t h, void** ret) {
  Thr* t = mine() ? find(h) : nullptr;
  if (!t) { static auto r = real<int (*)(pthread_t, void**)>("pthread_join"); return r(h, ret); }
  yield("thread_join");
  RtScope rs;
  while (!t->done) block_on(t, "thread_join");
  hb::acquire(t);
  if (ret) *ret = t->ret;
  g_thr->erase((uint64_t)h);
  return 0;
}
int pthread_detach(pthread_t h) {
  Thr* t = mine() ? find(h) : nullptr;
  if (!t) { static auto r = real<int (*)(pthread_t)>("pthread_detach"); return r(h); }
  return 0;
}

int sched_yield(void) noexcept {
  if (mine()) nap(100);
  return 0;
}
int nanosleep(const timespec* t, timespec* rem) {
  if (mine()) { nap(ns_of(t)); if (rem) *rem = timespec{}; return 0; }
  static auto r = real<int (*)(const timespec*, timespec*)>("nanosleep");
  return r(t, rem);
}
int clock_nanosleep(clockid_t k, int flags, const timespec* t, timespec* rem) {
  if (mine()) {
    uint64_t n = ns_of(t);
    if (flags & TIMER_ABSTIME) { n = n > kEpochNs ? n - kEpochNs : 0; n = n > now() ? n - now() : 0; }
    nap(n);
    return 0;
  }
  static auto r = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
  return r(k, flags, t, rem);
}
int usleep(useconds_t us) {
  timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
  timespec t{(time_t)s, 0};
  nanosleep(&t, nullptr);
  return 0;
}
}

// Futures wait on a word of their shared state.
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds n) {
  if (!mine()) { sched_yield(); return true; }
  RtScope rs;
  if (*(volatile unsigned*)a != v) return true;
  if (has) {
    timespec t{(time_t)s.count(), (long)n.count()};
    if (deadline_of(&t) <= sim::now()) return false;
    sleep_for(deadline_of(&t) - sim::now());
    return *(volatile unsigned*)a != v;
  }
  block_on(a, "future");
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds n) {
  return _M_futex_wait_until(a, v, has, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
  if (!mine()) return;
  { RtScope rs; wake(a); }
  yield("future");
}
}  // namespace std
