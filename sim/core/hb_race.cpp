// Instrumented build: runtime of -fsanitize=thread. Every memory access of the
// code under test is a possible preemption point and is checked against the
// happens-before order of the simulated execution (vector clocks per task and
// per synchronisation object, last accesses kept per 8 bytes of memory). The
// order is the one the OpenMP constructs, locks, atomics and guards promise; the
// network orders nothing.
#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>

#include <new>
#include <string>

#include "core/alloc.h"
#include "core/sim.h"

namespace sim {
void preempt_now(Task* t);   // sched.cpp
namespace {
constexpr int kSlots = 128;
struct VC { uint64_t c[kSlots]; };
VC g_vc[kSlots];

struct Cell {            // one earlier access
  uint64_t clock;
  uint8_t slot, mask, write, atomic;
  uint32_t pc;
};
static_assert(sizeof(Cell) == 16, "");
constexpr int kCells = 4;
struct Page {            // 4096 bytes of memory
  Cell cell[512][kCells];
  VC** sync;             // per 8 bytes, if any
  uint32_t nsync;
};
constexpr int kMidBits = 18;
Page** g_top[1 << 17];
uint32_t g_evict;
uint64_t g_acc, g_chk;

char* g_bump;
size_t g_left;
void* grab(size_t n) {
  n = (n + 63) & ~size_t(63);
  if (n > g_left) {
    size_t sz = n > (64u << 20) ? n : (64u << 20);
    void* p = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) harness_error("no memory for the access history");
    g_bump = (char*)p;
    g_left = sz;
  }
  void* r = g_bump;
  g_bump += n;
  g_left -= n;
  return r;
}
VC* g_free_vc;
VC* new_vc() {
  if (g_free_vc) {
    VC* v = g_free_vc;
    memcpy(&g_free_vc, v, sizeof(VC*));
    memset(v, 0, sizeof *v);
    return v;
  }
  return (VC*)grab(sizeof(VC));
}
void drop_vc(VC* v) {
  memcpy(v, &g_free_vc, sizeof(VC*));
  g_free_vc = v;
}

Page* page_of(uintptr_t a, bool make) {
  Page**& mid = g_top[(a >> 30) & ((1 << 17) - 1)];
  if (!mid) {
    if (!make) return nullptr;
    mid = (Page**)grab(sizeof(Page*) << kMidBits);
  }
  Page*& p = mid[(a >> 12) & ((1 << kMidBits) - 1)];
  if (!p && make) p = (Page*)grab(sizeof(Page));
  return p;
}
VC* sync_of(const void* o, bool make) {
  uintptr_t a = (uintptr_t)o;
  Page* p = page_of(a, make);
  if (!p) return nullptr;
  if (!p->sync) {
    if (!make) return nullptr;
    p->sync = (VC**)grab(sizeof(VC*) * 512);
  }
  VC*& v = p->sync[(a >> 3) & 511];
  if (!v && make) { v = new_vc(); p->nsync++; }
  return v;
}
void join_into(VC* to, const VC* from) {
  for (int i = 0; i < kSlots; i++) if (from->c[i] > to->c[i]) to->c[i] = from->c[i];
}
void forget_range(uintptr_t b, size_t n) {
  uintptr_t e = (b + n + 7) & ~uintptr_t(7);
  b &= ~uintptr_t(7);
  while (b < e) {
    uintptr_t pe = (b | 4095) + 1;
    if (pe > e) pe = e;
    if (Page* p = page_of(b, false)) {
      memset(p->cell[(b >> 3) & 511], 0, (pe - b) / 8 * sizeof(Cell) * kCells);
      if (p->nsync)
        for (uintptr_t x = b; x < pe; x += 8) {
          VC*& v = p->sync[(x >> 3) & 511];
          if (v) { drop_vc(v); v = nullptr; p->nsync--; }
        }
    }
    b = pe;
  }
}

std::string who(int slot, int party, int pair) { (void)slot; return "session " + std::to_string(pair) + " party " + std::to_string(party); }
[[noreturn]] void report(Task* me, uintptr_t a, const Cell& old, bool write, bool atomic, uint32_t pc) {
  me->in_rt++;
  char b[512];
  const char* where = in_arena((void*)a) ? "on the heap" : (a >= 0x150000000000ull && a < 0x150000000000ull + ((uint64_t)kSlots << 23)) ? "on a stack" : "in static storage";
  uint32_t p1 = old.pc, p2 = pc;
  snprintf(b, sizeof b, "two threads access the same memory, %s, without synchronisation: %s%s at {pc:%x} and %s%s at {pc:%x}; the second by session %d party %d thread %d",
           where, old.atomic ? "atomic " : "", old.write ? "write" : "read", p1, atomic ? "atomic " : "", write ? "write" : "read", p2, me->pair, me->party, me->team_tid);
  violation("data_race", b);
}

inline void check_granule(Task* me, uintptr_t g, uint8_t mask, bool write, bool atomic, uint32_t pc) {
  Page* p = page_of(g, true);
  Cell* c = p->cell[(g >> 3) & 511];
  VC& my = g_vc[me->slot];
  uint64_t clk = my.c[me->slot];
  Cell* put = nullptr;
  Cell* empty = nullptr;
  for (int i = 0; i < kCells; i++) {
    Cell& o = c[i];
    if (!o.mask) { if (!empty) empty = &o; continue; }
    bool same = o.slot == me->slot;
    if (same && o.clock == clk && (mask & ~o.mask) == 0 && (o.write || !write) && (!o.atomic || atomic)) return;
    if (!same && !(o.mask & mask)) continue;
    bool before = same || o.clock <= my.c[o.slot];
    if (!before && (o.write || write) && !(o.atomic && atomic)) report(me, g, o, write, atomic, pc);
    if (before && (o.mask & ~mask) == 0 && (write || !o.write) && (!atomic || o.atomic)) {
      if (put) o.mask = 0; else put = &o;
    }
  }
  g_chk++;
  if (!put) put = empty;
  if (!put) {
    // prefer to lose a read
    int s = g_evict++ % kCells;
    put = &c[s];
    for (int i = 0; i < kCells; i++) if (!c[(s + i) % kCells].write) { put = &c[(s + i) % kCells]; break; }
  }
  put->clock = clk;
  put->slot = (uint8_t)me->slot;
  put->mask = mask;
  put->write = write;
  put->atomic = atomic;
  put->pc = pc;
}

inline void access(const void* addr, size_t n, bool write, bool atomic, void* pc) {
  Task* me = self();
  if (!me || me->in_rt || me->no_race || !g_active || !n) return;
  g_acc++;
  if (--me->until_preempt <= 0 && !me->no_preempt) preempt_now(me);
  uintptr_t a = (uintptr_t)addr, e = a + n;
  uint32_t p = (uint32_t)(uintptr_t)pc;
  if ((a & ~uintptr_t(7)) == ((e - 1) & ~uintptr_t(7))) {
    check_granule(me, a, (uint8_t)(((1u << n) - 1) << (a & 7)), write, atomic, p);
    return;
  }
  while (a < e) {
    uintptr_t ge = (a | 7) + 1;
    size_t m = (ge < e ? ge : e) - a;
    check_granule(me, a, (uint8_t)(((1u << m) - 1) << (a & 7)), write, atomic, p);
    a += m;
  }
}
}  // namespace

namespace hb {
void init() {
  for (int i = 0; i < kSlots; i++) g_vc[i].c[i] = 1;
}
void fork(Task* parent, Task* child) {
  VC& c = g_vc[child->slot];
  uint64_t own = c.c[child->slot];
  c = g_vc[parent->slot];
  if (c.c[child->slot] < own) c.c[child->slot] = own;
  c.c[child->slot]++;
  g_vc[parent->slot].c[parent->slot]++;
}
void join(Task* child, Task* into) {
  join_into(&g_vc[into->slot], &g_vc[child->slot]);
  g_vc[child->slot].c[child->slot]++;
}
void release(const void* o) {
  Task* me = self();
  if (!me) return;
  join_into(sync_of(o, true), &g_vc[me->slot]);
  g_vc[me->slot].c[me->slot]++;
}
void acquire(const void* o) {
  Task* me = self();
  if (!me) return;
  if (VC* v = sync_of(o, false)) join_into(&g_vc[me->slot], v);
}
void forget(const void* o, size_t n) { forget_range((uintptr_t)o, n); }
void on_alloc(void* p, size_t n) { forget_range((uintptr_t)p, n); }
void on_free(void*, size_t) {}
void range(const void* p, size_t n, bool write) {
  // data handed to or taken from the outside by code that is not instrumented
  access(p, n, write, false, __builtin_return_address(0));
}
void task_start(Task* t) {
  // nothing of an earlier thread that ran on this stack matters
  uintptr_t b = 0x150000000000ull + ((uint64_t)t->slot << 23), e = b + (1u << 23);
  for (uintptr_t a = b; a < e; a += 4096) if (page_of(a, false)) forget_range(a, 4096);
}
void flush_stats() {
  stat(kStAccesses, g_acc);
  stat(kStRaceChecks, g_chk);
  g_acc = g_chk = 0;
}
}  // namespace hb
}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
typedef unsigned __int128 u128_t;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access(a, n, false, false, PC); } \
  void __tsan_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { access(a, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { access(a, n, false, false, PC); } \
  void __tsan_volatile_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_read_write##n(void* a) { access(a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, long n) { access(a, (size_t)n, false, false, PC); }
void __tsan_write_range(void* a, long n) { access(a, (size_t)n, true, false, PC); }
// A virtual-table pointer written with the value it has is not a race.
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, true, false, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, false, PC); }

static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool traced() { Task* t = self(); return t && g_active && !t->in_rt && !t->no_race; }
static inline void a_begin(volatile void* a, size_t n, bool write, int mo, void* pc) {
  access((void*)a, n, write, true, pc);
  if (acq(mo) && traced()) hb::acquire((void*)a);
}
static inline void a_end(volatile void* a, int mo) { if (rel(mo) && traced()) hb::release((void*)a); }
// Only one task runs at a time: plain operations are atomic.
#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { a_begin((volatile void*)a, sizeof(T), false, mo, PC); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { access((void*)a, sizeof(T), true, true, PC); a_end(a, mo); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { a_begin(a, sizeof(T), true, mo, PC); T o = *a; *a = v; a_end(a, mo); return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { a_begin(a, sizeof(T), true, mo, PC); T o = *a; *a = (T)(o + v); a_end(a, mo); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { a_begin(a, sizeof(T), true, mo, PC); T o = *a; *a = (T)(o - v); a_end(a, mo); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { a_begin(a, sizeof(T), true, mo, PC); T o = *a; *a = (T)(o & v); a_end(a, mo); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { a_begin(a, sizeof(T), true, mo, PC); T o = *a; *a = (T)(o | v); a_end(a, mo); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { a_begin(a, sizeof(T), true, mo, PC); T o = *a; *a = (T)(o ^ v); a_end(a, mo); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { a_begin(a, sizeof(T), true, mo, PC); T o = *a; *a = (T)~(o & v); a_end(a, mo); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    access((void*)a, sizeof(T), true, true, PC); T o = *a; bool ok = o == *c; \
    if (acq(ok ? mo : fmo) && traced()) hb::acquire((void*)a); \
    if (ok) { *a = v; a_end(a, mo); } else { *c = o; } return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, u128_t)
static char g_fence;
void __tsan_atomic_thread_fence(int mo) {
  if (!traced()) return;
  if (acq(mo)) hb::acquire(&g_fence);
  if (rel(mo)) hb::release(&g_fence);
}
void __tsan_atomic_signal_fence(int) {}

// Block operations and deallocations of instrumented objects (their symbols are
// redirected when they are compiled).
void* __race_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memcpy(d, s, n); }
void* __race_memmove(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memmove(d, s, n); }
void* __race_memset(void* d, int c, size_t n) { access(d, n, true, false, PC); return memset(d, c, n); }
int __race_memcmp(const void* a, const void* b, size_t n) { access(a, n, false, false, PC); access(b, n, false, false, PC); return memcmp(a, b, n); }
static void freed(void* p, void* pc) {
  if (p && in_arena(p)) access(p, malloc_usable_size(p), true, false, pc);
}
void free(void*);
void __race_free(void* p) { freed(p, PC); free(p); }
void __race_delete(void* p) { freed(p, PC); ::operator delete(p); }
void __race_delete_v(void* p) { freed(p, PC); ::operator delete[](p); }
void __race_delete_vn(void* p, size_t) { freed(p, PC); ::operator delete[](p); }
void __race_delete_n(void* p, size_t) { freed(p, PC); ::operator delete(p); }
void __race_delete_a(void* p, size_t) { freed(p, PC); ::operator delete(p, std::align_val_t(16)); }
}
