// Deterministic allocator used by simulated tasks: fixed addresses, reuse order
// a function of the call sequence, fresh memory filled with seed-derived bytes,
// guard bytes behind every block.
#include "core/alloc.h"

#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <new>

#include "core/sim.h"

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace sim {
namespace {
struct Header {            // 32 bytes in front of the block
  uint64_t magic;
  uint64_t size;           // requested
  uint32_t cls;
  uint32_t offset;         // from raw block start to user pointer
  uint64_t raw;
};
static_assert(sizeof(Header) == 32, "");
constexpr uint64_t kLive = 0x51a1b10c51a1b10cull, kDead = 0xdeadb10cdeadb10cull;
constexpr uint64_t kGuard = 0xfeedfacecafebeefull;
constexpr int kClasses = 160;
bool ready = false;
uintptr_t bump;
uintptr_t freel[kClasses];
uint64_t poison;
uint32_t poison_mode;
uint64_t serial;

size_t class_size(int c) {  // 4 steps per doubling from 64
  size_t base = (size_t)64 << (c / 4);
  return base + base / 4 * (c % 4);
}
int class_of(size_t n) {
  if (n <= 64) return 0;
  int lg = 63 - __builtin_clzll(n);
  int c = (lg - 6) * 4;
  while (class_size(c) < n) c++;
  return c;
}
void fill(void* p, size_t n) {
  if (!poison_mode) { memset(p, 0, n); return; }
  uint64_t x = mix2(poison, ++serial);
  if (n > 4096) x |= 1;
  unsigned char* b = (unsigned char*)p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { memcpy(b + i, &x, 8); x = x * 6364136223846793005ull + 1442695040888963407ull; }
  for (; i < n; i++) b[i] = (unsigned char)(x >> (8 * (i & 7)));
}

void* arena_alloc(size_t n, size_t align, bool zero) {
  if (align < 16) align = 16;
  size_t need = sizeof(Header) + n + 8 + (align > 16 ? align : 0);
  if (n > kArenaSize / 2) return nullptr;
  int c = class_of(need);
  uintptr_t raw;
  if (freel[c]) {
    raw = freel[c];
    memcpy(&freel[c], (void*)(raw), sizeof(uintptr_t));
  } else {
    size_t sz = (class_size(c) + 15) & ~15ull;
    raw = bump;
    if (bump + sz > kArenaBase + kArenaSize) return nullptr;
    bump += sz;
  }
  uintptr_t user = (raw + sizeof(Header) + align - 1) & ~(uintptr_t)(align - 1);
  Header* h = (Header*)(user - sizeof(Header));
  h->magic = kLive;
  h->size = n;
  h->cls = c;
  h->offset = (uint32_t)(user - raw);
  h->raw = raw;
  if (zero) memset((void*)user, 0, n); else fill((void*)user, n);
  memcpy((void*)(user + n), &kGuard, 8);
  hb::on_alloc((void*)user, n);
  return (void*)user;
}
Header* check(void* p, const char* what) {
  Header* h = (Header*)((uintptr_t)p - sizeof(Header));
  if (h->magic != kLive) violation("heap_corruption", h->magic == kDead ? std::string(what) + ": block was already freed" : std::string(what) + ": not an allocated block, or its header was overwritten");
  uint64_t gv;
  memcpy(&gv, (char*)p + h->size, 8);
  if (gv != kGuard) violation("heap_corruption", std::string(what) + ": bytes behind the end of a block were overwritten");
  return h;
}
void arena_free(void* p) {
  Header* h = check(p, "free");
  hb::on_free(p, h->size);
  h->magic = kDead;
  size_t n = h->size < 256 ? h->size : 256;
  memset(p, 0xdd, n);
  uintptr_t raw = h->raw;
  int c = h->cls;
  uintptr_t next = freel[c];
  if (raw + sizeof(uintptr_t) > (uintptr_t)h) {
    // raw start overlaps the header: keep the dead mark readable
    memcpy((void*)raw, &next, sizeof next);
    if ((uintptr_t)h == raw) { /* header magic overwritten by link; mark size */ }
  } else {
    memcpy((void*)raw, &next, sizeof next);
  }
  freel[c] = raw;
}
inline bool use_arena() { return ready && g_active && self() != nullptr; }
}  // namespace

void arena_init(uint64_t seed, uint32_t mode) {
  void* p = mmap((void*)kArenaBase, kArenaSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)kArenaBase) harness_error("cannot map arena");
  bump = kArenaBase + 4096;
  memset(freel, 0, sizeof freel);
  poison = seed;
  poison_mode = mode;
  serial = 0;
  ready = true;
}
}  // namespace sim

using namespace sim;
extern "C" {
void* malloc(size_t n) { return use_arena() ? arena_alloc(n, 16, false) : __libc_malloc(n); }
void free(void* p) {
  if (!p) return;
  if (in_arena(p)) arena_free(p); else __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (!use_arena()) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return arena_alloc(n, 16, true);
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!in_arena(p)) {
    if (!use_arena()) return __libc_realloc(p, n);
    // a libc block grown inside a task (start-up objects): keep it in libc
    return __libc_realloc(p, n);
  }
  if (n == 0) { arena_free(p); return nullptr; }
  Header* h = check(p, "realloc");
  void* q = arena_alloc(n, 16, false);
  if (!q) return nullptr;
  memcpy(q, p, h->size < n ? h->size : n);
  arena_free(p);
  return q;
}
void* memalign(size_t al, size_t n) { return use_arena() ? arena_alloc(n, al, false) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ull); }
size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  if (in_arena(p)) return ((Header*)((uintptr_t)p - sizeof(Header)))->size;
  return 0;
}
}

// operator new: the allocation-failure fault of a simulated party.
static void* sim_new(size_t n, size_t al) {
  Task* t = self();
  if (t && g_active && t->alloc_fail_at >= 0 && !t->in_rt && t->level == 0 && !t->locks) {
    if (t->alloc_count++ == t->alloc_fail_at) {
      stat(kStAllocFail);
      trace(9, t->alloc_count);
      t->on_alloc_fail(t);
      vanish();
    }
  }
  void* p = al > 16 ? memalign(al, n ? n : 1) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return sim_new(n, 16); }
void* operator new[](size_t n) { return sim_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return sim_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return sim_new(n, (size_t)a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
