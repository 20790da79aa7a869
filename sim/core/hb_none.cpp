// Plain build: no memory-access tracing.
#include "core/sim.h"
namespace sim {
namespace hb {
void fork(Task*, Task*) {}
void join(Task*, Task*) {}
void release(const void*) {}
void acquire(const void*) {}
void on_alloc(void*, size_t) {}
void on_free(void*, size_t) {}
void task_start(Task*) {}
void forget(const void*, size_t) {}
void range(const void*, size_t, bool) {}
void flush_stats() {}
void init() {}
}  // namespace hb
}  // namespace sim
