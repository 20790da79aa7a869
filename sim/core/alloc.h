#ifndef SIM_CORE_ALLOC_H_
#define SIM_CORE_ALLOC_H_
#include <stddef.h>
#include <stdint.h>
namespace sim {
constexpr uintptr_t kArenaBase = 0x100000000000ull;
constexpr size_t kArenaSize = 8ull << 30;
void arena_init(uint64_t poison_seed, uint32_t poison);
inline bool in_arena(const void* p) { return (uintptr_t)p - kArenaBase < kArenaSize; }
}  // namespace sim
#endif
