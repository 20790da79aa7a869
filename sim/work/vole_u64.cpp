#include "work/vole_impl.h"
static sim::RegisterVole<uint64_t> reg;
namespace sim { bool vole_scaled(int profile) { return scaled_to((dvo::VOLEParameters*)nullptr, profile); } }
namespace sim { int64_t vole_max_batch(double sec) { return max_batch((dvo::VOLEParameters*)nullptr, sec); } }
