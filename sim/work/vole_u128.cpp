#include "work/vole_impl.h"
static sim::RegisterVole<absl::uint128> reg;
