#include "work/driver_impl.h"
static sim::RegisterDriver<absl::uint128> reg;
