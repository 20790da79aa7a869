#include "work/driver_impl.h"
static sim::RegisterDriver<uint64_t> reg;
