#include "work/driver_impl.h"
static sim::RegisterDriver<int64_t> reg;
