#include "work/driver_impl.h"
static sim::RegisterDriver<uint32_t> reg;
