#include "work/driver_impl.h"
static sim::RegisterDriver<uint16_t> reg;
