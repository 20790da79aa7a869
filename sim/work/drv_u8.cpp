#include "work/driver_impl.h"
static sim::RegisterDriver<uint8_t> reg;
