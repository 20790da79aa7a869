#include "work/driver_impl.h"
static sim::RegisterDriver<int16_t> reg;
