#include "work/vole_impl.h"
static sim::RegisterVole<uint8_t> reg;
