#include "work/vole_impl.h"
static sim::RegisterVole<uint16_t> reg;
