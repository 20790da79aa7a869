#include "work/vole_impl.h"
static sim::RegisterVole<uint32_t> reg;
