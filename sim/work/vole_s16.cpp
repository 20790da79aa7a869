#include "work/vole_impl.h"
static sim::RegisterVole<int16_t> reg;
