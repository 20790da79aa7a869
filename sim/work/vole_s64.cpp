#include "work/vole_impl.h"
static sim::RegisterVole<int64_t> reg;
