#include "work/vole_impl.h"
static sim::RegisterVole<NTL::ZZ_p> reg;
