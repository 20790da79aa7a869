#include "work/vole_impl.h"
static sim::RegisterVole<NTL::zz_p> reg;
