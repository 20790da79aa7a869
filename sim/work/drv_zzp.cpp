#include "work/driver_impl.h"
static sim::RegisterDriver<NTL::ZZ_p> reg;
