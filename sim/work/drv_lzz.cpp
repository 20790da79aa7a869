#include "work/driver_impl.h"
static sim::RegisterDriver<NTL::zz_p> reg;
