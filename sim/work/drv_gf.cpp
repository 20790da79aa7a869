#include "work/driver_impl.h"
static sim::RegisterDriver<distributed_vector_ole::gf128> reg;
