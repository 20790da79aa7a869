#include "work/vole_impl.h"
static sim::RegisterVole<distributed_vector_ole::gf128> reg;
