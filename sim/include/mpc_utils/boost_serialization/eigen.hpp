#pragma once
#include "mpc_utils/serialize_sim.h"
