// makeEngine lives in mpc_engine.cpp (declared in mpc.h)
#pragma once
#include "mpc.h"
