#include "fe.h"
FE_CONFIG(true, 1, false)
FE_CONFIG(true, 32, true)
