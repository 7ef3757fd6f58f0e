#include "fe.h"
FE_CONFIG(true, 2, true)
FE_CONFIG(true, 64, false)
