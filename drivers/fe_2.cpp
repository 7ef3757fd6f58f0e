#include "fe.h"
FE_CONFIG(true, 5, false)
FE_CONFIG(true, 64, true)
