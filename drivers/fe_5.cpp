#include "fe.h"
FE_CONFIG(true, 31, false)
FE_CONFIG(false, 32, false)
