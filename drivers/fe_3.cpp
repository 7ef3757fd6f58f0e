#include "fe.h"
FE_CONFIG(true, 8, true)
FE_CONFIG(false, 33, false)
