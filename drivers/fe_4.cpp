#include "fe.h"
FE_CONFIG(true, 16, true)
FE_CONFIG(false, 7, false)
