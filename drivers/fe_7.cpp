#include "fe.h"
FE_CONFIG(true, 63, false)
FE_CONFIG(false, 3, true)
