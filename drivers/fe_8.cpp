#include "fe.h"
FE_CONFIG(false, 63, true)
FE_CONFIG(false, 8, false)
