#include "fe.h"
FE_CONFIG(false, 64, true)
FE_CONFIG(false, 2, false)
