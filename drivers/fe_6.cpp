#include "fe.h"
FE_CONFIG(true, 33, true)
FE_CONFIG(false, 1, true)
