#pragma once
#include "switch.h"
