#define VALUES_FROM 33
#include "values_width.h"
void widthsAbove() { widths(std::make_integer_sequence<int, 32>()); }
