#define VALUES_FROM 1
#include "values_width.h"
void widthsBelow() { widths(std::make_integer_sequence<int, 32>()); }
