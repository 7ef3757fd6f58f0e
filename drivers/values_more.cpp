// C27: more kinds
#include "values.h"
void someAdapters(const World& w, size_t k) {
  adapters<mu::Intp<false, 5>>(w, k);
  adapters<mu::Intp<true, 9>>(w, k);
  adapters<mu::Intp<true, 16>>(w, k);
  adapters<mu::Intp<false, 31>>(w, k);
  adapters<mu::Intp<true, 33>>(w, k);
  moreAdapters(w, k);
}
