// C27: more kinds
#include "values.h"
void moreAdapters(const World& w, size_t k) {
  adapters<mu::Intp<true, 64>>(w, k);
  adapters<mu::Intp<false, 64>>(w, k);
  adapters<std::pair<bool, uint32_t>>(w, k);
  adapters<std::pair<mu::Intp<true, 64>, mu::Intp<false, 12>>>(w, k);
  adapters<std::pair<std::pair<mu::Intp<true, 7>, bool>, mu::Intp<true, 40>>>(w, k);
}
