// C27: fixed-width values, bit conversions and the adapters of every kind of value.
#include "values.h"
static void words() {
  runCase("words", [&] {
    auto r = rng("words");
    for (size_t k = 0; k < n(2000, 50000); k++) {
      uint32_t a = r.edgy(32), b = r.edgy(32), c = r.edgy(32), d = r.edgy(32);
      using U = mu::Adapters<uint32_t>;
      using G = mu::Adapters<mu::AggregationValue>;
      auto bits = U::convertToBits(a);
      if (bits.size() != 32 || U::convertFromBits(bits) != a) violation("bit-round-trip", cat("uint32 ", a));
      for (int i = 0; i < 32; i++) if (bits.at(i) != (a >> i & 1)) { violation("bits", cat("uint32 ", a)); break; }
      mu::AggregationValue x(a, b), y(c, d), z = x;
      if (!(x + y == mu::AggregationValue(a + c, b + d)) || !(x - y == mu::AggregationValue(a - c, b - d)) || !(-x == mu::AggregationValue(0 - a, 0 - b))) violation("aggregation", cat(a, ",", b, " and ", c, ",", d));
      z += y;
      if (!(z == x + y)) violation("aggregation", cat(a, ",", b, " += ", c, ",", d));
      mu::AggregationValue one(b);
      if (one.conversionCount != (b > 0) || one.conversionValue != b) violation("aggregation", cat("of one value ", b));
      if ((x == y) != (a == c && b == d)) violation("aggregation", "equality");
      auto g = G::convertToBits(x);
      if (g.size() != 64 || !(G::convertFromBits(g) == x)) violation("bit-round-trip", cat("aggregation ", a, ",", b));
      count("words_compared");
    }
    refuse("uint32 of 33 bits", [&] { mu::Adapters<uint32_t>::convertFromBits(std::vector<bool>(33)); });
    for (size_t w : {0, 1, 63, 65, 128}) refuse(cat("aggregation of ", w, " bits"), [&] { mu::Adapters<mu::AggregationValue>::convertFromBits(std::vector<bool>(w)); });
  });
  distinct("words");
}
static void blocks(size_t id) {
  auto nm = cat("blocks #", id);
  runCase(nm, [&] {
    auto r = rng(nm);
    size_t size = r.oneIn(10) ? 0 : 1 + r.below(r.oneIn(4) ? 300 : 20);
    std::vector<__m128i> v(size);
    for (auto& x : v) x = _mm_set_epi64x(r.edgy(64), r.coin() ? r() : r.edgy(64));
    auto keep = v;
    auto bits = mu::convertToBits(v);
    if (size && memcmp(keep.data(), v.data(), 16 * size)) violation("input-changed", nm);
    if (bits.size() != 128) { violation("block-bits", nm); return; }
    for (size_t b = 0; b < 128; b++) {
      if (bits[b].size() != size) { violation("block-bits", nm); return; }
      for (size_t i = 0; i < size; i++) {
        auto p = (const unsigned char*)&v[i];
        if (bits[b][i] != (p[b / 8] >> (b % 8) & 1)) { violation("block-bit", cat(nm, " block ", i, " bit ", b)); return; }
      }
    }
    auto back = mu::convertFromBits(bits);
    count("blocks_compared", size);
    if (back.size() != size || (size && memcmp(back.data(), v.data(), 16 * size))) violation("block-round-trip", nm);
    auto bad = bits;
    if (r.coin()) bad.pop_back(); else bad.push_back(bad[0]);
    refuse(cat(nm, " of ", bad.size(), " bits"), [&] { mu::convertFromBits(bad); });
    bad = bits;
    if (size) { bad[1 + r.below(127)].pop_back(); refuse(cat(nm, " ragged"), [&] { mu::convertFromBits(bad); }); }
  });
  distinct(nm);
}
// what masks a value: from a random key, every value of the type alike
template <class T> static void fromKeys(size_t id) {
  if constexpr (requires(__m128i k) { mu::Adapters<T>::generateFromKey(k); }) {
    auto nm = cat("keys ", K<T>::name(), " #", id);
    auto r = rng(nm);
    runCase(nm, [&] {
      const size_t draws = 3000;
      std::vector<std::vector<bool>> col;
      for (size_t i = 0; i < draws; i++) {
        __m128i key = _mm_set_epi64x(r(), r());
        T v = mu::Adapters<T>::generateFromKey(key);
        auto b = mu::Adapters<T>::convertToBits(v);
        if (mu::Adapters<T>::convertToBits(mu::Adapters<T>::generateFromKey(key)) != b) { violation("key-not-repeatable", nm); return; }
        col.resize(b.size());
        for (size_t j = 0; j < b.size(); j++) col[j].push_back(b[j]);
        count("values_drawn");
      }
      const double far = 7 * std::sqrt((double)draws) / 2;
      for (size_t i = 0; i < col.size(); i++)
        for (size_t j = i; j < col.size(); j++) {
          long ones = 0;
          for (size_t q = 0; q < draws; q++) ones += j == i ? col[i][q] : col[i][q] != col[j][q];
          if (std::fabs(ones - draws / 2.0) > far) { violation("key-values-uneven", cat(nm, " bits ", i, " and ", j, ": ", ones, " of ", draws)); return; }
        }
    });
    distinct(nm);
  }
}
void vfMain() {
  Switch::install<0>();
  widthsBelow();
  widthsAbove();
  words();
  for (size_t k = 0; k < n(60, 1000); k++) blocks(k);
  for (size_t k = 0; k < n(1, 20); k++) {
    fromKeys<uint32_t>(k);
    fromKeys<mu::AggregationValue>(k);
    fromKeys<mu::Intp<true, 2>>(k);
    fromKeys<mu::Intp<true, 9>>(k);
    fromKeys<mu::Intp<false, 9>>(k);
    fromKeys<mu::Intp<true, 33>>(k);
    fromKeys<mu::Intp<false, 31>>(k);
    fromKeys<mu::Intp<true, 64>>(k);
    fromKeys<mu::Intp<false, 64>>(k);
  }
  World ws[] = {{SchedKind::Plain, EngineKind::Dummy, Alloc::Map, 2}, {SchedKind::NetPlain, EngineKind::Dummy, Alloc::Map, 2}, {SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2}, {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2}};
  for (auto& w : ws)
    for (size_t k = 0; k < (w.s == SchedKind::Plain ? n(8, 80) : n(2, 25)); k++) {
      adapters<bool>(w, k);
      adapters<uint32_t>(w, k);
      adapters<mu::AggregationValue>(w, k);
      adapters<std::vector<bool>>(w, k);
      adapters<mu::Intp<true, 2>>(w, k);
      someAdapters(w, k);
    }
  for (auto& w : ws) for (size_t large : {257, 1100}) {
    if (w.s != SchedKind::Plain && w.s != SchedKind::NetPlain && large > 300 && !thorough()) continue;
    adapters<bool>(w, 0, large);
    adapters<uint32_t>(w, 0, large);
    adapters<mu::AggregationValue>(w, 0, large);
    adapters<std::vector<bool>>(w, 0, large);
    adapters<mu::Intp<true, 9>>(w, 0, large);
  }
}
