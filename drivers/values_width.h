// C27: arithmetic of every width
#include "values.h"
template <bool sg, int W> static std::vector<__int128> sample(Rng& r) {
  std::vector<__int128> v;
  __int128 lo = sg ? -((__int128)1 << (W - 1)) : 0, hi = lo + ((__int128)1 << W) - 1;
  if (W <= 7) { for (__int128 x = lo; x <= hi; x++) v.push_back(x); return v; }
  for (int d = 0; d < 3; d++) { v.push_back(lo + d); v.push_back(hi - d); v.push_back(d); if (sg) v.push_back(-d - 1); v.push_back((lo + hi) / 2 + d); }
  for (size_t k = 0; k < n(16, 60); k++) v.push_back(lo + (__int128)(r.coin() ? r.edgy(W) : r() & (~0ull >> (64 - W))));
  return v;
}
static std::string dec(__int128 x) { return cat((long long)x, x > (__int128)INT64_MAX ? " (unsigned)" : ""); }
template <bool sg, int W> static void width() {
  using V = mu::Intp<sg, (int8_t)W>;
  using N = typename V::NativeType;
  using A = mu::Adapters<V>;
  auto nm = cat(sg ? "int" : "uint", W);
  runCase(nm, [&] {
    auto r = rng(nm);
    __int128 mod = (__int128)1 << W, lo = sg ? -(mod / 2) : 0, hi = lo + mod - 1;
    auto wrap = [&](__int128 x) { x = (x - lo) % mod; return (x < 0 ? x + mod : x) + lo; };
    auto s = sample<sg, W>(r);
    auto val = [](const V& v) { N x = v; return (__int128)x; };
    if (val(V()) != 0) violation("default", nm);
    for (auto a : s) {
      V x((N)a);
      if (val(x) != a) { violation("construction", cat(nm, " ", dec(a))); return; }
      if (val(-x) != wrap(-a)) { violation("negation", cat(nm, " ", dec(a), " gave ", dec(val(-x)))); return; }
      auto bits = A::convertToBits(x);
      if (bits.size() != W) { violation("bit-count", nm); return; }
      for (int i = 0; i < W; i++) if (bits[i] != (bool)((uint64_t)a >> i & 1)) { violation("bits", cat(nm, " ", dec(a), " bit ", i)); return; }
      if (val(A::convertFromBits(bits)) != a) { violation("bit-round-trip", cat(nm, " ", dec(a), " gave ", dec(val(A::convertFromBits(bits))))); return; }
      for (auto b : s) {
        V y((N)b);
        if (val(x + y) != wrap(a + b)) { violation("sum", cat(nm, " ", dec(a), " + ", dec(b), " gave ", dec(val(x + y)))); return; }
        if (val(x - y) != wrap(a - b)) { violation("difference", cat(nm, " ", dec(a), " - ", dec(b), " gave ", dec(val(x - y)))); return; }
        count("sums_compared");
      }
      if (val(x) != a) violation("operand-changed", nm);
    }
    // a sum stays a value: chains
    V acc;
    __int128 ref = 0;
    for (int i = 0; i < 200; i++) {
      __int128 b = s[r.below(s.size())];
      if (r.coin()) { acc = acc + V((N)b); ref = wrap(ref + b); } else { acc = acc - V((N)b); ref = wrap(ref - b); }
      if (r.oneIn(9)) { acc = -acc; ref = wrap(-ref); }
      if (val(acc) != ref) { violation("chain", cat(nm, " step ", i)); break; }
    }
    // values outside
    __int128 nlo = std::numeric_limits<N>::min(), nhi = std::numeric_limits<N>::max();
    for (__int128 d : {(__int128)1, (__int128)2, (__int128)1 + (__int128)r.below(1000), mod, mod / 2}) {
      if (hi + d <= nhi) refuse(cat(nm, " takes ", dec(hi + d)), [&] { V v((N)(hi + d)); });
      if (lo - d >= nlo) refuse(cat(nm, " takes ", dec(lo - d)), [&] { V v((N)(lo - d)); });
    }
    if (nhi > hi) refuse(cat(nm, " takes the largest"), [&] { V v((N)nhi); });
    if (nlo < lo) refuse(cat(nm, " takes the smallest"), [&] { V v((N)nlo); });
    refuse(cat(nm, " too many bits"), [&] { A::convertFromBits(std::vector<bool>(W + 1 + r.below(3))); });
    // made of any key: a value
    for (int k = 0; k < 50; k++) {
      auto key = _mm_set_epi64x(r(), r.edgy(64));
      auto x = val(A::generateFromKey(key));
      if (x < lo || x > hi) violation("key-out-of-range", cat(nm, " ", dec(x)));
      if (val(A::generateFromKey(key)) != x) violation("key-unstable", nm);
    }
  });
  distinct(nm);
}
template <int... W> static void widths(std::integer_sequence<int, W...>) { (width<true, VALUES_FROM + W>(), ...); (width<false, VALUES_FROM + W>(), ...); }
