#include "fe.h"
using namespace fe;
template <bool batch, bool s1, bool s2> static void bitsBinary(Ctx& c) {
  size_t k = batchOf(c, batch);
  auto draw = [&] { V v(k); for (auto& e : v) e = c.r.coin(); return v; };
  V a = draw(), b = draw();
  auto x = inb<s1, batch>(c, a);
  auto y = inb<s2, batch>(c, b);
  constexpr bool s = s1 || s2;
  expectB<s, batch>(c, "&", x & y, a, b, zip(a, b, [](uint64_t p, uint64_t q) { return p & q; }));
  expectB<s, batch>(c, "^", x ^ y, a, b, zip(a, b, [](uint64_t p, uint64_t q) { return p ^ q; }));
  expectB<s, batch>(c, "|", x | y, a, b, zip(a, b, [](uint64_t p, uint64_t q) { return p | q; }));
  expectB<s1, batch>(c, "!", !x, a, {}, zip(a, a, [](uint64_t p, uint64_t) { return 1 - p; }));
  std::array<B<s2, batch>, 3> arr;
  std::vector<B<s2, batch>> vec;
  std::vector<V> vals;
  for (int i = 0; i < 3; i++) { vals.push_back(draw()); arr[i] = inb<s2, batch>(c, vals[i]); }
  auto ra = x & arr;
  for (int i = 0; i < 3; i++) expectB<s, batch>(c, "&array", ra[i], a, vals[i], zip(a, vals[i], [](uint64_t p, uint64_t q) { return p & q; }));
  size_t m = c.r.oneIn(6) ? 30 + c.r.below(40) : 1 + c.r.below(9);
  vals.clear();
  for (size_t i = 0; i < m; i++) { vals.push_back(draw()); vec.push_back(inb<s2, batch>(c, vals[i])); }
  auto rv = x & vec;
  if (rv.size() != m) violation("composite-size", c.tag);
  for (size_t i = 0; i < rv.size() && i < m; i++) expectB<s, batch>(c, "&vector", rv[i], a, vals[i], zip(a, vals[i], [](uint64_t p, uint64_t q) { return p & q; }));
  expectB<s1, batch>(c, "left after", x, a, b, a);
  expectB<s2, batch>(c, "right after", y, a, b, b);
  expectB<s1, batch>(c, "x&x", x & x, a, a, a);
  expectB<s1, batch>(c, "x^x", x ^ x, a, a, V(k, 0));
  if constexpr (s1) {
    auto e = x.extractBit();
    expectB<s1, batch>(c, "share restored", B<true, batch>(std::move(e)), a, {}, a);
  }
  if constexpr (!s1) { // one after the other into the same variable
    B<false, batch> z(rawb<batch>(b));
    z.publicInput(rawb<batch>(a));
    expectB<false, batch>(c, "publicInput", z, a, b, a);
  } else {
    auto z = inb<true, batch>(c, b);
    int o = c.r.below(2);
    z.privateInput(rawb<batch>(c.me < 0 || c.me == o ? a : noisy(c, a, 1)), o);
    expectB<true, batch>(c, "privateInput", z, a, b, a);
  }
}
template <bool batch, bool s1, bool s2> static void strings(Ctx& c) {
  size_t k = batchOf(c, batch), L = c.r.oneIn(8) && k < 20 ? 60 + c.r.below(80) : 1 + c.r.below(20);
  using BT = std::conditional_t<batch, std::vector<bool>, bool>;
  using S1 = fr::BitString<s1, 0, batch>;
  auto draw = [&](size_t l, size_t kk) { std::vector<V> r(l, V(kk)); for (auto& v : r) for (auto& e : v) e = c.r.coin(); return r; };
  auto rawS = [&](const std::vector<V>& v) { std::vector<BT> r; for (auto& e : v) r.push_back(rawb<batch>(e)); return r; };
  auto mk = [&]<bool s>(std::bool_constant<s>, const std::vector<V>& v) {
    if constexpr (s) {
      int o = c.r.below(2);
      auto w = v;
      if (c.me >= 0 && c.me != o) for (auto& e : w) e = noisy(c, e, 1);
      return fr::BitString<true, 0, batch>(rawS(w), o);
    } else return fr::BitString<false, 0, batch>(rawS(v));
  };
  auto see = [&]<bool s>(std::bool_constant<s>, const char* op, const fr::BitString<s, 0, batch>& x, const std::vector<V>& want) {
    if (x.size() != want.size()) { violation("string-size", cat(c.tag, op, x.size(), " want ", want.size())); return; }
    if constexpr (s) {
      int to = c.r.below(2);
      auto o = x.openToParty(to);
      c.later.push_back([&c, op, o, want, to] {
        auto got = o.getValue();
        if (c.me >= 0 && c.me != to) return;
        for (size_t i = 0; i < want.size(); i++) compare(c.tag, op, {i}, {}, toV((BT)got[i]), want[i]);
      });
    } else
      c.later.push_back([&c, op, x, want] { auto got = x.getValue(); for (size_t i = 0; i < want.size(); i++) compare(c.tag, op, {i}, {}, toV((BT)got[i]), want[i]); });
  };
  using T1 = std::bool_constant<s1>; using T2 = std::bool_constant<s2>; using TS = std::bool_constant<s1 || s2>;
  auto a = draw(L, k), b = draw(L, k);
  auto x = mk(T1{}, a);
  auto y = mk(T2{}, b);
  auto map2 = [&](auto f) { std::vector<V> r; for (size_t i = 0; i < L; i++) r.push_back(zip(a[i], b[i], f)); return r; };
  see(TS{}, "str &", x & y, map2([](uint64_t p, uint64_t q) { return p & q; }));
  see(TS{}, "str ^", x ^ y, map2([](uint64_t p, uint64_t q) { return p ^ q; }));
  see(T1{}, "str !", !x, map2([](uint64_t p, uint64_t) { return 1 - p; }));
  V ch(k);
  for (auto& e : ch) e = c.r.coin();
  std::vector<V> sel(L, V(k));
  for (size_t i = 0; i < L; i++) for (size_t j = 0; j < k; j++) sel[i][j] = ch[j] ? b[i][j] : a[i][j];
  see(std::true_type{}, "str mux secret", x.mux(inb<true, batch>(c, ch), y), sel);
  see(TS{}, "str mux public", x.mux(inb<false, batch>(c, ch), y), sel);
  see(T1{}, "str left after", x, a);
  see(T2{}, "str right after", y, b);
  if constexpr (s1) {
    auto e = x.extractStringShare();
    if (e.size() != L) violation("string-size", c.tag + " extracted");
    typename S1::ExtractedString e2(e.getValue());
    see(T1{}, "str share restored", S1(std::move(e)), a);
    see(T1{}, "str share value restored", S1(std::move(e2)), a);
  }
  auto cut = x;
  size_t l2 = c.r.below(L + 1);
  cut.resize(l2);
  see(T1{}, "str resize", cut, std::vector<V>(a.begin(), a.begin() + l2));
  // different lengths
  auto z = mk(T2{}, draw(L + 1 + c.r.below(3), k));
  int threw = 0;
  try { x & z; } catch (const std::exception&) { threw++; }
  try { x ^ z; } catch (const std::exception&) { threw++; }
  try { x.mux(inb<false, batch>(c, ch), z); } catch (const std::exception&) { threw++; }
  try { z & x; } catch (const std::exception&) { threw++; }
  if (threw != 4) violation("length-mismatch-accepted", cat(c.tag, " ", threw, " of 4 refused"));
  try { x.at(L); violation("index-accepted", c.tag + " at(size)"); } catch (const std::exception&) {}
  if constexpr (batch) {
    if (x.getBatchSize() != k) violation("batch-size", c.tag);
    if constexpr (s1) {
      std::vector<S1> more;
      auto all = a;
      auto sizes = std::make_shared<std::vector<uint32_t>>();
      sizes->push_back(k);
      for (size_t j = c.r.below(4); j--;) {
        size_t kk = 1 + c.r.below(5);
        auto v = draw(L, kk);
        more.push_back(mk(T1{}, v));
        sizes->push_back(kk);
        for (size_t i = 0; i < L; i++) all[i].insert(all[i].end(), v[i].begin(), v[i].end());
      }
      auto jn = x.batchingWith(more);
      see(T1{}, "str batchingWith", jn, all);
      auto parts = jn.unbatching(sizes);
      if (parts.size() != sizes->size()) violation("unbatch-count", c.tag);
      size_t at = 0;
      for (size_t j = 0; j < parts.size() && j < sizes->size(); j++) {
        std::vector<V> w;
        for (auto& v : all) w.emplace_back(v.begin() + at, v.begin() + at + (*sizes)[j]);
        at += (*sizes)[j];
        see(T1{}, "str unbatching", parts[j], w);
      }
      bool t = false;
      try { x.batchingWith({mk(T1{}, draw(L + 1, 2))}); } catch (const std::exception&) { t = true; }
      if (!t) violation("length-mismatch-accepted", c.tag + " batchingWith");
    }
  }
}
template <bool batch> static void all(Ctx& c) {
  c.tag = batch ? "bit[]" : "bit";
  bitsBinary<batch, true, true>(c); bitsBinary<batch, true, false>(c);
  bitsBinary<batch, false, true>(c); bitsBinary<batch, false, false>(c);
  c.tag = batch ? "string[]" : "string";
  strings<batch, true, true>(c); strings<batch, true, false>(c);
  strings<batch, false, true>(c); strings<batch, false, false>(c);
  c.flush();
}
static fe::Reg r1("bits", &all<false>);
static fe::Reg r2("bits_batch", &all<true>);
