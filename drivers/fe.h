// C02: typed values against two's-complement arithmetic. Both parties run the
// same template instantiations (lib/switch.h).
#pragma once
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/frontend/Int.h"
#include "switch.h"
#include <set>

namespace fe {
using namespace vf;
namespace fr = fbpcf::frontend;
struct Ctx {
  int me;
  Rng r;       // the same at both parties
  Rng noise;   // differs
  std::string tag;
  std::vector<std::function<void()>> later;
  void flush() { for (auto& f : later) f(); later.clear(); }
};
using V = std::vector<uint64_t>; // element values, already reduced to the width
template <int W> constexpr uint64_t mask() { return W >= 64 ? ~0ull : ((1ull << W) - 1); }
template <bool sg, int W> int64_t sx(uint64_t v) { // as a plain number
  if constexpr (sg) { return W >= 64 ? (int64_t)v : (int64_t)(v << (64 - W)) >> (64 - W); }
  return (int64_t)v;
}
template <bool sg, int W> bool less(uint64_t a, uint64_t b) {
  if constexpr (sg) return sx<sg, W>(a) < sx<sg, W>(b);
  return a < b;
}
void compare(const std::string& tag, const char* op, const V& a, const V& b, const V& got, const V& want);

// inputs: numbers as the API takes them
template <bool sg, int W, bool batch> auto raw(const V& v) {
  using U = std::conditional_t<sg, int64_t, uint64_t>;
  if constexpr (batch) { std::vector<U> r; for (auto x : v) r.push_back((U)sx<sg, W>(x)); return r; }
  else return (U)sx<sg, W>(v[0]);
}
template <bool batch> auto rawb(const V& v) {
  if constexpr (batch) return std::vector<bool>(v.begin(), v.end());
  else return (bool)v[0];
}
inline V noisy(Ctx& c, const V& v, uint64_t m) { V r(v.size()); for (auto& x : r) x = c.noise() & m; return r; }

template <bool sg, int W, bool sec, bool batch> using I = fr::Int<sg, W, sec, 0, batch>;
template <bool sec, bool batch> using B = fr::Bit<sec, 0, batch>;

template <bool sg, int W, bool sec, bool batch> I<sg, W, sec, batch> in(Ctx& c, const V& v) {
  if constexpr (sec) {
    int owner = c.r.below(2);
    V mine = owner == c.me || c.me < 0 ? v : noisy(c, v, mask<W>());
    return I<sg, W, true, batch>(raw<sg, W, batch>(mine), owner);
  } else return I<sg, W, false, batch>(raw<sg, W, batch>(v));
}
template <bool sec, bool batch> B<sec, batch> inb(Ctx& c, const V& v) {
  if constexpr (sec) {
    int owner = c.r.below(2);
    V mine = owner == c.me || c.me < 0 ? v : noisy(c, v, 1);
    return B<true, batch>(rawb<batch>(mine), owner);
  } else return B<false, batch>(rawb<batch>(v));
}
template <class T> V toV(const std::vector<T>& v) { return V(v.begin(), v.end()); }
inline V toV(int64_t v) { return {(uint64_t)v}; }
inline V toV(uint64_t v) { return {v}; }
inline V toV(bool v) { return {v}; }

// opens and compares, later
template <class X> void expect(Ctx& c, const char* op, const X& x, const V& a, const V& b, V want) {
  if constexpr (requires { x.openToParty(0).getValue(); }) {
    int to = c.r.below(2);
    auto o = x.openToParty(to);
    c.later.push_back([&c, op, o, a, b, want, to] {
      V got = toV(o.getValue());
      if (c.me < 0 || c.me == to) compare(c.tag, op, a, b, got, want);
    });
  } else
    c.later.push_back([&c, op, x, a, b, want] { compare(c.tag, op, a, b, toV(x.getValue()), want); });
}
template <bool sg, int W, bool sec, bool batch> void expectI(Ctx& c, const char* op, const I<sg, W, sec, batch>& x, const V& a, const V& b, V want) {
  for (auto& w : want) w = (uint64_t)sx<sg, W>(w & mask<W>());
  if constexpr (sec) {
    int to = c.r.below(2);
    auto o = x.openToParty(to);
    c.later.push_back([&c, op, o, a, b, want, to] {
      V got = toV(o.getValue());
      if (c.me < 0 || c.me == to) compare(c.tag, op, a, b, got, want);
    });
  } else
    c.later.push_back([&c, op, x, a, b, want] { compare(c.tag, op, a, b, toV(x.getValue()), want); });
}
template <bool sec, bool batch> void expectB(Ctx& c, const char* op, const B<sec, batch>& x, const V& a, const V& b, const V& want) {
  if constexpr (sec) {
    int to = c.r.below(2);
    auto o = x.openToParty(to);
    c.later.push_back([&c, op, o, a, b, want, to] {
      V got = toV(o.getValue());
      if (c.me < 0 || c.me == to) compare(c.tag, op, a, b, got, want);
    });
  } else
    c.later.push_back([&c, op, x, a, b, want] { compare(c.tag, op, a, b, toV(x.getValue()), want); });
}

template <class F> V zip(const V& a, const V& b, F f) { V r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = f(a[i], b[i]); return r; }

// the powers of two, their neighbours and their negatives
template <int W> const V& lattice() {
  static const V v = [] {
    std::set<uint64_t> s;
    for (int j = 0; j < W; j++) for (uint64_t e : {(1ull << j) - 1, 1ull << j, (1ull << j) + 1}) { s.insert(e & mask<W>()); s.insert((0 - e) & mask<W>()); }
    return V(s.begin(), s.end());
  }();
  return v;
}
template <int W> uint64_t val(Rng& r) {
  auto& l = lattice<W>();
  return r.oneIn(3) ? l[r.below(l.size())] : r.edgy(W) & mask<W>();
}
// every value of the lattice once, at times
template <int W, bool batch> bool whole(Ctx& c) { return batch && c.r.oneIn(c.me < 0 ? 2 : 5); }

// mostly a few; at times more than any block, byte or word holds
inline size_t batchOf(Ctx& c, bool batch) {
  if (!batch) return 1;
  if (!c.r.oneIn(c.me < 0 ? 10 : 14)) return 1 + c.r.below(7);
  static const size_t big[] = {8, 9, 17, 33, 64, 65, 129, 257, 513, 1030};
  return big[c.r.below(c.me < 0 ? 10 : 8)];
}
template <bool sg, int W, bool batch, bool s1, bool s2> void binary(Ctx& c) {
  bool sweep = whole<W, batch>(c);
  size_t k = sweep ? lattice<W>().size() : batchOf(c, batch);
  V a(k), b(k), ch(k);
  for (size_t i = 0; i < k; i++) {
    a[i] = sweep ? lattice<W>()[i] : val<W>(c.r);
    b[i] = c.r.oneIn(4) ? a[i] : c.r.oneIn(5) ? (a[i] ^ (1ull << c.r.below(W))) : val<W>(c.r);
    ch[i] = c.r.coin();
  }
  if (sweep) count("lattice_sweeps");
  auto x = in<sg, W, s1, batch>(c, a);
  auto y = in<sg, W, s2, batch>(c, b);
  expectI<sg, W, s1 || s2, batch>(c, "+", x + y, a, b, zip(a, b, [](uint64_t p, uint64_t q) { return p + q; }));
  expectI<sg, W, s1 || s2, batch>(c, "-", x - y, a, b, zip(a, b, [](uint64_t p, uint64_t q) { return p - q; }));
  auto lt = zip(a, b, [](uint64_t p, uint64_t q) { return less<sg, W>(p, q); });
  auto gt = zip(a, b, [](uint64_t p, uint64_t q) { return less<sg, W>(q, p); });
  auto eq = zip(a, b, [](uint64_t p, uint64_t q) { return p == q; });
  auto inv = [](V v) { for (auto& e : v) e = !e; return v; };
  expectB<s1 || s2, batch>(c, "<", x < y, a, b, lt);
  expectB<s1 || s2, batch>(c, "<=", x <= y, a, b, inv(gt));
  expectB<s1 || s2, batch>(c, ">", x > y, a, b, gt);
  expectB<s1 || s2, batch>(c, ">=", x >= y, a, b, inv(lt));
  expectB<s1 || s2, batch>(c, "==", x == y, a, b, eq);
  V sel = zip(zip(a, b, [](uint64_t p, uint64_t q) { return p ^ q; }), ch, [](uint64_t d, uint64_t z) { return z ? d : 0; });
  sel = zip(a, sel, [](uint64_t p, uint64_t q) { return p ^ q; });
  auto cs = inb<true, batch>(c, ch);
  expectI<sg, W, true, batch>(c, "mux secret", x.mux(cs, y), a, b, sel);
  auto cp = inb<false, batch>(c, ch);
  expectI<sg, W, s1 || s2, batch>(c, "mux public", x.mux(cp, y), a, b, sel);
  expectB<true, batch>(c, "choice after", cs, a, b, ch);
  auto mx = zip(a, b, [](uint64_t p, uint64_t q) { return less<sg, W>(p, q) ? q : p; });
  auto mn = zip(a, b, [](uint64_t p, uint64_t q) { return less<sg, W>(p, q) ? p : q; });
  expectI<sg, W, s1 || s2, batch>(c, "max", fr::max(x, y), a, b, mx);
  expectI<sg, W, s1 || s2, batch>(c, "min", fr::min(x, y), a, b, mn);
  // operands are as they were
  expectI<sg, W, s1, batch>(c, "left after", x, a, b, a);
  expectI<sg, W, s2, batch>(c, "right after", y, a, b, b);
  // a value with itself
  expectI<sg, W, s1, batch>(c, "x-x", x - x, a, a, V(k, 0));
  expectB<s1, batch>(c, "x==x", x == x, a, a, V(k, 1));
}

template <bool sg, int W, int W2, bool batch, bool s> void castTo(Ctx& c, const I<sg, W, s, batch>& x, const V& a) {
  V want = a;
  if (sg) for (auto& e : want) e = (uint64_t)sx<sg, W>(e);
  expectI<sg, W2, s, batch>(c, "cast", x.template cast<W2>(), a, {W2}, want);
}

template <bool sg, int W, bool batch, bool s> void unary(Ctx& c) {
  bool sweep = whole<W, batch>(c);
  size_t k = sweep ? lattice<W>().size() : batchOf(c, batch);
  V a(k);
  for (auto& e : a) e = val<W>(c.r);
  if (sweep) a = lattice<W>(), count("lattice_sweeps");
  auto x = in<sg, W, s, batch>(c, a);
  if constexpr (sg) {
    V neg = a, ab = a;
    for (auto& e : neg) e = (0 - e);
    for (auto& e : ab) if (sx<sg, W>(e) < 0) e = 0 - e;
    expectI<sg, W, s, batch>(c, "negate", -x, a, {}, neg);
    expectI<sg, W, s, batch>(c, "abs", fr::abs(x), a, {}, ab);
  }
  if constexpr (W > 1) castTo<sg, W, (W + 1) / 2, batch, s>(c, x, a);
  castTo<sg, W, W, batch, s>(c, x, a);
  castTo<sg, W, (W + 64) / 2, batch, s>(c, x, a);
  if constexpr (W < 64) castTo<sg, W, 64, batch, s>(c, x, a);
  for (int q = 0; q < 3; q++) {
    size_t i = c.r.below(W);
    V bits = a;
    for (auto& e : bits) e = e >> i & 1;
    expectB<s, batch>(c, "bit", std::as_const(x)[i], a, {i}, bits);
  }
  for (size_t i : {(size_t)W, (size_t)W + 1, (size_t)-1}) {
    bool threw = false;
    try { x[i]; } catch (const std::exception&) { threw = true; }
    if (!threw) violation("index-accepted", cat(c.tag, " bit ", i, " of width ", W));
  }
  // copies are independent of the original
  auto y = x;
  y[c.r.below(W)] = B<s, batch>();
  y = x;
  auto z = std::move(y);
  y = z + x;
  expectI<sg, W, s, batch>(c, "copy", z, a, {}, a);
  expectI<sg, W, s, batch>(c, "reassigned", y, a, {}, zip(a, a, [](uint64_t p, uint64_t q) { return p + q; }));
  expectI<sg, W, s, batch>(c, "original", x, a, {}, a);
  if constexpr (s) {
    auto ex = x.extractIntShare();
    auto bs = ex.getBooleanShares();
    if (bs.size() != W) violation("share-width", cat(c.tag, " ", bs.size(), " bits for width ", W));
    auto sv = ex.getValue();
    typename I<sg, W, true, batch>::ExtractedInt again(sv);
    if (toV(again.getValue()) != toV(sv)) violation("extracted-roundtrip", c.tag);
    expectI<sg, W, s, batch>(c, "share restored", I<sg, W, true, batch>(std::move(ex)), a, {}, a);
    expectI<sg, W, s, batch>(c, "share value restored", I<sg, W, true, batch>(std::move(again)), a, {}, a);
  }
  if constexpr (batch) {
    if (x.getBatchSize() != k) violation("batch-size", cat(c.tag, " ", x.getBatchSize(), " want ", k));
    if constexpr (s) {
      std::vector<I<sg, W, s, batch>> more;
      V all = a;
      auto sizes = std::make_shared<std::vector<uint32_t>>();
      sizes->push_back(k);
      for (size_t j = c.r.below(4); j--;) {
        V b(c.r.oneIn(12) ? 60 + c.r.below(80) : 1 + c.r.below(5));
        for (auto& e : b) e = val<W>(c.r);
        more.push_back(in<sg, W, s, batch>(c, b));
        all.insert(all.end(), b.begin(), b.end());
        sizes->push_back(b.size());
      }
      auto joined = x.batchingWith(more);
      expectI<sg, W, s, batch>(c, "batchingWith", joined, a, all, all);
      if (joined.getBatchSize() != all.size()) violation("batch-size", cat(c.tag, " joined ", joined.getBatchSize(), " want ", all.size()));
      auto parts = joined.unbatching(sizes);
      if (parts.size() != sizes->size()) violation("unbatch-count", c.tag);
      size_t at = 0;
      for (size_t j = 0; j < parts.size() && j < sizes->size(); j++) {
        V w(all.begin() + at, all.begin() + at + (*sizes)[j]);
        at += w.size();
        expectI<sg, W, s, batch>(c, "unbatching", parts[j], all, {j}, w);
      }
    }
  }
  // values that do not fit
  using U = std::conditional_t<sg, int64_t, uint64_t>;
  if constexpr (W < 64) {
    std::vector<U> bad;
    if constexpr (sg) bad = {(U)(1ll << (W - 1)), (U)(-(1ll << (W - 1)) - 1), INT64_MAX, INT64_MIN, (U)(1ll << W)};
    else bad = {(U)(1ull << W), ~0ull, (U)(mask<W>() + 1 + c.r.below(1ull << (63 - W)))};
    for (U v : bad) {
      bool threw = false;
      try {
        if constexpr (batch) { std::vector<U> q(k, 0); q[c.r.below(k)] = v; if constexpr (s) I<sg, W, s, batch>(q, 0); else I<sg, W, s, batch> z(q); }
        else { if constexpr (s) I<sg, W, s, batch>(v, 0); else I<sg, W, s, batch> z(v); }
      } catch (const std::exception&) { threw = true; }
      if (!threw) violation("range-accepted", cat(c.tag, " value ", v, " in width ", W));
    }
  }
}

template <bool sg, int W, bool batch> void config(Ctx& c) {
  c.tag = cat(sg ? "int" : "uint", W, batch ? "[]" : "");
  unary<sg, W, batch, true>(c);
  unary<sg, W, batch, false>(c);
  binary<sg, W, batch, true, true>(c);
  binary<sg, W, batch, true, false>(c);
  binary<sg, W, batch, false, true>(c);
  binary<sg, W, batch, false, false>(c);
  c.flush();
}
using Fn = void (*)(Ctx&);
struct Reg { Reg(const char* n, Fn f); };
std::vector<std::pair<std::string, Fn>>& table();
#define FE_CONFIG(sg, W, batch) static fe::Reg reg_##sg##W##batch(#sg "_" #W "_" #batch, &fe::config<sg, W, batch>);
} // namespace fe
