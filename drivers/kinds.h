// the kinds of values the library functions work on, seen as pairs of numbers
#pragma once
#include "fbpcf/mpc_std_lib/util/util.h"
#include "fbpcf/mpc_std_lib/util/pairUtil.h"
#include "switch.h"
namespace kinds {
using namespace vf;
namespace mu = fbpcf::mpc_std_lib::util;
using E = std::array<uint64_t, 2>;
using Es = std::vector<E>;
inline std::string show(const Es& v) {
  std::string s = cat(v.size(), " [");
  for (size_t i = 0; i < v.size() && i < 24; i++) s += v[i][1] ? cat(v[i][0], "/", v[i][1], " ") : cat(v[i][0], " ");
  return s + "]";
}
template <class T> struct K;
template <class T> using Sec = typename mu::SecBatchType<T, 0>::type;
template <class T> struct Scalar { // anything MpcAdapters takes element by element
  static std::vector<T> plain(const Es& v) { std::vector<T> p; for (auto& e : v) p.push_back(K<T>::to(e)); return p; }
  static Sec<T> make(const Es& v, int owner) { return mu::MpcAdapters<T, 0>::processSecretInputs(plain(v), owner); }
  static Es open(const Sec<T>& x, int to) {
    Es r;
    for (auto e : mu::MpcAdapters<T, 0>::openToParty(x, to)) r.push_back(K<T>::from(e));
    return r;
  }
};
template <> struct K<bool> : Scalar<bool> {
  static std::string name() { return "bit"; }
  static E rnd(Rng& r) { return {(uint64_t)r.coin(), 0}; }
  static bool to(const E& e) { return e[0]; }
  static E from(bool b) { return {b, 0}; }
};
template <> struct K<uint32_t> : Scalar<uint32_t> {
  static std::string name() { return "uint32"; }
  static E rnd(Rng& r) { return {r.edgy(32) & 0xffffffff, 0}; }
  static uint32_t to(const E& e) { return e[0]; }
  static E from(uint32_t b) { return {b, 0}; }
};
template <> struct K<mu::AggregationValue> : Scalar<mu::AggregationValue> {
  static std::string name() { return "aggregation"; }
  static E rnd(Rng& r) { return {r.edgy(32) & 0xffffffff, r.edgy(32) & 0xffffffff}; }
  static mu::AggregationValue to(const E& e) { return {(uint32_t)e[0], (uint32_t)e[1]}; }
  static E from(const mu::AggregationValue& b) { return {b.conversionCount, b.conversionValue}; }
};
template <bool sg, int8_t W> struct K<mu::Intp<sg, W>> : Scalar<mu::Intp<sg, W>> {
  using N = typename mu::Intp<sg, W>::NativeType;
  static constexpr uint64_t mask = ~0ull >> (64 - W);
  static std::string name() { return cat(sg ? "int" : "uint", (int)W); }
  static E rnd(Rng& r) { return {r.edgy(W) & mask, 0}; }
  static mu::Intp<sg, W> to(const E& e) {
    if (sg) return mu::Intp<sg, W>((N)((int64_t)(e[0] << (64 - W)) >> (64 - W)));
    return mu::Intp<sg, W>((N)e[0]);
  }
  static E from(const mu::Intp<sg, W>& b) { N n = b; return {(uint64_t)(int64_t)n & mask, 0}; }
};
template <class A, class B> struct K<std::pair<A, B>> : Scalar<std::pair<A, B>> {
  static std::string name() { return cat("pair<", K<A>::name(), ",", K<B>::name(), ">"); }
  static E rnd(Rng& r) { return {K<A>::rnd(r)[0], K<B>::rnd(r)[0]}; }
  static std::pair<A, B> to(const E& e) { return {K<A>::to({e[0], 0}), K<B>::to({e[1], 0})}; }
  static E from(const std::pair<A, B>& b) { return {K<A>::from(b.first)[0], K<B>::from(b.second)[0]}; }
};
inline size_t& stringWidth() { static thread_local size_t w = 7; return w; }
template <> struct K<std::vector<bool>> { // [bit][element]
  static std::string name() { return cat("string", stringWidth()); }
  static E rnd(Rng& r) { size_t w = stringWidth(); return {r.edgy(std::min<size_t>(w, 64)) & (~0ull >> (64 - std::min<size_t>(w, 64))), w > 64 ? r() & (~0ull >> (128 - w)) : 0}; }
  static std::vector<std::vector<bool>> plain(const Es& v) {
    std::vector<std::vector<bool>> d(stringWidth(), std::vector<bool>(v.size()));
    for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < v.size(); j++) d[i][j] = v[j][i / 64] >> (i % 64) & 1;
    return d;
  }
  static Es back(const std::vector<std::vector<bool>>& d) {
    Es r(d.empty() ? 0 : d[0].size(), E{0, 0});
    for (size_t i = 0; i < d.size() && i < 128; i++) for (size_t j = 0; j < d[i].size() && j < r.size(); j++) r[j][i / 64] |= (uint64_t)d[i][j] << (i % 64);
    if (d.size() != stringWidth()) r.push_back({d.size(), 0xbad});
    return r;
  }
  static Sec<std::vector<bool>> make(const Es& v, int owner) { return mu::MpcAdapters<std::vector<bool>, 0>::processSecretInputs(plain(v), owner); }
  static Es open(const Sec<std::vector<bool>>& x, int to) { return back(mu::MpcAdapters<std::vector<bool>, 0>::openToParty(x, to)); }
};
template <class T> Es random(Rng& r, size_t n) { Es v(n); for (auto& e : v) e = K<T>::rnd(r); return v; }
inline std::vector<uint32_t> permutation(Rng& r, size_t n) {
  std::vector<uint32_t> p(n);
  for (size_t i = 0; i < n; i++) p[i] = i;
  switch (r.below(5)) {
    case 0: break; // identity
    case 1: std::reverse(p.begin(), p.end()); break;
    case 2: std::rotate(p.begin(), p.begin() + r.below(n), p.end()); break;
    default: for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
  }
  return p;
}
// in a two-party session: my view of who owns what
struct Who { int me; bool plain; };
template <class T> Sec<T> input(const Who& w, const Es& v, int owner, Rng& noise) {
  return K<T>::make(w.plain || owner == w.me ? v : random<T>(noise, v.size()), owner);
}
template <class T> void expectOpen(const Who& w, const char* key, const Sec<T>& x, int to, const Es& want, const std::string& tag) {
  auto got = K<T>::open(x, to);
  if (!w.plain && w.me != to) return;
  count("elements_compared", want.size());
  if (got != want) violation(key, cat(tag, " got ", show(got), " want ", show(want)));
}
} // namespace kinds
