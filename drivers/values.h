// C27: the adapters of every kind of value.
#pragma once
#include "kinds.h"
using namespace kinds;
namespace kinds {
template <class A, class B, class C> struct K<std::pair<std::pair<A, B>, C>> : Scalar<std::pair<std::pair<A, B>, C>> {
  using P = std::pair<std::pair<A, B>, C>;
  static std::string name() { return cat("pair<", K<std::pair<A, B>>::name(), ",", K<C>::name(), ">"); }
  static E rnd(Rng& r) { return {K<A>::rnd(r)[0] | K<B>::rnd(r)[0] << 32, K<C>::rnd(r)[0]}; }
  static P to(const E& e) { return {{K<A>::to({e[0] & 0xffffffff, 0}), K<B>::to({e[0] >> 32, 0})}, K<C>::to({e[1], 0})}; }
  static E from(const P& p) { return {K<A>::from(p.first.first)[0] | K<B>::from(p.first.second)[0] << 32, K<C>::from(p.second)[0]}; }
};
} // namespace kinds
template <class F> inline void refuse(const std::string& what, F f) {
  bool threw = false;
  try { f(); } catch (const std::exception&) { threw = true; }
  count("refusals");
  if (!threw) violation("accepted", what);
}
template <class T> concept Rebatches = !std::is_same_v<T, mu::AggregationValue>;
template <class T> concept Recovers = std::is_same_v<T, mu::AggregationValue> || std::is_same_v<T, uint32_t> || requires { T::kMax; };
template <class T> void adapters(const World& w, size_t id, size_t large = 0) {
  if constexpr (std::is_same_v<T, std::vector<bool>>) { auto r = rng(cat("width", w.str(), id)); stringWidth() = 1 + r.below(r.coin() ? 128 : 9); }
  size_t sw = stringWidth();
  if (large > 300) sw = stringWidth() = 3;
  auto nm = cat("adapters ", K<T>::name(), " ", w.str(), " #", id, large ? cat(" of ", large) : "");
  auto r0 = rng(nm);
  size_t size = large ? large : 1 + r0.below(r0.oneIn(4) ? 90 : 9);
  uint64_t seed = r0();
  runCase(nm, [&] {
    std::vector<std::vector<bool>> shareBits[2];
    onWorld(w, [&](int me, sched::IScheduler&) {
      stringWidth() = sw;
      using M = mu::MpcAdapters<T, 0>;
      Rng r(seed), noise(seed + 1 + me);
      Who who{me, w.s == SchedKind::Plain};
      Es a = random<T>(r, size), b = random<T>(r, size);
      int oa = r.below(2), ob = r.below(2), to = r.below(2);
      auto sa = input<T>(who, a, oa, noise), sb = input<T>(who, b, ob, noise);
      expectOpen<T>(who, "input", sa, to, a, nm);
      // swaps
      for (int round = 0; round < 2; round++) {
        std::vector<bool> sel(size);
        int style = r.below(4);
        for (size_t i = 0; i < size; i++) sel[i] = style == 0 ? true : style == 1 ? false : r.coin();
        int os = r.below(2);
        std::vector<bool> mine = sel;
        if (!who.plain && os != me) for (size_t i = 0; i < size; i++) mine[i] = noise.coin();
        auto [x, y] = M::obliviousSwap(sa, sb, fbpcf::frontend::Bit<true, 0, true>(mine, os));
        Es wx = a, wy = b;
        for (size_t i = 0; i < size; i++) if (sel[i]) std::swap(wx[i], wy[i]);
        expectOpen<T>(who, "swap-first", x, r.below(2), wx, nm);
        expectOpen<T>(who, "swap-second", y, r.below(2), wy, nm);
        count("swaps");
      }
      if constexpr (Rebatches<T>) {
        size_t k = r.below(4);
        Es all = a;
        auto strategy = std::make_shared<std::vector<uint32_t>>(1, size);
        std::vector<Es> parts{a};
        std::vector<Sec<T>> others;
        for (size_t i = 0; i < k; i++) {
          size_t m = 1 + r.below(7);
          Es c = random<T>(r, m);
          others.push_back(input<T>(who, c, r.below(2), noise));
          all.insert(all.end(), c.begin(), c.end());
        }
        auto joined = M::batchingWith(sa, others);
        expectOpen<T>(who, "batching", joined, to, all, nm);
        // and apart again, in other pieces
        auto cut = std::make_shared<std::vector<uint32_t>>();
        for (size_t left = all.size(); left;) { size_t m = r.oneIn(5) ? left : 1 + r.below(left); cut->push_back(m); left -= m; }
        auto apart = M::unbatching(joined, cut);
        if (apart.size() != cut->size()) violation("unbatching-count", nm);
        size_t at = 0;
        for (size_t i = 0; i < apart.size() && i < cut->size(); i++) {
          expectOpen<T>(who, "unbatching", apart[i], r.below(2), Es(all.begin() + at, all.begin() + at + cut->at(i)), nm);
          at += cut->at(i);
        }
        count("rebatches");
      }
      if constexpr (Recovers<T>) { // values from shares both parties hold
        std::vector<bool> one = mu::Adapters<T>::convertToBits(K<T>::to(a[0]));
        std::vector<std::vector<bool>> sh(one.size(), std::vector<bool>(size));
        Rng rr(seed + 99);
        for (size_t i = 0; i < size; i++) {
          auto bits = mu::Adapters<T>::convertToBits(K<T>::to(a[i]));
          for (size_t q = 0; q < bits.size(); q++) { bool m = rr.coin(); sh[q][i] = who.plain ? bits[q] : me == 0 ? m : m ^ bits[q]; }
        }
        auto s = M::recoverBatchSharedSecrets(sh);
        if (w.s != SchedKind::NetPlain) { expectOpen<T>(who, "recovered", s, r.below(2), a, nm); count("recoveries"); }
      }
      expectOpen<T>(who, "input-afterwards", sa, r.below(2), a, nm);
      expectOpen<T>(who, "input-afterwards", sb, r.below(2), b, nm);
      progress();
    });
  });
  distinct(nm);
}
void someAdapters(const World& w, size_t k);
void widthsBelow();
void widthsAbove();
void moreAdapters(const World& w, size_t k);
