#include "fe.h"
using namespace fe;
// what differs between the kinds of values
template <bool sg, int W> struct IntK {
  using T = I<sg, W, true, true>;
  static constexpr int width = W;
  static const char* name() { return sg ? "Int signed" : "Int unsigned"; }
  static T make(const V& v, int owner) { return T(raw<sg, W, true>(v), owner); }
  static V open(const T& x, int to) { V g = toV(x.openToParty(to).getValue()); for (auto& e : g) e &= mask<W>(); return g; }
  static T mix(const T& a, const T& b) { return a + b; }
  static uint64_t mixv(uint64_t a, uint64_t b) { return (a + b) & mask<W>(); }
};
struct BitK {
  using T = B<true, true>;
  static constexpr int width = 1;
  static const char* name() { return "Bit"; }
  static T make(const V& v, int owner) { return T(rawb<true>(v), owner); }
  static V open(const T& x, int to) { return toV(x.openToParty(to).getValue()); }
  static T mix(const T& a, const T& b) { return a & b; }
  static uint64_t mixv(uint64_t a, uint64_t b) { return a & b; }
};
template <int W> struct StrK {
  using T = fr::BitString<true, 0, true>;
  static constexpr int width = W;
  static const char* name() { return "BitString"; }
  static T make(const V& v, int owner) {
    std::vector<std::vector<bool>> d(W, std::vector<bool>(v.size()));
    for (int i = 0; i < W; i++) for (size_t j = 0; j < v.size(); j++) d[i][j] = v[j] >> i & 1;
    return T(d, owner);
  }
  static V open(const T& x, int to) {
    auto d = x.openToParty(to).getValue();
    V g;
    for (size_t i = 0; i < d.size(); i++) { if (g.empty()) g.resize(d[i].size()); for (size_t j = 0; j < d[i].size() && j < g.size(); j++) g[j] |= (uint64_t)d[i][j] << i; }
    return g;
  }
  static T mix(const T& a, const T& b) { return a ^ b; }
  static uint64_t mixv(uint64_t a, uint64_t b) { return a ^ b; }
};
template <class Kd> static void one(const World& w, size_t id) {
  std::string nm = cat("typed ", Kd::name(), "<", Kd::width, "> ", w.str(), "#", id);
  runCase(nm, [&] {
    onWorld(w, [&](int me, sched::IScheduler&) {
      bool plain = w.s == SchedKind::Plain;
      Rng r = rng(nm), noise = rng(cat(nm, me));
      struct It { typename Kd::T x; V v; };
      std::vector<It> it;
      auto add = [&](typename Kd::T x, V v) {
        if (x.getBatchSize() != v.size()) violation("size", cat(nm, " getBatchSize ", x.getBatchSize(), " want ", v.size()));
        count("size_queries");
        it.push_back({std::move(x), std::move(v)});
      };
      auto input = [&] {
        V v(1 + r.below(9));
        for (auto& e : v) e = r.edgy(Kd::width);
        int o = r.below(2);
        V mine = v;
        if (!plain && o != me) for (auto& e : mine) e = noise.edgy(Kd::width);
        add(Kd::make(mine, o), v);
      };
      auto look = [&](const It& x) {
        int to = r.below(2);
        V g = Kd::open(x.x, to);
        if (!plain && to != me) return;
        count("elements_compared", g.size());
        if (g != x.v) violation("wrong-elements", cat(nm, " got ", str(g), " want ", str(x.v)));
      };
      input(); input(); input();
      for (int k = 0; k < 14; k++) {
        size_t a = r.below(it.size());
        switch (r.below(6)) {
          case 0: input(); break;
          case 1: case 2: {
            std::vector<typename Kd::T> more;
            V v = it[a].v;
            std::vector<uint32_t> sizes{(uint32_t)v.size()};
            for (size_t i = r.below(4); i-- > 0;) {
              size_t b = r.below(it.size());
              more.push_back(it[b].x);
              v.insert(v.end(), it[b].v.begin(), it[b].v.end());
              sizes.push_back(it[b].v.size());
            }
            auto j = it[a].x.batchingWith(more);
            count("joins");
            if (r.coin()) {
              auto ps = j.unbatching(std::make_shared<std::vector<uint32_t>>(sizes));
              if (ps.size() != sizes.size()) { violation("pieces", nm); return; }
              size_t pos = 0;
              for (size_t i = 0; i < ps.size(); i++) { add(ps[i], V(v.begin() + pos, v.begin() + pos + sizes[i])); pos += sizes[i]; }
              count("splits");
            }
            add(j, v);
            break;
          }
          case 3: {
            V v = it[a].v;
            std::vector<uint32_t> sizes;
            size_t left = v.size();
            do { size_t t = r.oneIn(3) ? left : r.below(left + 1); sizes.push_back(t); left -= t; } while (left);
            auto ps = it[a].x.unbatching(std::make_shared<std::vector<uint32_t>>(sizes));
            if (ps.size() != sizes.size()) { violation("pieces", nm); return; }
            size_t pos = 0;
            for (size_t i = 0; i < ps.size(); i++) { add(ps[i], V(v.begin() + pos, v.begin() + pos + sizes[i])); pos += sizes[i]; }
            count("splits");
            break;
          }
          case 4: {
            for (size_t b = 0; b < it.size(); b++)
              if (it[b].v.size() == it[a].v.size() && it[a].v.size()) {
                V v = it[a].v;
                for (size_t i = 0; i < v.size(); i++) v[i] = Kd::mixv(v[i], it[b].v[i]);
                auto x = Kd::mix(it[a].x, it[b].x);
                add(x, v);
                break;
              }
            break;
          }
          default: if (it[a].v.size()) look(it[a]);
        }
      }
      for (auto& x : it) look(x);
      if constexpr (requires(typename Kd::T t) { t.data(); }) {}
    });
    distinct(nm);
  });
}
static void lengths() { // strings of different lengths cannot be joined
  runCase("strings of different lengths", [&] {
    onWorld({SchedKind::Plain, EngineKind::Dealer, Alloc::Map, 2}, [&](int, sched::IScheduler&) {
      auto a = StrK<5>::make({1, 2}, 0), b = StrK<6>::make({1, 2, 3}, 0);
      bool refused = false;
      try { a.batchingWith({a, b}); } catch (const std::exception&) { refused = true; }
      count("misfits");
      if (!refused) violation("misfit-accepted", "strings of 5 and 6 bits joined");
    });
  });
}
void typed() {
  Switch::install<0>();
  for (size_t i = 0; i < n(5, 100); i++)
    for (auto k : {SchedKind::Plain, SchedKind::Eager, SchedKind::Lazy}) {
      World w{k, EngineKind::Dealer, (Alloc)(i % 3), 2};
      one<BitK>(w, i);
      one<IntK<true, 8>>(w, i);
      one<IntK<false, 32>>(w, i);
      one<IntK<true, 64>>(w, i);
      one<IntK<false, 1>>(w, i);
      one<StrK<5>>(w, i);
      one<StrK<33>>(w, i);
    }
  lengths();
}
