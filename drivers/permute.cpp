// C19: oblivious permutation against plain indexing, for every kind of value.
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "kinds.h"
using namespace kinds;
namespace pm = fbpcf::mpc_std_lib::permuter;

template <class T> static std::unique_ptr<pm::IPermuter<Sec<T>>> permuter(bool real, int me, int partner) {
  if (real) return pm::AsWaksmanPermuterFactory<T, 0>(me, partner).create();
  return pm::insecure::DummyPermuterFactory<T, 0>(me, partner).create();
}
struct Job { size_t size; std::vector<uint32_t> order; Es v; int dataOf, orderOf, to; };
static Es pick(const Es& v, const std::vector<uint32_t>& o) { Es r; for (auto i : o) r.push_back(v[i]); return r; }

template <class T> static void session(const World& w, bool real, size_t id, const std::vector<size_t>& sizes) {
  size_t width = 1;
  if constexpr (std::is_same_v<T, std::vector<bool>>) {
    auto r = rng(cat("width", w.str(), id));
    size_t ws[] = {1, 2, 7, 8, 33, 64, 65, 128};
    width = ws[r.below(8)];
  }
  stringWidth() = width;
  auto nm = cat(real ? "waksman " : "dummy ", K<T>::name(), " ", w.str(), " #", id, " sizes ", str(sizes));
  runCase(nm, [&] {
    std::vector<Job> jobs;
    auto r = rng(nm);
    for (auto s : sizes) {
      Job j{s, permutation(r, s), random<T>(r, s), (int)r.below(2), (int)r.below(2), (int)r.below(2)};
      jobs.push_back(j);
    }
    onWorld(w, [&](int me, sched::IScheduler& s) {
      stringWidth() = width;
      Who who{me, w.s == SchedKind::Plain};
      auto noise = rng(cat(nm, "noise", me));
      auto p = permuter<T>(real, me, 1 - me);
      for (auto& j : jobs) {
        auto src = input<T>(who, j.v, j.dataOf, noise);
        auto tag = cat(nm, " order ", str(j.order), " of party ", j.orderOf);
        bool owner = who.plain || j.orderOf == me;
        if (owner && noise.oneIn(2)) { // a bad order first: nothing may happen
          auto o = j.order;
          size_t sz = j.size;
          int kind = noise.below(4);
          if (kind == 0) o.push_back(o.size());
          else if (kind == 1) o.pop_back();
          else if (kind == 2 && o.size() > 1) { size_t a = noise.below(o.size()); o[a] = o[(a + 1 + noise.below(o.size() - 1)) % o.size()]; }
          else o[noise.below(o.size())] = noise.coin() ? o.size() : noise.coin() ? 0xffffffffu : o.size() + noise.below(1000);
          auto before = s.getTrafficStatistics();
          bool threw = false;
          try { p->permute(src, sz, o); } catch (const std::exception&) { threw = true; }
          if (!threw) violation("bad-order-accepted", cat(tag, " bad order ", str(o)));
          if (s.getTrafficStatistics() != before) violation("bad-order-computed", cat(tag, " bad order ", str(o)));
          count("refusals");
        }
        auto o = j.order;
        auto out = owner ? p->permute(src, j.size, o) : p->permute(src, j.size);
        if (o != j.order) violation("order-changed", tag);
        expectOpen<T>(who, "wrong-order", out, j.to, pick(j.v, j.order), tag);
        expectOpen<T>(who, "input-changed", src, j.to, j.v, tag);
        count("permutations");
        if (j.size > 65536) count("wide_permutations");
        progress();
      }
    });
  });
  distinct(nm);
}
// every permutation of small sizes, in the clear
template <class T> static void all(size_t size) {
  stringWidth() = 20;
  auto nm = cat("all permutations of ", size, " ", K<T>::name());
  runCase(nm, [&] {
    onWorld({SchedKind::Plain, EngineKind::Dealer, Alloc::ArenaSafe, 2}, [&](int, sched::IScheduler&) {
      stringWidth() = 20;
      auto r = rng(nm);
      std::vector<uint32_t> o(size);
      for (size_t i = 0; i < size; i++) o[i] = i;
      auto p = permuter<T>(true, 0, 1);
      do {
        auto v = random<T>(r, size);
        auto src = K<T>::make(v, 0);
        auto out = p->permute(src, size, o);
        expectOpen<T>({0, true}, "wrong-order", out, 0, pick(v, o), cat(nm, " order ", str(o)));
        count("permutations");
        distinct(cat(nm, str(o)));
      } while (std::next_permutation(o.begin(), o.end()));
    });
  });
}
template <class T> static void kind(size_t tag) {
  auto r = rng(cat("kind", tag));
  World ws[] = {{SchedKind::Plain, EngineKind::Dealer, Alloc::ArenaSafe, 2}, {SchedKind::NetPlain, EngineKind::Dealer, Alloc::Map, 2},
                {SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2}, {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2}};
  for (auto& w : ws)
    for (size_t k = 0; k < n(1, 12); k++) {
      std::vector<size_t> sizes;
      for (int i = 0; i < 6; i++) sizes.push_back(1 + r.below(i < 2 ? 8 : 40));
      if (k == 0 && w.s == SchedKind::Plain) sizes.push_back(1000 + r.below(1100));
      if (r.oneIn(3)) sizes.push_back(r.coin() ? 100 + r.below(200) : (1 << (5 + r.below(3))) + (int)r.below(3) - 1);
      session<T>(w, true, k, sizes);
      sizes.resize(3);
      session<T>(w, false, k, sizes);
    }
}
// more positions than 16 bits can tell apart
template <class T> static void wide(size_t tag) {
  auto r = rng(cat("wide", tag));
  for (size_t k = 0; k < n(1, 4); k++) {
    session<T>({SchedKind::Plain, EngineKind::Dealer, Alloc::ArenaUnsafe, 2}, true, 1000 + k, {65537 + r.below(3000)});
  }
}
void vfMain() {
  Switch::install<0>();
  all<uint32_t>(1); all<uint32_t>(2); all<uint32_t>(3); all<uint32_t>(4); all<uint32_t>(5);
  for (size_t s = 1; s <= n(6, 8); s++) all<std::vector<bool>>(s);
  all<bool>(6);
  if (thorough()) { all<uint32_t>(6); all<uint32_t>(7); }
  wide<bool>(0);
  wide<std::vector<bool>>(1);
  if (thorough()) wide<uint32_t>(2);
  kind<bool>(0);
  for (size_t k = 0; k < n(3, 6); k++) kind<std::vector<bool>>(10 + k);
  kind<uint32_t>(1);
  kind<mu::Intp<true, 9>>(2);
  kind<mu::Intp<false, 64>>(3);
  kind<std::pair<uint32_t, bool>>(4);
  kind<std::pair<mu::Intp<true, 16>, uint32_t>>(5);
}
