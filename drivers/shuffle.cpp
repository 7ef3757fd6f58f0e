// C20: shuffling and compaction keep exactly the elements; permutations are fair.
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/compactor/DummyCompactorFactory.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactorFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/NonShufflerFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
#include "fbpcf/mpc_std_lib/util/secureRandomPermutation.h"
#include "kinds.h"
using namespace kinds;
namespace pm = fbpcf::mpc_std_lib::permuter;
namespace sh = fbpcf::mpc_std_lib::shuffler;
namespace co = fbpcf::mpc_std_lib::compactor;
namespace eu = fbpcf::engine::util;

enum class Sh { Non, Dummy, Waksman };
static const char* nameOf(Sh s) { return s == Sh::Non ? "none" : s == Sh::Dummy ? "dummy" : "waksman"; }
template <class T> static std::unique_ptr<pm::IPermuterFactory<Sec<T>>> permuters(Sh k, int me) {
  if (k == Sh::Waksman) return std::make_unique<pm::AsWaksmanPermuterFactory<T, 0>>(me, 1 - me);
  return std::make_unique<pm::insecure::DummyPermuterFactory<T, 0>>(me, 1 - me);
}
template <class T> static std::unique_ptr<sh::IShufflerFactory<Sec<T>>> shufflers(Sh k, int me) {
  if (k == Sh::Non) return std::make_unique<sh::insecure::NonShufflerFactory<Sec<T>>>();
  return std::make_unique<sh::PermuteBasedShufflerFactory<Sec<T>>>(me, 1 - me, permuters<T>(k, me), std::make_unique<eu::AesPrgFactory>(64));
}
static Es sorted(Es v) { std::sort(v.begin(), v.end()); return v; }

template <class T> static void shuffleCase(const World& w, Sh kind, size_t id) {
  auto nm = cat("shuffle ", nameOf(kind), " ", K<T>::name(), " ", w.str(), " #", id);
  stringWidth() = 5;
  runCase(nm, [&] {
    auto r = rng(nm);
    struct J { Es v; int dataOf, to; };
    std::vector<J> jobs;
    for (int i = 0; i < 4; i++) { J j{random<T>(r, 1 + r.below(i ? 40 : 4)), (int)r.below(2), (int)r.below(2)}; if (r.oneIn(3)) for (auto& e : j.v) e = j.v[r.below(2) % j.v.size()]; jobs.push_back(j); }
    onWorld(w, [&](int me, sched::IScheduler&) {
      stringWidth() = 5;
      Who who{me, w.s == SchedKind::Plain};
      auto noise = rng(cat(nm, "noise", me));
      auto s = shufflers<T>(kind, me)->create();
      for (auto& j : jobs) {
        auto src = input<T>(who, j.v, j.dataOf, noise);
        auto out = s->shuffle(src, j.v.size());
        auto got = K<T>::open(out, j.to);
        if (who.plain || me == j.to) {
          count("elements_compared", got.size());
          if (sorted(got) != sorted(j.v)) violation("shuffle-not-permutation", cat(nm, " got ", show(got), " of ", show(j.v)));
          if (kind == Sh::Non && got != j.v) violation("order-changed", nm);
        }
        expectOpen<T>(who, "input-changed", src, j.to, j.v, nm);
        count("shuffles");
        progress();
      }
    });
  });
  distinct(nm);
}
// the order is fresh, and either party alone randomises it
static void orderCase(const World& w, Sh kind, size_t id) {
  using T = uint32_t;
  auto nm = cat("order ", nameOf(kind), " ", w.str(), " #", id);
  runCase(nm, [&] {
    size_t size = 24;
    Es v(size);
    for (size_t i = 0; i < size; i++) v[i] = {i, 0};
    std::map<std::string, Es> seen; // filled by party 0
    bool plain = w.s == SchedKind::Plain;
    onWorld(w, [&](int me, sched::IScheduler&) {
      Who who{me, plain};
      auto noise = rng(cat(nm, "noise", me));
      auto run = [&](const char* what, std::unique_ptr<sh::IShuffler<Sec<T>>> s) {
        auto out = s->shuffle(input<T>(who, v, 0, noise), size);
        auto got = K<T>::open(out, 0);
        if (me == 0) { seen[what] = got; if (sorted(got) != v) violation("shuffle-not-permutation", cat(nm, " ", what, " ", show(got))); }
        progress();
      };
      auto fixed = [&](int which) {
        return std::make_unique<sh::PermuteBasedShuffler<Sec<T>>>(me, 1 - me, permuters<T>(kind, me)->create(), eu::AesPrgFactory(64).create(_mm_set_epi64x(id, me + 10 * which)));
      };
      auto fresh = shufflers<T>(kind, me);
      run("fresh a", fresh->create());
      run("fresh b", fresh->create());
      auto s = fresh->create();
      auto once = [&](const char* what) { auto out = s->shuffle(input<T>(who, v, 0, noise), size); auto got = K<T>::open(out, 0); if (me == 0) seen[what] = got; };
      once("same object a");
      once("same object b");
      run("both fixed a", fixed(1));
      run("both fixed b", fixed(1));
      if (me == 0) run("zero fixed a", fixed(2)); else run("zero fixed a", fresh->create());
      if (me == 0) run("zero fixed b", fixed(2)); else run("zero fixed b", fresh->create());
      if (me == 1) run("one fixed a", fixed(3)); else run("one fixed a", fresh->create());
      if (me == 1) run("one fixed b", fixed(3)); else run("one fixed b", fresh->create());
    });
    auto differ = [&](const char* a, const char* b, const char* key) {
      count("orders_compared");
      if (seen[a] == seen[b]) violation(key, cat(nm, " ", a, " and ", b, ": ", show(seen[a])));
    };
    differ("fresh a", "fresh b", "order-repeats");
    differ("same object a", "same object b", "order-repeats");
    differ("fresh a", "same object a", "order-repeats");
    if (!plain) {
      differ("zero fixed a", "zero fixed b", "order-ignores-party-1");
      differ("one fixed a", "one fixed b", "order-ignores-party-0");
    }
    Es id0 = v;
    for (auto& [k, o] : seen) if (o == id0) violation("order-is-identity", cat(nm, " ", k));
  });
  distinct(nm);
}
template <class T> static void compactCase(const World& w, int kind, size_t id) { // kind 0..2: shuffle based; 3: dummy
  auto nm = cat("compact ", kind == 3 ? "reveal-all" : nameOf((Sh)kind), " ", K<T>::name(), " ", w.str(), " #", id);
  stringWidth() = 5;
  runCase(nm, [&] {
    auto r = rng(nm);
    struct J { Es v, l; int dataOf, labelOf, to; size_t k; };
    std::vector<J> jobs;
    for (int i = 0; i < 5; i++) {
      if (id == 1000 && i) break;
      J j{random<T>(r, id == 1000 ? 65600 + r.below(3000) : 1 + r.below(i ? 30 : 3)), {}, (int)r.below(2), (int)r.below(2), (int)r.below(2), 0};
      if (r.oneIn(3)) for (auto& e : j.v) e = j.v[r.below(3) % j.v.size()];
      int density = kind == 3 && i == 0 ? 2 : r.below(4);
      for (auto& e : j.v) { (void)e; bool b = density == 0 ? false : density == 1 ? true : density == 2 ? r.coin() : r.oneIn(6); j.l.push_back({b, 0}); j.k += b; }
      if (kind == 3 && !j.k) { j.l[r.below(j.l.size())][0] = 1; j.k = 1; }
      jobs.push_back(j);
    }
    onWorld(w, [&](int me, sched::IScheduler&) {
      stringWidth() = 5;
      Who who{me, w.s == SchedKind::Plain};
      auto noise = rng(cat(nm, "noise", me));
      std::unique_ptr<co::ICompactor<Sec<T>, Sec<bool>>> c;
      if (kind == 3) c = co::insecure::DummyCompactorFactory<T, bool, 0>(me, 1 - me).create();
      else c = co::ShuffleBasedCompactorFactory<T, bool, 0>(me, 1 - me, shufflers<std::pair<T, bool>>((Sh)kind, me)).create();
      for (auto& j : jobs) {
        auto src = input<T>(who, j.v, j.dataOf, noise);
        auto lab = input<bool>(who, j.l, j.labelOf, noise);
        auto [os, ol] = c->compaction(src, lab, j.v.size(), true);
        Es want;
        for (size_t i = 0; i < j.v.size(); i++) if (j.l[i][0]) want.push_back(j.v[i]);
        auto tag = cat(nm, " src ", show(j.v), " labels ", show(j.l));
        if (ol.getBatchSize() != j.k) violation("number", cat(tag, " labels returned ", ol.getBatchSize(), " want ", j.k));
        auto gs = K<T>::open(os, j.to), gl = K<bool>::open(ol, j.to);
        if (who.plain || me == j.to) {
          count("elements_compared", j.v.size());
          if (sorted(gs) != sorted(want)) violation("wrong-elements", cat(tag, " got ", show(gs), " want ", show(want)));
          if (gl != Es(j.k, E{1, 0})) violation("wrong-labels", cat(tag, " got ", show(gl)));
          count(j.k ? "compactions" : "empty_compactions");
        }
        expectOpen<T>(who, "input-changed", src, j.to, j.v, nm);
        expectOpen<bool>(who, "input-changed", lab, j.to, j.l, nm);
        progress();
      }
    });
  });
  distinct(nm);
}
struct BadPrg : eu::IPrg { // constant or slowly changing bytes
  int mode; uint64_t c = 0;
  explicit BadPrg(int m) : mode(m) {}
  std::vector<bool> getRandomBits(uint32_t n) override { return std::vector<bool>(n, mode); }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override { std::vector<unsigned char> b(n); for (auto& x : b) x = mode == 0 ? 0 : mode == 1 ? 255 : c++ / 3; return b; }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override { return std::vector<uint64_t>(n, c++); }
};
static bool isPermutation(const std::vector<uint32_t>& p, size_t n) {
  std::vector<bool> s(n);
  if (p.size() != n) return false;
  for (auto i : p) { if (i >= n || s[i]) return false; s[i] = true; }
  return true;
}
static void permutations() {
  auto r = rng("permutations");
  runCase("permutations", [&] {
    for (size_t k = 0; k < n(300, 5000); k++) {
      size_t size = k < 5 ? k : k == 5 ? 65537 + r.below(5000) : r.oneIn(20) ? 1000 + r.below(3000) : r.below(200);
      auto prg = eu::AesPrgFactory(1024).create(_mm_set_epi64x(r(), r()));
      BadPrg bad(r.below(3));
      auto p = mu::secureRandomPermutation(size, *prg), q = mu::secureRandomPermutation(size, bad);
      if (!isPermutation(p, size) || !isPermutation(q, size)) violation("not-a-permutation", cat("size ", size, " ", str(p), " ", str(q)));
      count("permutations_checked", 2);
    }
  });
  // every order of 2 to 5 equally often; every position of 2 to 40 gets every element equally often
  for (size_t size = 2; size <= 5; size++) runCase(cat("fair orders ", size), [&] {
    std::map<std::vector<uint32_t>, size_t> c;
    size_t f = 1;
    for (size_t i = 2; i <= size; i++) f *= i;
    size_t N = n(300, 6000) * f;
    auto prg = eu::AesPrgFactory(4096).create(_mm_set_epi64x(r(), r()));
    for (size_t i = 0; i < N; i++) c[mu::secureRandomPermutation(size, *prg)]++;
    double chi = 0, e = (double)N / f;
    for (auto& [p, k] : c) chi += (k - e) * (k - e) / e;
    chi += (f - c.size()) * e;
    double df = f - 1, lim = df + 8 * std::sqrt(2 * df) + 30;
    count("fairness_draws", N);
    if (chi > lim) violation("biased-orders", cat("size ", size, " chi2 ", chi, " over ", lim));
    progress();
    distinct(cat("fair orders ", size));
  });
  for (size_t size : {2, 3, 7, 20, 33, 300}) runCase(cat("fair positions ", size), [&] {
    std::vector<size_t> c(size * size);
    size_t N = (size > 100 ? n(100, 1000) : n(300, 6000)) * size;
    auto prg = eu::AesPrgFactory(4096).create(_mm_set_epi64x(r(), r()));
    for (size_t i = 0; i < N; i++) { auto p = mu::secureRandomPermutation(size, *prg); for (size_t j = 0; j < size; j++) c[j * size + p[j]]++; if (i % 1000 == 0) progress(); }
    double e = (double)N / size, sd = std::sqrt(e * (1 - 1.0 / size));
    for (size_t j = 0; j < c.size(); j++)
      if (std::abs(c[j] - e) > (size > 100 ? 9 : 7.5) * sd) violation("biased-position", cat("size ", size, " element ", j % size, " at ", j / size, ": ", c[j], " of ", e));
    count("fairness_draws", N);
    distinct(cat("fair positions ", size));
  });
}
template <class T> static void kind(size_t reps) {
  World ws[] = {{SchedKind::Plain, EngineKind::Dummy, Alloc::ArenaSafe, 2}, {SchedKind::NetPlain, EngineKind::Dummy, Alloc::Map, 2},
                {SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2}, {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2}};
  for (auto& w : ws)
    for (size_t i = 0; i < reps; i++) {
      for (Sh s : {Sh::Non, Sh::Dummy, Sh::Waksman}) if (s == Sh::Waksman || i == 0) shuffleCase<T>(w, s, i);
      // strings are taken bit by bit, so the stand-ins that open pairs or strings element by element do not support them
      bool str = std::is_same_v<T, std::vector<bool>>;
      for (int c = 0; c < 4; c++) if ((c >= 2 || i == 0) && !(str && c % 2)) compactCase<T>(w, c, i);
    }
}
void vfMain() {
  Switch::install<0>();
  permutations();
  World ws[] = {{SchedKind::Plain, EngineKind::Dummy, Alloc::ArenaSafe, 2}, {SchedKind::NetPlain, EngineKind::Dummy, Alloc::Map, 2},
                {SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2}, {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2}};
  for (auto& w : ws) for (Sh s : {Sh::Dummy, Sh::Waksman}) for (size_t k = 0; k < n(1, 10); k++) orderCase(w, s, k);
  compactCase<uint32_t>(ws[0], 0, 1000); // more than any 16-bit index
  compactCase<uint32_t>(ws[1], 3, 1000);
  kind<uint32_t>(n(2, 20));
  kind<bool>(n(1, 20));
  kind<mu::Intp<true, 9>>(n(1, 20));
  kind<std::vector<bool>>(n(1, 20));
  kind<std::pair<uint32_t, bool>>(n(1, 20));
}
