#include "fe.h"
namespace fe {
std::vector<std::pair<std::string, Fn>>& table() { static std::vector<std::pair<std::string, Fn>> t; return t; }
Reg::Reg(const char* n, Fn f) { table().emplace_back(n, f); }
void compare(const std::string& tag, const char* op, const V& a, const V& b, const V& got, const V& want) {
  count("results_compared", want.size());
  if (got != want) violation(cat("wrong:", op), cat(tag, " ", op, " a=", str(a), " b=", str(b), " got ", str(got), " want ", str(want)));
}
} // namespace fe
using namespace fe;
void vfMain() {
  Switch::install<0>();
  auto t = table();
  std::sort(t.begin(), t.end());
  struct Cfg { SchedKind s; Alloc a; size_t q, d; int n; };
  Cfg cfgs[] = {{SchedKind::Plain, Alloc::ArenaSafe, 4, 200, 1}, {SchedKind::Plain, Alloc::Map, 3, 200, 1}, {SchedKind::NetPlain, Alloc::ArenaUnsafe, 1, 40, 2},
                {SchedKind::Lazy, Alloc::ArenaSafe, 2, 120, 2}, {SchedKind::Lazy, Alloc::ArenaUnsafe, 1, 80, 3}, {SchedKind::Eager, Alloc::Map, 1, 40, 2}};
  for (auto& cf : cfgs)
    for (auto& [name, fn] : t) {
      World w{cf.s, EngineKind::Dealer, cf.a, cf.n};
      std::string nm = cat(w.str(), " ", name);
      size_t reps = n(cf.q, cf.d);
      runCase(nm, [&, fn = fn] {
        onWorld(w, [&](int me, sched::IScheduler& s) {
          for (size_t k = 0; k < reps; k++) {
            Ctx c{cf.s == SchedKind::Plain ? -1 : me, rng(cat(nm, k)), rng(cat(nm, k, "noise", me)), "", {}};
            fn(c);
            progress();
          }
          auto wi = s.getWireStatistics();
          if (wi.first != wi.second) violation("wires-left", cat(nm, " allocated ", wi.first, " released ", wi.second));
        });
        for (size_t k = 0; k < reps; k++) distinct(cat(nm, k));
      });
    }
}
