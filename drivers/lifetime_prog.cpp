// C03: whole programs through the scheduler interface, and wrong uses of it.
#include "prog.h"
#include "fbpcf/frontend/Bit.h"
#include "switch.h"
using namespace vf;
void programs() {
  size_t k = 0;
  auto mix = [&](size_t cnt, SchedKind s, int nn, int steps, int drops) {
    for (size_t i = 0; i < cnt; i++, k++) {
      World w{s, EngineKind::Dealer, (Alloc)(k % 3), nn};
      ProgCfg c;
      c.n = nn; c.steps = steps;
      std::string nm = cat("program ", w.str(), "#", k);
      runCase(nm, [&] {
        auto p = genProg(c, rng(nm + "s"), rng(nm + "v"));
        auto rs = runWorld(w, p, seed() * 77 + k, true);
        if (rs.empty()) return;
        checkProg(p, w, rs, nm);
        for (size_t i = 0; i < rs.size(); i++) {
          count("drains_checked");
          check(rs[i].wiresEnd.first == rs[i].wiresEnd.second, "wires-left", [&] { return cat(nm, " party ", i, ": ", rs[i].wiresEnd.first, " allocated, ", rs[i].wiresEnd.second, " released"); });
        }
        distinct(p.shape + w.str());
      });
    }
  };
  mix(n(60, 2000), SchedKind::Plain, 2, 80, 1);
  mix(n(30, 800), SchedKind::Eager, 2, 60, 1);
  mix(n(60, 1500), SchedKind::Lazy, 2, 60, 1);
  mix(n(15, 400), SchedKind::Lazy, 3, 60, 1);
  mix(n(10, 200), SchedKind::NetPlain, 2, 60, 1);
  // more live values than one block of any store, while others are being read
  for (auto s : {SchedKind::Plain, SchedKind::Lazy}) {
    World w{s, EngineKind::Dealer, Alloc::ArenaSafe, 2};
    ProgCfg c;
    c.steps = n(2600, 9000); c.drops = false; c.openEvery = 40;
    std::string nm = cat("large program ", w.str());
    runCase(nm, [&] {
      auto p = genProg(c, rng(nm + "s"), rng(nm + "v"));
      auto rs = runWorld(w, p, seed(), true);
      if (rs.empty()) return;
      checkProg(p, w, rs, nm);
      for (auto& r : rs) if (r.wiresEnd.first != r.wiresEnd.second) violation("wires-left", nm);
      sample(cat(nm, ": ", rs[0].wires.first - rs[0].wires.second, " values live at once"));
    });
  }
}
void misuse() {
  // values that do not exist
  for (auto s : {SchedKind::Plain, SchedKind::Eager, SchedKind::Lazy})
    for (auto a : {Alloc::ArenaSafe, Alloc::Map}) {
      World w{s, EngineKind::Dealer, a, 2};
      std::string nm = cat("misuse ", w.str());
      runCase(nm, [&] {
        onWorld(w, [&](int me, sched::IScheduler& sc) {
          using W = sched::IScheduler::WireId<sched::IScheduler::Boolean>;
          auto ok = sc.privateBooleanInput(true, 0);
          auto okb = sc.privateBooleanInputBatch({true, false}, 0);
          auto dead = sc.privateBooleanInput(true, 0);
          auto deadb = sc.privateBooleanInputBatch({true}, 0);
          sc.getBooleanValue(sc.openBooleanValueToParty(dead, 0));
          sc.getBooleanValueBatch(sc.openBooleanValueToPartyBatch(deadb, 0));
          sc.decreaseReferenceCount(dead);
          sc.decreaseReferenceCountBatch(deadb);
          std::vector<std::pair<W, W>> bad = {{W(), W()}, {W(123456789), W(123456789)}, {dead, deadb}};
          for (size_t i = 0; i < bad.size(); i++) {
            auto [x, xb] = bad[i];
            auto no = [&](const char* what, auto f) {
              count("unallocated_uses");
              try { f(); } catch (const std::exception&) { return; }
              violation("unallocated-accepted", cat(nm, " ", what, " kind ", i));
            };
            no("read", [&] { sc.getBooleanValue(x); });
            no("read batch", [&] { sc.getBooleanValueBatch(xb); });
            no("release", [&] { sc.decreaseReferenceCount(x); });
            no("release batch", [&] { sc.decreaseReferenceCountBatch(xb); });
            no("hold", [&] { sc.increaseReferenceCount(x); });
            no("hold batch", [&] { sc.increaseReferenceCountBatch(xb); });
            // a deferred operation on a handle that was never set is reported when it runs
            if (!(s == SchedKind::Lazy && i == 0)) {
            no("not", [&] { sc.notPrivate(x); });
            no("not batch", [&] { sc.notPrivateBatch(xb); });
            no("xor", [&] { sc.privateXorPrivate(ok, x); });
            no("xor batch", [&] { sc.privateXorPrivateBatch(xb, okb); });
            }
            no("size", [&] { sc.getBatchSize(xb); });
          }
          // the good ones are still there
          bool v = sc.getBooleanValue(sc.openBooleanValueToParty(ok, 0));
          if (me == 0 && !v) violation("value-changed", nm + " after misuse");
        });
        fbpcf::frontend::Bit<true, 0, false> none;
        bool threw = false;
        onWorld({SchedKind::Plain, EngineKind::Dealer, a, 1}, [&](int, sched::IScheduler&) {
          try { none & none; } catch (const std::exception&) { threw = true; }
        });
        if (!threw) violation("unallocated-accepted", nm + " a bit that was never set");
      });
    }
}
