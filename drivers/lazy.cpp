// C04: deferred evaluation runs every requested operation exactly once, in as
// few shared exchanges as the depth asks for, in the same order everywhere.
#include "engine_tap.h"
#include "prog.h"
using namespace vf;
using Log = EngineLog;

struct Expect {
  std::map<int, std::pair<uint64_t, uint64_t>> byDepth;         // depth -> ands, mults
  std::map<std::pair<int, bool>, std::set<int>> openDepths;      // (party, int) -> depths
  uint64_t ands = 0, mults = 0, opened = 0;
};
static Expect expect(const Prog& p) {
  Expect e;
  for (auto& o : p.ops) {
    auto N = [&](int i) -> const Node& { return p.nodes[i]; };
    auto add = [&](int out, bool m) {
      size_t k = N(out).v.size();
      if (!k) return;
      auto& d = e.byDepth[N(out).depth];
      (m ? d.second : d.first) += k;
      (m ? e.mults : e.ands) += k;
    };
    if (o.k == K::And && !N(o.a).pub && !N(o.b).pub) add(o.out[0], false);
    if (o.k == K::Mult && !N(o.a).pub && !N(o.b).pub) add(o.out[0], true);
    if (o.k == K::Composite && !N(o.a).pub && !N(o.more[0]).pub) for (int x : o.out) add(x, false);
    if (o.k == K::Open && N(o.a).v.size()) {
      e.openDepths[{o.party, N(o.a).isInt}].insert(N(o.out[0]).depth);
      e.opened += N(o.a).v.size();
    }
  }
  return e;
}

static std::string show(const std::vector<Log::Exchange>& x) {
  std::string s;
  for (auto& e : x) s += cat(" ", e.ands, "+", e.mults);
  return s;
}

// several programs one after the other on the same schedulers
static void one(EngineKind ek, Alloc a, int n, size_t segs, ProgCfg c, bool strict, size_t id) {
  c.n = n;
  c.intMult = hasIntMult(ek);
  std::string nm = cat("lazy/", name(ek), "/", name(a), "/n=", n, strict ? "/deferred" : "/mixed", "#", id);
  runCase(nm, [&] {
    std::vector<Prog> ps;
    for (size_t i = 0; i < segs; i++) ps.push_back(genProg(c, rng(cat("s", nm, i)), rng(cat("v", nm, i))));
    auto net = memNet(n, {});
    std::vector<std::vector<Log>> seen(n);
    std::vector<std::vector<RunResult>> res(segs, std::vector<RunResult>(n));
    std::vector<std::vector<uint64_t>> gates(n);
    bool ok = parties(n, "party-died", [&](int me) {
      auto log = std::make_shared<Log>();
      auto s = tappedScheduler(SchedKind::Lazy, std::make_unique<TapEngine>(makeEngine(ek, me, n, *net[me], 300), log), a);
      for (size_t i = 0; i < segs; i++) {
        res[i][me] = runProg(ps[i], *s, me, false, seed() + i, false);
        // force what nobody can read any more
        auto x = s->privateBooleanInput(me == 0, 0);
        auto y = s->privateBooleanInput(true, 0);
        for (int d = 0; d < ps[i].maxDepth + 2; d++) x = s->privateAndPrivate(x, y);
        auto out = s->openBooleanValueToParty(x, 0);
        bool got = s->getBooleanValue(out);
        if (me == 0 && !got) violation("wrong-value", nm + " chain of ones");
        seen[me].push_back(*log);
        auto g = s->getGateStatistics();
        gates[me].push_back(g.second); // free
        gates[me].push_back(g.first);  // non-free
      }
    });
    if (!ok) return;
    uint64_t free = 0, non = 0;
    Log prev;
    for (size_t i = 0; i < segs; i++) {
      World w{SchedKind::Lazy, ek, a, n};
      checkProg(ps[i], w, res[i], cat(nm, " segment ", i));
      Expect e = expect(ps[i]);
      uint64_t chain = ps[i].maxDepth + 2;
      free += ps[i].freeOps + 2;
      non += ps[i].nonFreeOps + chain + 1;
      for (int me = 0; me < n; me++) {
        const Log& l = seen[me][i];
        const Log& was = i ? seen[me][i - 1] : prev;
        count("operations_checked", e.ands + e.mults);
        std::string t = cat(nm, " segment ", i, " party ", me);
        if (l.pendAnd || l.pendMult) violation("work-left", cat(t, ": ", l.pendAnd, "+", l.pendMult, " scheduled, never executed"));
        if (l.ands - was.ands != e.ands + chain) violation("not-exactly-once", cat(t, ": ", l.ands - was.ands, " products run for ", e.ands + chain, " requested"));
        if (l.mults - was.mults != e.mults) violation("not-exactly-once", cat(t, ": ", l.mults - was.mults, " multiplications run for ", e.mults, " requested"));
        if (l.revealed - was.revealed != e.opened + 1) violation("not-exactly-once", cat(t, ": ", l.revealed - was.revealed, " values opened for ", e.opened + 1));
        if (gates[me][2 * i] != free || gates[me][2 * i + 1] != non)
          violation("statistics", cat(t, ": reported ", gates[me][2 * i], " free, ", gates[me][2 * i + 1], " non-free; requested ", free, ", ", non));
        if (!(l.events == seen[0][i].events)) violation("order-differs", cat(t, " against party 0: ", l.events.size(), "/", seen[0][i].events.size(), " engine requests"));
        if (strict) {
          // the exchanges of this segment, before the chain
          std::vector<Log::Exchange> x(l.exchanges.begin() + was.exchanges.size(), l.exchanges.end());
          if (x.size() < chain) { violation("exchanges", t); continue; }
          x.resize(x.size() - chain);
          count("exchanges_observed", x.size());
          std::vector<Log::Exchange> want;
          for (auto& d : e.byDepth) want.push_back({d.second.first, d.second.second});
          bool same = x.size() == want.size();
          for (size_t k = 0; same && k < x.size(); k++) same = x[k].ands == want[k].ands && x[k].mults == want[k].mults;
          if (!same) violation("exchanges", cat(t, " exchanged", show(x), " asked for", show(want)));
          for (auto& r : l.reveals) {
            uint64_t before = was.reveals.count(r.first) ? was.reveals.at(r.first) : 0, extra = r.first == std::make_pair(0, false) ? 1 : 0;
            auto it = e.openDepths.find(r.first);
            uint64_t most = (it == e.openDepths.end() ? 0 : it->second.size()) + extra;
            count("openings_observed", r.second - before);
            if (r.second - before > most) violation("openings-not-shared", cat(t, ": ", r.second - before, " openings to party ", r.first.first, " at ", most, " depths"));
          }
        }
      }
    }
    distinct(cat(nm, ps[0].shape));
    if (id % 20 == 0) sample(cat(nm, ": ", segs, " programs, ", ps[0].ops.size(), " ops, depth ", ps[0].maxDepth, ", exchanges", show(seen[0][0].exchanges)));
  });
}

// Nothing is exchanged before a value is asked for; then everything is.
static void deferred(int n, size_t id, size_t deep = 0) {
  std::string nm = cat("deferral n=", n, "#", id, deep ? cat(" depth ", deep) : "");
  runCase(nm, [&] {
    auto net = memNet(n, {});
    Rng shape = rng(nm);
    size_t width = deep ? 2 : 1 + shape.below(40), depth = deep ? deep : 1 + shape.below(20);
    parties(n, "party-died", [&](int me) {
      Rng r = rng(nm + "ops");
      auto log = std::make_shared<Log>();
      auto s = tappedScheduler(SchedKind::Lazy, std::make_unique<TapEngine>(makeEngine(EngineKind::Dealer, me, n, *net[me]), log), (Alloc)(id % 3));
      std::vector<BoolW> w;
      std::vector<int> v;
      for (size_t i = 0; i < width; i++) { v.push_back(r.coin()); w.push_back(s->privateBooleanInput(v[i], i % n)); }
      for (size_t d = 0; d < depth; d++) {
        std::vector<BoolW> nw;
        std::vector<int> nv;
        for (size_t i = 0; i < width; i++) {
          size_t j = r.below(width);
          if (r.coin()) { nw.push_back(s->privateAndPrivate(s->notPrivate(w[i]), w[j])); nv.push_back((1 - v[i]) & v[j]); }
          else { nw.push_back(s->privateXorPrivate(w[i], s->privateAndPrivate(w[i], w[j]))); nv.push_back(v[i] ^ (v[i] & v[j])); }
        }
        w = nw; v = nv;
      }
      if (log->exchanges.size() || log->revealed) violation("evaluated-early", cat(nm, " ", log->exchanges.size(), " exchanges before anything was asked for"));
      std::vector<BoolW> outs;
      for (size_t i = 0; i < width; i++) outs.push_back(s->openBooleanValueToParty(w[i], i % n));
      if (log->exchanges.size() || log->revealed) violation("evaluated-early", cat(nm, " while opening"));
      for (size_t i = 0; i < width; i++) {
        bool b = s->getBooleanValue(outs[i]);
        if ((int)(i % n) == me) { count("values_opened"); check(b == v[i], "wrong-value", [&] { return cat(nm, " ", i); }); }
      }
      size_t x = log->exchanges.size();
      count("exchanges_observed", x);
      if (x != depth) violation("exchanges", cat(nm, " depth ", depth, " took ", x, " exchanges"));
      for (auto o : outs) s->getBooleanValue(o); // nothing is run twice
      if (log->exchanges.size() != x) violation("not-exactly-once", nm);
    });
    distinct(cat(nm, width, "x", depth));
  });
}

// more pending work than the limit: it is started without being asked, and none is lost
static void pressure(int n, size_t ops, bool deep, size_t id) {
  std::string nm = cat("pressure n=", n, deep ? " deep" : " wide", " ops=", ops, "#", id);
  runCase(nm, [&] {
    auto net = memNet(n, {});
    parties(n, "party-died", [&](int me) {
      Rng r = rng(nm + "ops");
      auto log = std::make_shared<Log>();
      auto s = tappedScheduler(SchedKind::Lazy, std::make_unique<TapEngine>(makeEngine(EngineKind::Dealer, me, n, *net[me]), log), (Alloc)(id % 3));
      std::vector<BoolW> w;
      std::vector<int> v;
      const size_t width = deep ? 4000 : 60000;
      uint64_t freeOps = 0, nonFree = 0, most = 0, ranBefore = 0, firstFlush = 0;
      for (size_t i = 0; i < 50; i++) { v.push_back(r.coin()); w.push_back(s->privateBooleanInput(v[i], i % n)); freeOps++; }
      for (size_t i = 0; i < ops; i++) {
        size_t lo = w.size() > width ? w.size() - width : 0;
        size_t x = lo + r.below(w.size() - lo), y = lo + r.below(w.size() - lo);
        BoolW o;
        int z;
        switch (r.below(3)) {
          case 0: o = s->privateAndPrivate(w[x], w[y]); z = v[x] & v[y]; nonFree++; break;
          case 1: o = s->privateXorPrivate(w[x], w[y]); z = v[x] ^ v[y]; freeOps++; break;
          default: o = s->notPrivate(w[x]); z = 1 - v[x]; freeOps++; break;
        }
        w.push_back(o); v.push_back(z);
        auto g = s->getGateStatistics();
        uint64_t pending = freeOps + nonFree - g.first - g.second, ran = g.first + g.second;
        if (ran != ranBefore) { // something was evaluated: only because much was waiting
          uint64_t waiting = freeOps + nonFree - ranBefore;
          if (!firstFlush) firstFlush = waiting;
          count("early_evaluations");
          if (waiting < firstFlush / 2) { violation("evaluated-early", cat(nm, ": ", waiting, " operations pending, first time ", firstFlush)); break; }
          ranBefore = ran;
        }
        most = std::max(most, pending);
      }
      count("operations", ops);
      count("pressure_exchanges", log->exchanges.size());
      if (ops > 130000 && log->exchanges.empty()) violation("limit-ignored", cat(nm, ": ", most, " operations pending, nothing evaluated"));
      // the limit is meant to bound the work at hand: far beyond it something is wrong
      if (most > 130000) violation("limit-ignored", cat(nm, ": ", most, " operations pending"));
      for (int k = 0; k < 300; k++) {
        size_t x = k < 30 ? w.size() - 1 - k : r.below(w.size());
        bool b = s->getBooleanValue(s->openBooleanValueToParty(w[x], k % n));
        if (k % n == me) { count("values_opened"); check(b == v[x], "wrong-value", [&] { return cat(nm, " value ", x); }); }
        nonFree++;
      }
      auto o = s->openBooleanValueToParty(w.back(), 0);
      s->getBooleanValue(o);
      // depth-first: everything that was asked for has been run at least when deeper work was forced
      if (log->pendAnd) violation("work-left", nm);
    });
    distinct(nm);
  });
}

void vfMain() {
  size_t id = 0;
  for (size_t i = 0; i < n(90, 1500); i++) {
    ProgCfg c;
    Rng r = rng(cat("cfg", i));
    c.steps = 20 + r.below(50);
    c.maxBatch = r.oneIn(4) ? 70 : 9;
    c.reshare = false; c.gets = false; c.openEvery = r.below(2) * 7;
    c.drops = false;
    one(EngineKind::Dealer, (Alloc)(i % 3), 2 + i % 3, 1 + r.below(3), c, true, id++);
    ProgCfg d;
    d.steps = 20 + r.below(40);
    one(EngineKind::Dealer, (Alloc)(i % 3), 2 + r.below(3), 1 + r.below(3), d, false, id++);
    deferred(2 + i % 3, i);
  }
  for (size_t i = 0; i < n(2, 20); i++) {
    ProgCfg c;
    c.reshare = false; c.gets = false; c.drops = false;
    c.steps = 30;
    one(i % 2 ? EngineKind::SmallMulti : EngineKind::SmallTwo, (Alloc)(i % 3), 2, 2, c, true, id++);
  }
  for (size_t deep : {129, 260, 1030, 4099}) deferred(2 + deep % 2, deep, deep);
  pressure(2, 230000, false, 1);
  pressure(2, 150000, true, 0);
  if (thorough()) for (size_t i = 0; i < 8; i++) pressure(2 + i % 3, 320000, i % 2, 2 + i);
}
