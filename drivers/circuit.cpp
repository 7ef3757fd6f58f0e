// C01: random circuits on every scheduler, engine and number of parties equal
// their plaintext meaning.
#include "prog.h"
using namespace vf;

static void one(const World& w, ProgCfg c, uint64_t i) {
  c.n = w.n;
  c.intMult = w.s == SchedKind::Plain || w.s == SchedKind::NetPlain || hasIntMult(w.e);
  std::string nm = cat(w.str(), "#", i);
  runCase(nm, [&] {
    auto p = genProg(c, rng("shape" + nm), rng("val" + nm));
    auto rs = runWorld(w, p, seed() * 1000 + i);
    if (rs.empty()) return;
    checkProg(p, w, rs, nm);
    distinct(w.str() + p.shape);
    count(cat("world ", w.s == SchedKind::Plain || w.s == SchedKind::NetPlain ? name(w.s) : cat(name(w.s), "/", name(w.e)), "/", w.n));
    if (i % 7 == 0) sample(cat(nm, ": ", p.ops.size(), " ops, depth ", p.maxDepth, ", ", p.opens.size(), " opened"));
  });
}

// one level with more values than small indices can count: batches, products and openings next to each other
static void wide(SchedKind sk, EngineKind ek, int parts, size_t total, size_t id) {
  World w{sk, ek, (Alloc)(id % 3), parts};
  std::string nm = cat("wide ", w.str(), "#", id);
  runCase(nm, [&] {
    auto net = memNet(parts, {});
    parties(parts, "party-died", [&](int me) {
      Rng r = rng(nm);
      auto s = scheduler(sk, ek, w.a, me, parts, *net[me]);
      std::vector<std::pair<BoolW, std::vector<bool>>> bs;
      std::vector<std::pair<IntW, std::vector<uint64_t>>> is;
      for (size_t left = total; left;) {
        size_t k = std::min<size_t>(left, r.oneIn(3) ? 1 + r.below(60) : total / 12 + r.below(total / 6 + 1));
        left -= k;
        auto b = r.bits(k), b2 = r.bits(k);
        std::vector<uint64_t> u(k), u2(k), up(k);
        for (size_t i = 0; i < k; i++) { u[i] = r(); u2[i] = r(); up[i] = u[i] * u2[i]; }
        int o = r.below(parts), o2 = r.below(parts);
        auto x = s->privateBooleanInputBatch(b, o), y = s->privateBooleanInputBatch(b2, o2);
        auto p = s->privateAndPrivateBatch(x, y);
        std::vector<bool> bp(k);
        for (size_t i = 0; i < k; i++) bp[i] = b[i] && b2[i];
        bs.push_back({p, bp});
        auto c = s->privateAndPrivateCompositeBatch(x, {y, x, s->notPrivateBatch(y)});
        std::vector<bool> bn(k);
        for (size_t i = 0; i < k; i++) bn[i] = b[i] && !b2[i];
        bs.push_back({c[0], bp}); bs.push_back({c[1], b}); bs.push_back({c[2], bn});
        is.push_back({s->privateMultPrivateBatch(s->privateIntegerInputBatch(u, o), s->privateIntegerInputBatch(u2, o2)), up});
      }
      std::vector<BoolW> bo; std::vector<IntW> io; std::vector<int> to;
      for (auto& x : bs) { to.push_back(r.below(parts)); bo.push_back(s->openBooleanValueToPartyBatch(x.first, to.back())); }
      for (auto& x : is) { to.push_back(r.below(parts)); io.push_back(s->openIntegerValueToPartyBatch(x.first, to.back())); }
      for (size_t i = 0; i < bs.size(); i++) {
        auto g = s->getBooleanValueBatch(bo[i]);
        count("values_opened", g.size());
        if (to[i] == me && g != bs[i].second) violation("wrong-value", cat(nm, " batch ", i, " of ", g.size(), " bits"));
      }
      for (size_t i = 0; i < is.size(); i++) {
        auto g = s->getIntegerValueBatch(io[i]);
        count("values_opened", g.size());
        if (to[bs.size() + i] == me && g != is[i].second) violation("wrong-value", cat(nm, " batch ", i, " of ", g.size(), " integers"));
      }
      count("wide_values", total);
    });
    distinct(nm);
  });
}

// batches of different sizes are never combined: an error, at the latest when the result is wanted
static void mismatch(SchedKind sk, EngineKind ek, size_t id) {
  World w{sk, ek, (Alloc)(id % 3), 2};
  std::string nm = cat("sizes ", w.str(), "#", id);
  runCase(nm, [&] {
    for (int op = 0; op < 18; op++) {
      auto net = memNet(2, {});
      parties(2, "party-died", [&](int me) {
        Rng r = rng(cat(nm, op));
        auto s = scheduler(sk, ek, w.a, me, 2, *net[me]);
        size_t a = 1 + r.below(70), b = r.coin() ? a + 1 : a + 1 + r.below(80);
        if (r.coin()) std::swap(a, b);
        bool pub = op % 3 == 2, half = op % 3 == 1;
        bool refused = false;
        try {
          if (op < 6 || op >= 12) {
            auto x = pub ? s->publicBooleanInputBatch(r.bits(a)) : s->privateBooleanInputBatch(r.bits(a), 0);
            auto in = [&](size_t k) { return pub || half ? s->publicBooleanInputBatch(r.bits(k)) : s->privateBooleanInputBatch(r.bits(k), 1); };
            BoolW z;
            if (op < 3) { auto y = in(b); z = pub ? s->publicAndPublicBatch(x, y) : half ? s->privateAndPublicBatch(x, y) : s->privateAndPrivateBatch(x, y); }
            else if (op < 6) { auto y = in(b); z = pub ? s->publicXorPublicBatch(x, y) : half ? s->privateXorPublicBatch(x, y) : s->privateXorPrivateBatch(x, y); }
            else {
              // one right operand or all of them do not fit
              std::vector<BoolW> ys{in(op < 15 ? a : b), in(b)};
              if (r.coin()) std::swap(ys[0], ys[1]);
              auto zs = pub ? s->publicAndPublicCompositeBatch(x, ys) : half ? s->privateAndPublicCompositeBatch(x, ys) : s->privateAndPrivateCompositeBatch(x, ys);
              z = zs[r.below(2)];
            }
            if (pub) s->getBooleanValueBatch(z); else s->getBooleanValueBatch(s->openBooleanValueToPartyBatch(z, 0));
          } else {
            auto ints = [&](size_t k) { std::vector<uint64_t> v(k); for (auto& u : v) u = r(); return v; };
            auto x = pub ? s->publicIntegerInputBatch(ints(a)) : s->privateIntegerInputBatch(ints(a), 0);
            auto y = pub || half ? s->publicIntegerInputBatch(ints(b)) : s->privateIntegerInputBatch(ints(b), 1);
            IntW z;
            if (op < 9) z = pub ? s->publicPlusPublicBatch(x, y) : half ? s->privatePlusPublicBatch(x, y) : s->privatePlusPrivateBatch(x, y);
            else z = pub ? s->publicMultPublicBatch(x, y) : half ? s->privateMultPublicBatch(x, y) : s->privateMultPrivateBatch(x, y);
            if (pub) s->getIntegerValueBatch(z); else s->getIntegerValueBatch(s->openIntegerValueToPartyBatch(z, 0));
          }
        } catch (const std::exception&) { refused = true; }
        if (refused) count("mismatches_refused"); else violation("mismatch-accepted", cat(nm, " operation ", op, " on ", a, " and ", b, " values, party ", me));
      });
    }
    distinct(nm);
  });
}

void vfMain() {
  for (size_t i = 0; i < n(2, 30); i++) {
    mismatch(SchedKind::Plain, EngineKind::Dummy, i);
    mismatch(SchedKind::NetPlain, EngineKind::Dummy, i);
    for (auto e : {EngineKind::Dealer, EngineKind::DealerFlat}) { mismatch(SchedKind::Eager, e, i); mismatch(SchedKind::Lazy, e, i); }
  }
  ProgCfg c;
  uint64_t k = 0;
  auto mix = [&](size_t cnt, SchedKind s, EngineKind e, int n, int steps, int maxBatch) {
    for (size_t i = 0; i < cnt; i++, k++) {
      World w{s, e, (Alloc)(k % 3), n};
      Rng r = rng(cat("w", k));
      w.small = (size_t[]){100, 400, 2000, 8000}[r.below(4)];
      if (r.oneIn(4)) w.delayUs = 60;
      ProgCfg d = c;
      d.steps = steps + (int)r.below(steps);
      d.maxBatch = r.oneIn(4) ? maxBatch * 6 : maxBatch;
      one(w, d, k);
    }
  };
  mix(n(400, 5000), SchedKind::Plain, EngineKind::Dummy, 2, 60, 12);
  for (int p = 2; p <= 4; p++) {
    mix(n(50, 1500), SchedKind::NetPlain, EngineKind::Dummy, p, 40, 12);
    mix(n(15, 500), SchedKind::Eager, EngineKind::Dummy, p, 40, 12);
    mix(n(35, 1000), SchedKind::Eager, EngineKind::Dealer, p, 40, 12);
    mix(n(20, 500), SchedKind::Eager, EngineKind::DealerFlat, p, 40, 12);
    mix(n(20, 600), SchedKind::Lazy, EngineKind::Dummy, p, 50, 12);
    mix(n(60, 1600), SchedKind::Lazy, EngineKind::Dealer, p, 50, 12);
    mix(n(30, 800), SchedKind::Lazy, EngineKind::DealerFlat, p, 50, 12);
    mix(n(p == 2 ? 1 : 0, 30), SchedKind::Lazy, EngineKind::SmallMulti, p, 25, 8);
    mix(n(p == 3 ? 1 : 0, 15), SchedKind::Eager, EngineKind::SmallMulti, p, 20, 6);
  }
  mix(n(5, 60), SchedKind::Lazy, EngineKind::SmallTwo, 2, 40, 10);
  mix(n(2, 30), SchedKind::Eager, EngineKind::SmallTwo, 2, 30, 10);
  wide(SchedKind::Lazy, EngineKind::Dealer, 2, 70000, 0);
  wide(SchedKind::Lazy, EngineKind::DealerFlat, 2, 9000, 1);
  wide(SchedKind::Lazy, EngineKind::Dealer, 3, 9000, 2);
  wide(SchedKind::Eager, EngineKind::Dealer, 2, 9000, 3);
  if (thorough()) for (size_t i = 0; i < 12; i++) wide(i % 4 == 3 ? SchedKind::Eager : SchedKind::Lazy, i % 2 ? EngineKind::Dealer : EngineKind::DealerFlat, 2 + i % 3, i % 5 == 0 ? 300000 : 20000 + i * 7000, 10 + i);
  // the factories as shipped, with their large buffers
  if (thorough()) {
    mix(2, SchedKind::Lazy, EngineKind::Iknp, 2, 60, 30);
    mix(1, SchedKind::Eager, EngineKind::Iknp, 2, 60, 30);
    mix(2, SchedKind::Lazy, EngineKind::Ferret, 2, 60, 30);
    mix(1, SchedKind::Lazy, EngineKind::Iknp, 3, 60, 30);
    mix(1, SchedKind::Lazy, EngineKind::FerretBoth, 2, 60, 30);
    mix(1, SchedKind::Lazy, EngineKind::Ferret, 3, 60, 30);
  }
}
