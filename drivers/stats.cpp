// C32: what the statistics and metrics say against what was exchanged and what exists.
#include <barrier>
#include <numeric>
#include "prog.h"
#include "sockets.h"
#include "switch.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/tuple_generator/DummyProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBaseObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/EmpShRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMultiPointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyRcotExtenderFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummySinglePointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RegularErrorMultiPointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/SinglePointCotFactory.h"
#include "fbpcf/frontend/mpcGame.h"
#include "fbpcf/mpc_std_lib/oram/DummyDifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummySinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/LinearOramFactory.h"
#include "fbpcf/mpc_std_lib/oram/SinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOramFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/util/COTWithRandomMessageFactory.h"
#include "fbpcf/util/MetricCollector.h"
using namespace vf;
namespace tg = fbpcf::engine::tuple_generator;
namespace ot = tg::oblivious_transfer;
namespace fe = ot::ferret;
namespace eu = fbpcf::engine::util;
namespace om = fbpcf::mpc_std_lib::oram;
namespace fu = fbpcf::util;
using Pair2 = std::pair<uint64_t, uint64_t>;
static std::string show(Pair2 p) { return cat(p.first, "/", p.second); }
static Pair2 total(Tape& t, size_t from = 0) {
  std::vector<std::shared_ptr<Channel>> cs;
  { std::lock_guard<std::mutex> g(t.m); cs = t.channels; }
  Pair2 r{0, 0};
  for (size_t i = from; i < cs.size(); i++) { std::lock_guard<std::mutex> g(cs[i]->m); r.first += cs[i]->sent; r.second += cs[i]->received; }
  return r;
}
// everything sent on a channel has arrived at the other end of it, in total
static bool balanced(const std::vector<std::shared_ptr<Tape>>& ts) {
  std::map<std::pair<int, int>, uint64_t> out, in;
  for (size_t i = 0; i < ts.size(); i++) {
    std::lock_guard<std::mutex> g(ts[i]->m);
    for (auto& c : ts[i]->channels) { std::lock_guard<std::mutex> h(c->m); out[{c->me, c->peer}] += c->sent; in[{c->peer, c->me}] += c->received; }
  }
  for (auto& [k, v] : out) if (in[k] != v) return false;
  for (auto& [k, v] : in) if (out[k] != v) return false;
  return true;
}
// never less than what had been exchanged, never less than before
struct Watch {
  std::string who;
  Pair2 last{0, 0};
  void see(Tape& t, const std::function<Pair2()>& read) {
    Pair2 had = total(t), got = read();
    count("statistics_read");
    if (got.first < had.first || got.second < had.second) violation("traffic-behind", cat(who, " reports ", show(got), " when ", show(had), " had been exchanged"));
    if (got.first < last.first || got.second < last.second) violation("traffic-decreased", cat(who, " reports ", show(got), " after ", show(last)));
    last = got;
  }
  // background work ends, then the report is exact
  void settle(const std::vector<std::shared_ptr<Tape>>& ts, int me, const std::function<Pair2()>& read) {
    Pair2 got, was, is, before{~0ull, 0};
    int still = 0;
    for (int i = 0; i < 4000; i++) {
      was = total(*ts[me]);
      see(*ts[me], read);
      got = last;
      is = total(*ts[me]);
      if (got == was && was == is && balanced(ts)) { count("totals_compared"); count("bytes_accounted", is.first + is.second); return; }
      std::this_thread::sleep_for(std::chrono::milliseconds(i < 50 ? 1 : 5));
      if (i % 100 == 0) progress();
      still = was == is && is == before && balanced(ts) ? still + 1 : 0;
      before = is;
      if (i > 400 && still > 40) break; // nothing moves any more
    }
    violation("traffic-amount", cat(who, " reports ", show(got), ", exchanged were ", show(is)));
  }
};

// ---- whole computations -----------------------------------------------------------
static void game(const World& w, size_t id) {
  std::string nm = cat("game ", w.str(), " #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    size_t segs = 1 + r.below(3);
    std::vector<Prog> ps;
    for (size_t i = 0; i < segs; i++) {
      ProgCfg c;
      c.n = w.n; c.steps = 8 + (int)r.below(40); c.intMult = hasIntMult(w.e) || w.s == SchedKind::Plain || w.s == SchedKind::NetPlain;
      c.composite = c.composite && w.n == 2;
      c.maxBatch = r.coin() ? 12 : 60;
      ps.push_back(genProg(c, rng(cat("s", nm, i)), rng(cat("v", nm, i))));
    }
    bool watch = r.coin();
    auto tapes = newTapes(w.n, false, w.delayUs, id);
    auto net = memNet(w.n, tapes);
    std::barrier bar(w.n);
    bool ok = parties(w.n, "party-died", [&](int me) {
      auto s = scheduler(w.s, w.e, w.a, me, w.n, *net[me], w.small);
      Watch wt{cat(nm, " party ", me)};
      auto read = [&] { return w.s == SchedKind::Plain ? total(*tapes[me]) : s->getTrafficStatistics(); };
      Pair2 gates{0, 0}, want{0, 0}, wires{0, 0};
      for (size_t i = 0; i < segs; i++) {
        auto base = s->getWireStatistics();
        uint64_t left = base.first - base.second;
        progHook = [&](uint64_t live) {
          auto x = s->getWireStatistics();
          if (x.first < wires.first || x.second < wires.second) violation("wires-decreased", cat(wt.who, " ", show(x), " after ", show(wires)));
          wires = x;
          if (w.s != SchedKind::Lazy) { count("live_counts_compared"); if (x.first - x.second != live + left) violation("live-count", cat(wt.who, " reports ", x.first - x.second, " of ", live + left, " values")); }
          else if (x.first - x.second < live + left) violation("live-count", cat(wt.who, " reports ", x.first - x.second, ", at least ", live + left, " values exist"));
          auto g = s->getGateStatistics();
          if (g.first < gates.first || g.second < gates.second) violation("gates-decreased", cat(wt.who, " ", show(g), " after ", show(gates)));
          gates = g;
          if (watch) wt.see(*tapes[me], read);
        };
        runProg(ps[i], *s, me, w.s == SchedKind::Plain, seed() + i, true);
        progHook = nullptr;
        want.first += ps[i].nonFreeOps; want.second += ps[i].freeOps;
        gates = s->getGateStatistics();
        if (w.s == SchedKind::Eager) { count("gate_counts_compared"); if (gates != want) violation("gate-count", cat(wt.who, " reports ", show(gates), ", requested ", show(want))); }
        bar.arrive_and_wait();
        if (w.s == SchedKind::Plain) { count("totals_compared"); if (s->getTrafficStatistics() != Pair2(0, 0)) violation("traffic-amount", wt.who); }
        else wt.settle(tapes, me, read);
        bar.arrive_and_wait();
      }
      // what is left once the engine is gone
      auto b = s->getTrafficStatistics();
      s->deleteEngine();
      auto c = s->getTrafficStatistics(), all = w.s == SchedKind::Plain ? c : total(*tapes[me]);
      if (c.first < b.first || c.second < b.second || c.first > all.first || c.second > all.second) violation("traffic-forgotten", cat(wt.who, " ", show(b), " then ", show(c), " of ", show(all)));
      if (s->getTrafficStatistics() != c) violation("traffic-forgotten", cat(wt.who, " second reading"));
    });
    progHook = nullptr;
    if (!ok) return;
    distinct(cat(w.str(), " ", segs));
  });
}
// reading from other threads while a computation runs
static void readers(EngineKind e, int n, size_t id) {
  std::string nm = cat("readers ", name(e), " n=", n, " #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    size_t buf = 15 + r.below(60);
    auto tapes = newTapes(n, false, 40, id);
    auto net = memNet(n, tapes);
    std::vector<std::unique_ptr<eng::ISecretShareEngine>> es(n);
    std::vector<std::shared_ptr<fu::MetricCollector>> mc(n);
    if (!parties(n, "party-died", [&](int me) { mc[me] = std::make_shared<fu::MetricCollector>("m"); es[me] = makeEngine(e, me, n, *net[me], buf, mc[me]); })) return;
    std::atomic<bool> done{false};
    std::vector<std::thread> th;
    for (int me = 0; me < n; me++) th.emplace_back([&, me] {
      Watch wt{cat(nm, " party ", me)};
      uint64_t made = 0, used = 0;
      while (!done) {
        wt.see(*tapes[me], [&] { return es[me]->getTrafficStatistics(); });
        auto all = mc[me]->collectMetrics();
        for (auto& [k, m] : all.items()) {
          uint64_t a = m.at("boolean_tuples_generated").asInt(), b = m.at("boolean_tuples_consumed").asInt();
          int64_t unused = m.at("boolean_tuples_unused").asInt();
          count("metrics_read");
          if (unused < 0) violation("negative-unused", cat(wt.who, " ", a, " generated, ", b, " consumed, ", unused, " unused"));
          if (a < made || b < used) violation("tuples-decreased", wt.who);
          made = a; used = b;
        }
        std::this_thread::sleep_for(std::chrono::microseconds(30));
      }
    });
    parties(n, "party-died", [&](int me) {
      Rng q = rng(nm); // the same at every party
      auto& en = *es[me];
      for (int i = 0; i < 25; i++) {
        size_t k = 1 + q.below(40);
        auto x = en.setBatchInput(0, q.bits(k)), y = en.setBatchInput(n - 1, std::vector<bool>(k, true));
        en.scheduleBatchAND(x, y);
        en.executeScheduledOperations();
      }
    });
    done = true;
    for (auto& t : th) t.join();
    std::barrier bar(n);
    parties(n, "party-died", [&](int me) { Watch wt{cat(nm, " party ", me)}; wt.settle(tapes, me, [&] { return es[me]->getTrafficStatistics(); }); bar.arrive_and_wait(); es[me] = nullptr; });
    distinct(nm);
  });
}
// the statistics of a game object
template <int id> static void inGame(int me, std::unique_ptr<sched::IArithmeticScheduler> s, const std::vector<std::shared_ptr<Tape>>& tapes, const std::string& nm, std::barrier<>& bar) {
  auto* raw = s.get();
  fbpcf::frontend::MpcGame<id> g(std::move(s));
  using K = sched::SchedulerKeeper<id>;
  Watch wt{cat(nm, " party ", me)};
  Rng r = rng(cat(nm, me));
  for (int i = 0; i < 4; i++) {
    typename fbpcf::frontend::MpcGame<id>::template SecBit<true> a(r.bits(9), 0), b(r.bits(9), 1);
    auto x = (a & b) ^ a;
    x.openToParty(i & 1).getValue();
    bar.arrive_and_wait();
    wt.settle(tapes, me, [&] { return g.getTrafficStatistics(); });
    count("game_statistics", 3);
    for (int t = 0; t < 50; t++) { // background work may still add to it
      auto a = g.getTrafficStatistics(), b = K::getTrafficStatistics(), c = raw->getTrafficStatistics();
      if (a != g.getTrafficStatistics()) continue;
      if (a != b || b != c) violation("game-differs", cat(nm, " ", show(a), " ", show(b), " ", show(c)));
      break;
    }
    if (K::getGateStatistics() != raw->getGateStatistics() || K::getWireStatistics() != raw->getWireStatistics()) violation("keeper-differs", nm);
    bar.arrive_and_wait();
  }
  auto b = g.getTrafficStatistics();
  K::deleteEngine();
  auto c = g.getTrafficStatistics();
  if (c.first < b.first || c.second < b.second) violation("traffic-forgotten", cat(nm, " ", show(b), " then ", show(c)));
}
static void games(const World& w, size_t id) {
  std::string nm = cat("game object ", w.str(), " #", id);
  runCase(nm, [&] {
    auto tapes = newTapes(2, false, w.delayUs, id);
    auto net = memNet(2, tapes);
    std::barrier<> bar(2);
    parties(2, "party-died", [&](int me) {
      auto s = scheduler(w.s, w.e, w.a, me, 2, *net[me], w.small);
      if (me == 0) inGame<40>(me, std::move(s), tapes, nm, bar); else inGame<41>(me, std::move(s), tapes, nm, bar);
    });
    distinct(nm);
  });
}

// ---- single protocols -----------------------------------------------------------
static std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rcot(int k) {
  if (k == 0) return std::make_shared<ot::insecure::DummyRandomCorrelatedObliviousTransferFactory>();
  if (k == 1) return ot::createClassicRcotFactory();
  if (k == 2) return ot::createFerretRcotFactory(2048, 1024, 64);
  return std::make_shared<ot::ExtenderBasedRandomCorrelatedObliviousTransferFactory>(ot::createClassicRcotFactory(), std::make_unique<fe::RcotExtenderFactory>(std::make_unique<fe::TenLocalLinearMatrixMultiplierFactory>(), std::make_unique<fe::insecure::DummyMultiPointCotFactory>(std::make_unique<eu::AesPrgFactory>())), 2048, 1024, 64);
}
static __m128i odd(Rng& r) { auto d = _mm_set_epi64x(r(), r()); eu::setLsbTo1(d); return d; }
static void protocol(int kind, size_t id) {
  static const char* names[] = {"base", "plain base", "stand-in correlated", "classic correlated", "extended", "extended by stand-ins", "chosen", "stand-in chosen", "products", "stand-in products", "random message", "boolean tuples", "integer tuples", "toolkit correlated"};
  std::string nm = cat("protocol ", names[kind], " #", id);
  runCase(nm, [&] {
    auto tapes = newTapes(2, false, id % 3 == 0 ? 50 : 0, id);
    auto net = memNet(2, tapes);
    std::barrier bar(2);
    parties(2, "party-died", [&](int me) {
      Rng r = rng(nm), mine = rng(cat(nm, me)); // r: the same at both
      Watch wt{cat(nm, " party ", me)};
      std::function<Pair2()> read;
      std::function<void(size_t)> act;
      auto rounds = [&] {
        for (int i = 0; i < 4; i++) {
          act(1 + r.below(r.oneIn(3) ? 3000 : 60));
          wt.see(*tapes[me], read);
          if (i == 1 || i == 3) { bar.arrive_and_wait(); wt.settle(tapes, me, read); bar.arrive_and_wait(); }
        }
        count("protocol_rounds", 4);
      };
      if (kind <= 1) {
        std::unique_ptr<ot::IBaseObliviousTransfer> o;
        if (kind) o = std::make_unique<ot::insecure::DummyBaseObliviousTransfer>(net[me]->create(1 - me, "b")); else o = std::make_unique<ot::NpBaseObliviousTransfer>(net[me]->create(1 - me, "b"));
        read = [&] { return o->getTrafficStatistics(); };
        int turn = 0;
        act = [&](size_t k) { k = 1 + k % 40; if ((turn++ & 1) == me) o->send(k); else o->receive(mine.bits(k)); };
        rounds();
      } else if (kind <= 5 || kind == 13) {
        auto f = kind == 13 ? std::make_shared<ot::EmpShRandomCorrelatedObliviousTransferFactory>(std::make_unique<eu::AesPrgFactory>()) : rcot(kind - 2);
        auto o = me ? f->create(net[me]->create(0, "r")) : f->create(odd(mine), net[me]->create(1, "r"));
        read = [&] { return kind == 2 ? total(*tapes[me]) : o->getTrafficStatistics(); };
        act = [&](size_t k) { o->rcot(k); };
        rounds();
      } else if (kind <= 7) {
        std::unique_ptr<ot::IBidirectionObliviousTransferFactory> f;
        if (kind == 7) f = std::make_unique<ot::insecure::DummyBidirectionObliviousTransferFactory>(*net[me]); else f = std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *net[me], rcot(1));
        auto o = f->create(1 - me);
        read = [&] { return o->getTrafficStatistics(); };
        act = [&](size_t k) { if (r.coin()) o->biDirectionOT(mine.bits(k), mine.bits(k), mine.bits(k)); else { std::vector<uint64_t> a(k), b(k); o->biDirectionOT(a, b, mine.bits(k)); } };
        rounds();
      } else if (kind <= 9) {
        std::unique_ptr<tg::IProductShareGeneratorFactory> f;
        if (kind == 9) f = std::make_unique<tg::insecure::DummyProductShareGeneratorFactory>(*net[me]);
        else f = std::make_unique<tg::ProductShareGeneratorFactory>(std::make_unique<eu::AesPrgFactory>(), std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *net[me], rcot(1)));
        auto o = f->create(1 - me);
        read = [&] { return o->getTrafficStatistics(); };
        act = [&](size_t k) { if (r.coin()) o->generateBooleanProductShares(mine.bits(k), mine.bits(k)); else { k = 1 + k % 50; std::vector<uint64_t> a(k), b(k); for (auto& v : a) v = mine(); o->generateIntegerProductShares(a, b); } };
        rounds();
      } else if (kind == 10) {
        namespace wu = fbpcf::mpc_std_lib::walr::util;
        struct Wrap final : ot::IRandomCorrelatedObliviousTransferFactory {
          std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> in = rcot(1);
          std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(__m128i d, AgentPtr a) override { return in->create(d, std::move(a)); }
          std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(AgentPtr a) override { return in->create(std::move(a)); }
        };
        wu::COTWithRandomMessageFactory f(std::make_unique<Wrap>());
        auto a = net[me]->create(1 - me, "c"), b = net[me]->create(1 - me, "d");
        auto o = me ? f.create(std::move(a), std::move(b)) : f.create(odd(mine), std::move(a), std::move(b));
        read = [&] { return o->getTrafficStatistics(); };
        act = [&](size_t k) { if (me) o->receive(mine.bits(k)); else o->send(k); };
        rounds();
      } else if (kind == 11) {
        auto mc = std::make_shared<fu::MetricCollector>("t");
        auto f = tg::TwoPartyTupleGeneratorFactory(rcot(1), *net[me], me, 30 + r.below(300), mc);
        auto o = f.create();
        read = [&] { return o->getTrafficStatistics(); };
        act = [&](size_t k) { if (r.coin()) o->getBooleanTuple(k); else o->getCompositeTuple({{1 + r.below(300), (uint32_t)k}}); };
        rounds();
      } else {
        auto f = tg::ArithmeticTupleGeneratorFactory(std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<eu::AesPrgFactory>(), std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *net[me], rcot(1))), std::make_unique<eu::AesPrgFactory>(), 20 + r.below(60), me, 2);
        auto o = f.create();
        read = [&] { return o->getTrafficStatistics(); };
        act = [&](size_t k) { o->getIntegerTuple(1 + k % 100); };
        rounds();
      }
    });
    distinct(nm);
  });
}
// what a part of a protocol exchanges over its owner's channel is in the owner's statistics only
static void borrowed() {
  std::string nm = "borrowed channels";
  runCase(nm, [&] {
    auto tapes = newTapes(2, false, 0, 7);
    auto net = memNet(2, tapes);
    Rng q = rng(nm);
    const size_t weight = 3, depth = 4, len = 1 << depth;
    auto delta = odd(q);
    std::vector<__m128i> s(weight * depth), t;
    for (auto& v : s) { v = _mm_set_epi64x(q(), q()); eu::setLsbTo0(v); }
    for (auto& v : s) t.push_back(q.coin() ? _mm_xor_si128(v, delta) : v);
    parties(2, "party-died", [&](int me) {
      auto prg = [] { return std::make_unique<eu::AesPrgFactory>(); };
      for (int k = 0; k < 5; k++) {
        AgentPtr a = net[me]->create(1 - me, cat("b", k));
        auto zero = [&](const auto& o, const char* when) {
          count("borrowed_read");
          if (o.getTrafficStatistics() != Pair2{0, 0}) violation("traffic-borrowed", cat("kind ", k, " party ", me, " ", when, ": ", show(o.getTrafficStatistics())));
        };
        auto go = [&](auto& o, auto init) {
          zero(o, "new"); init(o); zero(o, "initialized");
          for (int i = 0; i < 2; i++) {
            auto b = me ? t : s;
            if (k < 2) b.resize(depth);
            if (me == 0) o.senderExtend(std::move(b)); else o.receiverExtend(std::move(b));
            zero(o, "used");
          }
        };
        auto point = [&](auto& o) { if (me == 0) o.senderInit(delta); else o.receiverInit(); };
        auto points = [&](auto& o) { if (me == 0) o.senderInit(delta, len * weight, weight); else o.receiverInit(len * weight, weight); };
        std::unique_ptr<fe::ISinglePointCotFactory> sf = std::make_unique<fe::SinglePointCotFactory>(), df = std::make_unique<fe::insecure::DummySinglePointCotFactory>(prg());
        if (k == 0) { auto o = sf->create(a); go(*o, point); }
        else if (k == 1) { auto o = df->create(a); go(*o, point); }
        else if (k == 2) { auto o = fe::RegularErrorMultiPointCotFactory(std::move(sf)).create(a); go(*o, points); }
        else if (k == 3) { auto o = fe::RegularErrorMultiPointCotFactory(std::move(df)).create(a); go(*o, points); }
        else { auto o = fe::insecure::DummyMultiPointCotFactory(prg()).create(a); go(*o, points); }
        if (k == 0) { auto o = fe::insecure::DummyRcotExtenderFactory().create(); zero(*o, "extender"); }
      }
    });
    distinct(nm);
  });
}
static void oram(int make, size_t id) {
  std::string nm = cat("memory ", make, " #", id);
  runCase(nm, [&] {
    auto tapes = newTapes(2, false, 0, id);
    auto net = memNet(2, tapes);
    World w{SchedKind::NetPlain, EngineKind::Dummy, Alloc::ArenaUnsafe, 2};
    std::barrier bar(2);
    onWorld(w, [&](int me, sched::IScheduler&) {
      Rng r = rng(nm), mine = rng(cat(nm, me));
      using T = uint32_t;
      auto role = me == 0 ? om::IWriteOnlyOram<T>::Role::Alice : om::IWriteOnlyOram<T>::Role::Bob;
      using Role = om::IWriteOnlyOram<T>::Role;
      auto& f = *net[me];
      bool first = me == 0;
      std::unique_ptr<om::IWriteOnlyOramFactory<T>> fac;
      if (make == 0) fac = om::getSecureLinearOramFactory<T, 0>(first, 0, 1, f);
      else if (make == 1) fac = om::getSecureWriteOnlyOramFactory<T, 16, 0>(first, 0, 1, f);
      else if (make == 2) fac = std::make_unique<om::WriteOnlyOramFactory<T>>(role, 1 - me, f, std::make_unique<om::SinglePointArrayGeneratorFactory>(first, std::make_unique<om::insecure::DummyObliviousDeltaCalculatorFactory>(1 - me, f)), std::make_unique<om::insecure::DummyDifferenceCalculatorFactory<T, 16>>(first, 1 - me, f));
      else fac = std::make_unique<om::WriteOnlyOramFactory<T>>(role, 1 - me, f, std::make_unique<om::insecure::DummySinglePointArrayGeneratorFactory>(first, 1 - me, f), std::make_unique<om::insecure::DummyDifferenceCalculatorFactory<T, 16>>(first, 1 - me, f));
      size_t size = 2 + r.below(30), bits = 1;
      while ((1u << bits) < size) bits++;
      auto o = fac->create(size);
      Watch wt{cat(nm, " party ", me)};
      auto read = [&] { return o->getTrafficStatistics(); };
      for (int i = 0; i < 4; i++) {
        size_t k = 1 + r.below(8);
        std::vector<std::vector<bool>> idx(bits, std::vector<bool>(k)), val;
        if (first) for (size_t b = 0; b + 1 < bits; b++) for (size_t j = 0; j < k; j++) idx[b][j] = mine.coin();
        for (int b = 0; b < 32; b++) val.push_back(mine.bits(k));
        o->obliviousAddBatch(idx, val);
        wt.see(*tapes[me], read);
        o->publicRead(r.below(size), r.coin() ? Role::Alice : Role::Bob);
        wt.see(*tapes[me], read);
        bar.arrive_and_wait();
        wt.settle(tapes, me, read);
        bar.arrive_and_wait();
      }
      count("memories_checked");
    });
    distinct(nm);
  });
}

// ---- tuples -----------------------------------------------------------
static void tuples(int kind, int n, size_t id) {
  static const char* names[] = {"two-party", "products", "stand-in"};
  std::string nm = cat("tuples ", names[kind], " n=", n, " #", id);
  runCase(nm, [&] {
    auto net = memNet(n);
    parties(n, "party-died", [&](int me) {
      Rng r = rng(nm);
      auto mc = std::make_shared<fu::MetricCollector>("pre.fix");
      uint64_t buf = id % 5 == 4 && kind == 1 ? 4000 + r.below(16000) : 10 + r.below(200);
      std::unique_ptr<tg::ITupleGeneratorFactory> f;
      if (kind == 0) f = std::make_unique<tg::TwoPartyTupleGeneratorFactory>(rcot(0), *net[me], me, buf, mc);
      else if (kind == 1) f = std::make_unique<tg::TupleGeneratorFactory>(std::make_shared<tg::insecure::DummyProductShareGeneratorFactory>(*net[me]), std::make_unique<eu::AesPrgFactory>(), buf, me, n, mc);
      else f = std::make_unique<tg::insecure::DummyTupleGeneratorFactory>(mc);
      size_t gens = 1 + r.below(2);
      std::vector<std::unique_ptr<tg::ITupleGenerator>> g;
      std::vector<std::array<uint64_t, 5>> want(gens);
      for (auto& x : want) x.fill(0);
      for (size_t i = 0; i < gens; i++) g.push_back(f->create());
      auto lookAt = [&](bool atRest) {
        auto all = mc->collectMetrics();
        if (all.size() != gens) { violation("recorder-lost", cat(nm, " ", all.size(), " of ", gens, " generators in the metrics")); return; }
        std::multiset<std::vector<uint64_t>> a, b;
        for (auto& [k, m] : all.items()) {
          auto v = [&](const char* x) { return (uint64_t)m.at(x).asInt(); };
          if (k.asString().rfind("pre.fix.tuple_generator", 0)) violation("metric-name", k.asString());
          count("tuple_metrics");
          uint64_t made = v("boolean_tuples_generated"), used = v("boolean_tuples_consumed");
          if (atRest && v("boolean_tuples_unused") != made - used) violation("tuple-metrics", cat(nm, " unused"));
          if (made < used) violation("tuple-metrics", cat(nm, " ", used, " used of ", made));
          if (kind != 2 && made % buf) violation("tuple-metrics", cat(nm, " ", made, " generated in steps of ", buf));
          if (kind != 2 && made > used + 2 * buf) violation("tuple-metrics", cat(nm, " ", made, " generated for ", used));
          if (kind == 2 && made != used) violation("tuple-metrics", cat(nm, " ", made, " generated for ", used));
          if (v("composite_tuples_requested") != v("composite_tuples_without_expansion_requested") + v("composite_tuples_requiring_expansion_requested")) violation("tuple-metrics", cat(nm, " composite total"));
          a.insert({used, v("composite_tuples_without_expansion_requested"), v("composite_tuples_requiring_expansion_requested"), v("mini_tuples_without_expansion_requested"), v("mini_tuples_requiring_expansion_requested")});
        }
        for (auto& x : want) b.insert(std::vector<uint64_t>(x.begin(), x.end()));
        if (a != b) violation("tuple-metrics", cat(nm, " counted ", str(*a.begin()), " requested ", str(*b.begin())));
      };
      for (int i = 0; i < 12; i++) {
        size_t x = r.below(gens);
        auto& o = *g[x];
        auto& t = want[x];
        uint32_t k = r.oneIn(5) ? 0 : r.below(r.oneIn(4) ? 700 : 50);
        std::map<size_t, uint32_t> comp;
        if (kind != 1 && r.coin()) for (int j = 0; j < 3; j++) comp[r.oneIn(3) ? 126 + r.below(6) : 1 + r.below(300)] = r.below(20);
        if (comp.empty()) { if (o.getBooleanTuple(k).size() != k) violation("tuple-amount", nm); }
        else if (r.coin()) { o.getNormalAndCompositeBooleanTuples(k, comp); }
        else { o.getCompositeTuple(comp); k = 0; }
        t[0] += k;
        for (auto& [size, c] : comp) { t[size > 128 ? 2 : 1] += c; t[size > 128 ? 4 : 3] += c * size; }
        lookAt(false);
      }
      lookAt(true);
    });
    distinct(nm);
  });
}

// ---- the collector -----------------------------------------------------------
struct Fixed final : fu::IMetricRecorder {
  folly::dynamic v;
  mutable int read = 0;
  explicit Fixed(folly::dynamic x) : v(std::move(x)) {}
  folly::dynamic getMetrics() const override { read++; return v; }
};
static void collector(size_t id) {
  std::string nm = cat("collector #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    std::string prefix = r.oneIn(6) ? "" : r.oneIn(4) ? "a.b" : cat("p", r.below(100));
    fu::MetricCollector c(prefix);
    if (c.getPrefix() != prefix) violation("prefix", nm);
    bool dup = r.coin();
    std::vector<std::pair<std::string, std::shared_ptr<Fixed>>> reg;
    std::map<std::string, int> names;
    auto key = [&] { static const char* k[] = {"sent_data", "received_data", "time", "", "a.b", "x y"}; return std::string(k[r.below(6)]); };
    auto check1 = [&] {
      auto all = c.collectMetrics();
      count("collections_compared");
      if (all.size() != reg.size()) { violation("recorder-lost", cat(nm, " ", all.size(), " entries for ", reg.size(), " recorders")); return; }
      std::multiset<std::pair<std::string, std::string>> left;
      for (auto& [k, v] : all.items()) left.insert({k.asString(), folly::toJson(v)});
      // names that are unique appear as they are; the rest begin with theirs
      std::vector<std::pair<std::string, std::string>> loose;
      for (auto& [nmr, rec] : reg) {
        std::pair<std::string, std::string> e{prefix + "." + nmr, folly::toJson(rec->v)};
        if (names[nmr] == 1 && !dup) { auto i = left.find(e); if (i == left.end()) { violation("recorder-metrics", cat(nm, " nothing as registered under ", e.first)); return; } left.erase(i); }
        else loose.push_back(e);
      }
      std::stable_sort(loose.begin(), loose.end(), [](auto& a, auto& b) { return a.first.size() > b.first.size(); });
      for (auto& e : loose) {
        auto i = std::find_if(left.begin(), left.end(), [&](auto& x) { return x.second == e.second && x.first.rfind(e.first, 0) == 0; });
        if (i == left.end()) { violation("recorder-metrics", cat(nm, " nothing as registered under ", e.first, " (again)")); return; }
        left.erase(i);
      }
      // sums
      std::map<std::string, std::pair<int64_t, double>> sum;
      std::map<std::string, bool> real;
      for (auto& [nmr, rec] : reg) for (auto& [k, v] : rec->v.items()) {
        if (!v.isInt() && !v.isDouble()) continue;
        auto& s = sum[prefix + "." + k.asString()];
        if (v.isInt()) s.first += v.asInt(); else { s.second += v.asDouble(); real[prefix + "." + k.asString()] = true; }
      }
      auto agg = c.aggregateMetrics();
      if (agg.size() != sum.size()) violation("aggregate-size", cat(nm, " ", agg.size(), " of ", sum.size()));
      for (auto& [k, s] : sum) {
        if (!agg.count(k)) { violation("aggregate-missing", cat(nm, " ", k)); continue; }
        auto v = agg.at(k);
        count("sums_compared");
        bool ok = real[k] ? std::abs(v.asDouble() - (s.first + s.second)) <= 1e-6 * (1 + std::abs(s.first) + std::abs(s.second)) : v.isInt() && v.asInt() == s.first;
        if (!ok) violation("aggregate-sum", cat(nm, " ", k, " ", folly::toJson(v), " instead of ", s.first, "+", s.second));
      }
    };
    check1();
    for (int i = 0; i < 12; i++) {
      std::string name = dup && reg.size() && r.coin() ? reg[r.below(reg.size())].first : dup ? cat("n", r.below(5), r.oneIn(4) ? "_2" : "") : r.oneIn(9) && !names.count("") ? "" : cat("name ", i);
      folly::dynamic d = folly::dynamic::object;
      for (size_t k = r.below(5); k--;) switch (r.below(5)) {
        case 0: d.insert(key(), "text"); break;
        case 1: d.insert(key(), (double)r.range(-1000, 1000) / 4); break;
        case 2: d.insert(key(), r.coin()); break;
        case 3: { folly::dynamic in = folly::dynamic::object("sent_data", 5); d.insert(key(), in); break; }
        default: d.insert(key(), r.range(-1000, (int64_t)1 << 50));
      }
      auto rec = dup && reg.size() && r.oneIn(5) ? reg[r.below(reg.size())].second : std::make_shared<Fixed>(d);
      c.addNewRecorder(name, rec);
      names[name]++;
      reg.emplace_back(name, rec);
      if (r.coin() && rec->v.count("time") && rec->v.at("time").isInt()) rec->v["time"] = rec->v.at("time").asInt() + 7; // metrics are pulled, not copied
      check1();
    }
    check1();
    distinct(nm);
  });
}
// recorders that several threads report to at the same moment lose nothing
static void reported(size_t id) {
  std::string nm = cat("reported #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    tg::TuplesMetricRecorder t;
    comm::PartyCommunicationAgentTrafficRecorder c;
    fbpcf::mpc_std_lib::walr::OTBasedMatrixMultiplicationMetricRecorder w;
    int n = 2 + (int)r.below(7), each = 2000 + (int)r.below(20000);
    uint64_t s = 1 + r.below(900);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int k = 0; k < n; k++) ts.emplace_back([&] {
      ready++;
      while (ready < n) {}
      for (int i = 0; i < each; i++) {
        t.addTuplesGenerated(s); t.addTuplesConsumed(s);
        t.addCompositeTuplesWithoutExpansionRequested(2, s); t.addCompositeTuplesRequiringExpansionRequested(3, s);
        c.addSentData(s); c.addReceivedData(s + 1);
        w.addFeaturesSent(s); w.addFeaturesReceived(s + 1); w.addOtMessagesUsed(s + 2); w.addColumnsSent(s + 3); w.addColumnsReceived(s + 4);
      }
    });
    for (auto& x : ts) x.join();
    uint64_t all = (uint64_t)n * each;
    auto is = [&](const fu::IMetricRecorder& m, const char* k, uint64_t want) {
      count("reports_compared");
      uint64_t got = (uint64_t)m.getMetrics().at(k).asInt();
      if (got != want) violation("report-lost", cat(nm, " ", k, " is ", got, " after ", n, " threads reported ", want));
    };
    is(t, "boolean_tuples_generated", all * s); is(t, "boolean_tuples_consumed", all * s); is(t, "boolean_tuples_unused", 0);
    is(t, "composite_tuples_requested", all * 5);
    is(t, "composite_tuples_without_expansion_requested", all * 2); is(t, "composite_tuples_requiring_expansion_requested", all * 3);
    is(t, "mini_tuples_without_expansion_requested", all * 2 * s); is(t, "mini_tuples_requiring_expansion_requested", all * 3 * s);
    is(c, "sent_data", all * s); is(c, "received_data", all * (s + 1));
    is(w, "features_sent", all * s); is(w, "features_received", all * (s + 1)); is(w, "ot_messages_used", all * (s + 2)); is(w, "columns_sent", all * (s + 3)); is(w, "columns_received", all * (s + 4));
    distinct(nm);
  });
}
// everything that goes over sockets is in the metrics, whatever the names of the channels
static void onSockets(int n, EngineKind e, size_t id) {
  std::string nm = cat("sockets n=", n, " ", name(e), " #", id);
  runCase(nm, [&] {
    std::map<std::pair<int, int>, int> port;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) port[{i, j}] = freePort(6);
    auto tapes = newTapes(n, false);
    std::barrier bar(n);
    if (!parties(n, "party-died", [&](int me) {
          Rng r = rng(nm);
          std::map<int, socks::Factory::PartyInfo> info;
          for (int p = 0; p < n; p++) if (p != me) info[p] = {"127.0.0.1", port[{std::min(me, p), std::max(me, p)}]};
          auto mc = std::make_shared<fu::MetricCollector>(cat("party", me));
          TapFactory f(me, std::make_unique<socks::Factory>(me, info, socks::noTls(), mc, 20), tapes[me]);
          std::vector<std::unique_ptr<eng::ISecretShareEngine>> es;
          std::vector<size_t> from;
          for (int k = 0; k < 2; k++) { { std::lock_guard<std::mutex> g(tapes[me]->m); from.push_back(tapes[me]->channels.size()); } es.push_back(makeEngine(e, me, n, f, 50, mc)); }
          for (int i = 0; i < 8; i++) {
            auto& en = *es[i % 2];
            size_t k = 1 + r.below(60);
            auto x = en.setBatchInput(0, std::vector<bool>(k, true)), y = en.setBatchInput(1, std::vector<bool>(k, true));
            en.scheduleBatchAND(x, y);
            en.executeScheduledOperations();
          }
          bar.arrive_and_wait();
          Watch wt{cat(nm, " party ", me)};
          wt.settle(tapes, me, [&] { auto a = es[0]->getTrafficStatistics(), b = es[1]->getTrafficStatistics(); return Pair2(a.first + b.first, a.second + b.second); });
          bar.arrive_and_wait();
          for (int tries = 0;; tries++) {
            auto before = total(*tapes[me]);
            auto all = mc->collectMetrics();
            auto agg = mc->aggregateMetrics();
            auto t = total(*tapes[me]);
            if (t != before && tries < 1000) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); continue; }
            size_t chans; { std::lock_guard<std::mutex> g(tapes[me]->m); chans = tapes[me]->channels.size(); }
            // one for every channel, one for each peer's port numbers, one for each generator
            if (all.size() != chans + (n - 1) + 2) { violation("recorder-lost", cat(nm, " party ", me, ": ", all.size(), " recorders in the metrics, ", chans + (n - 1) + 2, " registered")); break; }
            auto pre = cat("party", me, ".");
            uint64_t ports = 0, asked = 0;
            for (auto& [k, m] : all.items()) if (k.asString().find("Port_number_sync") != std::string::npos) { ports += m.at("sent_data").asInt(); asked += m.at("received_data").asInt(); }
            if (ports + asked == 0) violation("port-traffic", nm);
            bool ok = (uint64_t)agg.at(pre + "sent_data").asInt() == t.first + ports && (uint64_t)agg.at(pre + "received_data").asInt() == t.second + asked;
            if (!ok && tries < 200) { std::this_thread::sleep_for(std::chrono::milliseconds(5)); continue; }
            count("socket_metrics_compared", all.size());
            if (!ok) violation("aggregate-traffic", cat(nm, " party ", me, ": ", agg.at(pre + "sent_data").asInt(), "/", agg.at(pre + "received_data").asInt(), " in the metrics, exchanged ", show(t), " and ", ports, "/", asked, " for ports"));
            break;
          }
          bar.arrive_and_wait();
        })) return;
    distinct(nm);
  });
}

void vfMain() {
  signal(SIGPIPE, SIG_IGN);
  Switch::install<0>();
  using E = EngineKind;
  size_t k = 0;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
  // what is read while others work
  for (size_t i = 0; i < n(4, 24); i++) readers(i % 2 ? E::SmallMulti : E::SmallTwo, i % 2 ? 2 + i / 2 % 2 : 2, i);
  game(World{SchedKind::Eager, E::SmallTwo, Alloc::ArenaUnsafe, 2, 40}, k++);
  for (size_t i = 0; i < n(3, 10); i++) reported(i);
  return;
#endif
#endif
  const E kinds[] = {E::Dummy, E::SmallTwo, E::SmallMulti, E::Dummy, E::Iknp, E::SmallMulti, E::SmallTwo, E::IknpBoth};
  for (size_t i = 0; i < n(40, 400); i++) {
    auto e = kinds[i % 8];
    auto s = i % 5 == 4 ? SchedKind::NetPlain : i % 17 == 5 ? SchedKind::Plain : i % 2 ? SchedKind::Lazy : SchedKind::Eager;
    int np = s == SchedKind::Plain ? 1 : e == E::SmallTwo || e == E::Iknp ? 2 : 2 + (int)(i / 8 % 3);
    if (e == E::IknpBoth && np > 2) np = 2;
    if (s != SchedKind::Eager && s != SchedKind::Lazy) np = s == SchedKind::NetPlain ? 2 + i % 2 : 1;
    game(World{s, e, i % 3 == 0 ? Alloc::Map : i % 3 == 1 ? Alloc::ArenaSafe : Alloc::ArenaUnsafe, np, 8 + i * 7 % 90, i % 4 == 3 ? 60u : 0u}, k++);
  }
  if (thorough()) for (int i = 0; i < 4; i++) game(World{i % 2 ? SchedKind::Lazy : SchedKind::Eager, i < 2 ? E::Ferret : E::FerretBoth, Alloc::ArenaUnsafe, 2}, k++);
  for (size_t i = 0; i < n(6, 60); i++) readers(i % 2 ? E::SmallMulti : E::SmallTwo, i % 2 ? 2 + i / 2 % 2 : 2, i);
  for (size_t i = 0; i < n(4, 24); i++) games(World{i % 4 == 3 ? SchedKind::NetPlain : i % 2 ? SchedKind::Lazy : SchedKind::Eager, i % 2 ? E::SmallMulti : E::SmallTwo, Alloc::ArenaUnsafe, 2, 40}, i);
  for (size_t i = 0; i < n(2, 12); i++) for (int p = 0; p < 14; p++) protocol(p, i);
  borrowed();
  for (size_t i = 0; i < n(2, 12); i++) for (int p = 0; p < 4; p++) oram(p, i);
  for (size_t i = 0; i < n(6, 60); i++) tuples(i % 3, i % 3 == 1 ? 2 + i / 3 % 2 : 2, i);
  for (size_t i = 0; i < n(150, 2000); i++) collector(i);
  for (size_t i = 0; i < n(12, 100); i++) reported(i);
  for (size_t i = 0; i < n(4, 20); i++) onSockets(i % 2 ? 3 : 2, i % 2 ? E::SmallMulti : i % 4 ? E::SmallTwo : E::SmallMulti, i);
}
