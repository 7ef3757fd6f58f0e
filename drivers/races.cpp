// C33: many parties and games in one process, each on threads of its own.
#include <barrier>
#include <signal.h>
#include "prog.h"
#include "sockets.h"
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/frontend/mpcGame.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactorFactory.h"
#include "fbpcf/mpc_std_lib/oram/LinearOramFactory.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOramFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
#include "fbpcf/scheduler/SchedulerHelper.h"
#include "kinds.h"
using namespace vf;
namespace tg = fbpcf::engine::tuple_generator;
namespace ot = tg::oblivious_transfer;
namespace eu = fbpcf::engine::util;
namespace pm = fbpcf::mpc_std_lib::permuter;
namespace sh = fbpcf::mpc_std_lib::shuffler;
namespace om = fbpcf::mpc_std_lib::oram;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
#ifndef VF_TSAN
#define VF_TSAN 0
#endif
using Net = std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>>;
static std::atomic<int> atOnce{0}, most{0};
struct Here {
  Here() { int v = ++atOnce, m = most; while (m < v && !most.compare_exchange_weak(m, v)) {} }
  ~Here() { --atOnce; }
};
static void together(std::vector<std::function<void()>> fs) {
  std::vector<std::thread> t;
  for (auto& f : fs) t.emplace_back([&f] { f(); });
  for (auto& x : t) x.join();
}

// ---- computations at scheduler level ------------------------------------------------
static std::function<void()> computation(std::string nm, World w, int rounds, int steps) {
  return [=] {
    for (int i = 0; i < rounds; i++) { // whole computations come and go
      ProgCfg c;
      c.n = w.n; c.steps = steps; c.intMult = hasIntMult(w.e) || w.s == SchedKind::Plain || w.s == SchedKind::NetPlain;
      c.composite = w.n == 2;
      Prog p = genProg(c, rng(cat(nm, "s", i)), rng(cat(nm, "v", i)));
      std::vector<RunResult> rs;
      { Here h; rs = runWorld(w, p, seed() * 7 + i); }
      if (rs.empty()) return;
      checkProg(p, w, rs, nm);
      count("computations");
      progress();
    }
  };
}
static World anyWorld(Rng& r) {
  static const EngineKind es[] = {EngineKind::Dealer, EngineKind::SmallTwo, EngineKind::SmallMulti, EngineKind::SmallMulti, VF_TSAN ? EngineKind::SmallTwo : EngineKind::Iknp, EngineKind::SmallTwo};
  World w{r.oneIn(7) ? SchedKind::NetPlain : r.coin() ? SchedKind::Lazy : SchedKind::Eager, es[r.below(6)], (Alloc)r.below(3), 2, 6 + r.below(60), r.oneIn(3) ? 50u : 0u};
  // every pseudorandom stream keeps a thread's stack: few parties where there are many streams
  if (w.e == EngineKind::Dealer || w.e == EngineKind::SmallMulti) w.n = 2 + r.below(VF_TSAN && w.e == EngineKind::SmallMulti ? 2 : 3);
  return w;
}
static void crowd(size_t id) {
  std::string nm = cat("crowd #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    std::vector<std::function<void()>> fs;
    size_t k = 2 + r.below(4);
    for (size_t i = 0; i < k; i++) { auto w = anyWorld(r); fs.push_back(computation(cat(nm, ".", i, " ", w.str()), w, 1 + r.below(3), 15 + r.below(25))); }
    together(fs);
    distinct(nm);
  });
}

// ---- games with identities of their own ----------------------------------------------
template <int id> static void oneGame(int me, std::unique_ptr<sched::IArithmeticScheduler> s, const std::vector<uint64_t>& xs, const std::vector<uint64_t>& ys, const std::string& nm) {
  using G = fbpcf::frontend::MpcGame<id>;
  using Int = typename G::template SecUnsignedInt<32, true>;
  using One = typename G::template SecSignedInt<24>;
  using B = typename G::template SecBit<true>;
  Here h;
  G g(std::move(s));
  size_t n = xs.size();
  auto other = [&](size_t i) { return i * 77 + me; };
  std::vector<uint64_t> a = xs, b = ys;
  for (size_t i = 0; i < n; i++) { if (me != 0) a[i] = other(i); if (me != 1) b[i] = other(i); }
  Int x(a, 0), y(b, 1);
  B lt = x < y;
  auto sum = x + y;
  auto big = y.mux(lt, x) /* lt ? x : y */;
  auto sl = lt.openToParty(0); auto ss = sum.openToParty(1); auto sb = big.openToParty(0);
  One p((int64_t)(a[0] & 0xfffff), 0), q((int64_t)(b[0] & 0xfffff), 1);
  auto d = (p - q).openToParty(0);
  auto vl = sl.getValue();
  auto vs = ss.getValue();
  auto vb = sb.getValue();
  auto vd = d.getValue();
  for (size_t i = 0; i < n; i++) {
    count("game_values");
    if (me == 0 && vl[i] != (xs[i] < ys[i])) violation("wrong-result", cat(nm, " ", xs[i], " < ", ys[i], " is ", (int)vl[i]));
    if (me == 1 && vs[i] != (uint32_t)(xs[i] + ys[i])) violation("wrong-result", cat(nm, " ", xs[i], " + ", ys[i], " is ", vs[i]));
    if (me == 0 && vb[i] != std::min(xs[i], ys[i])) violation("wrong-result", cat(nm, " the smaller of ", xs[i], " and ", ys[i], " is ", vb[i]));
  }
  if (me == 0 && vd != (int64_t)(xs[0] & 0xfffff) - (int64_t)(ys[0] & 0xfffff)) violation("wrong-result", cat(nm, " difference ", vd));
  count("games");
}
static std::unique_ptr<sched::IArithmeticScheduler> made(int how, int me, comm::IPartyCommunicationAgentFactory& f) {
  auto mc = std::make_shared<fbpcf::util::MetricCollector>("g");
  switch (how) {
    case 0: return scheduler(SchedKind::Lazy, EngineKind::SmallMulti, Alloc::ArenaUnsafe, me, 2, f, 40);
    case 1: return scheduler(SchedKind::Eager, EngineKind::SmallTwo, Alloc::ArenaSafe, me, 2, f, 40);
    case 2: return sched::createArithmeticLazySchedulerWithInsecureEngine<true>(me, f);
    case 3: return scheduler(SchedKind::Lazy, VF_TSAN ? EngineKind::SmallMulti : EngineKind::Iknp, Alloc::Map, me, 2, f);
    case 4: return scheduler(SchedKind::Lazy, EngineKind::SmallTwo, Alloc::ArenaUnsafe, me, 2, f, 25);
    default: return sched::createArithmeticNetworkPlaintextScheduler<true>(me, f);
  }
}
template <int base> static std::function<void()> gamePair(std::string nm, int rounds) {
  return [=] {
    Rng r = rng(nm);
    int how = r.below(6), h2 = r.below(6);
    for (int i = 0; i < rounds; i++) {
      auto net = memNet(2, r.oneIn(3) ? newTapes(2, false, 40, r()) : std::vector<std::shared_ptr<Tape>>{});
      size_t n = 1 + r.below(i ? 30 : 8);
      std::vector<uint64_t> xs, ys;
      for (size_t k = 0; k < n; k++) { xs.push_back(r.edgy(32)); ys.push_back(r.oneIn(4) ? xs.back() : r.edgy(32)); }
      int hw = i % 2 ? h2 : how;
      if (!parties(2, "party-died", [&](int me) {
            auto s = made(hw, me, *net[me]);
            auto t = cat(nm, " round ", i, " made ", hw, " party ", me);
            if (me == 0) oneGame<base>(me, std::move(s), xs, ys, t); else oneGame<base + 1>(me, std::move(s), xs, ys, t);
          })) return;
      progress();
    }
  };
}
static void arcade(size_t id) {
  std::string nm = cat("games #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    int k = 2 + r.below(2);
    std::vector<std::function<void()>> fs = {gamePair<50>(nm + ".a", k), gamePair<52>(nm + ".b", k), gamePair<54>(nm + ".c", k)};
    fs.push_back(computation(nm + ".w", anyWorld(r), k, 20));
    together(fs);
    distinct(nm);
  });
}

// ---- generators that come and go while others work --------------------------------------
static std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rcots(int k) { return k ? ot::createFerretRcotFactory(2048, 1024, 64) : ot::createClassicRcotFactory(); }
struct Got { std::vector<bool> a, b, c; std::vector<uint64_t> ia, ib, ic; };
static std::function<void()> churn(std::string nm, int n, int rounds) {
  return [=] {
    Rng s = rng(nm);
    auto tapes = newTapes(n, false, s.coin() ? 60 : 0, s());
    auto net = memNet(n, tapes);
    std::vector<Got> got(n);
    int rc = s.oneIn(4);
    if (!parties(n, "party-died", [&](int me) {
          Rng r = rng(nm);
          Here h;
          auto mc = std::make_shared<fbpcf::util::MetricCollector>("c");
          auto ps = [&] { return std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<eu::AesPrgFactory>(32), std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *net[me], rcots(rc))); };
          std::vector<std::unique_ptr<tg::ITupleGenerator>> bs;
          std::vector<std::unique_ptr<tg::IArithmeticTupleGenerator>> is;
          auto& g = got[me];
          for (int i = 0; i < rounds; i++) {
            switch (bs.size() + is.size() > (n == 2 ? 3 : 2) ? 4 : r.below(5)) {
              case 0: if (n == 2) bs.push_back(tg::TwoPartyTupleGeneratorFactory(rcots(rc), *net[me], me, 5 + r.below(60), mc).create()); break;
              case 1: bs.push_back(tg::TupleGeneratorFactory(ps(), std::make_unique<eu::AesPrgFactory>(16), 5 + r.below(60), me, n, mc).create()); break;
              case 2: is.push_back(tg::ArithmeticTupleGeneratorFactory(ps(), std::make_unique<eu::AesPrgFactory>(16), 2 + r.below(10), me, n).create()); break;
              default: { // gone, with what it was preparing
                size_t k = bs.size() > 1 ? 0 : 1;
                if (bs.size() + is.size() < 3 && r.coin()) break;
                if (k == 0 && bs.size() > 1) bs.erase(bs.begin() + r.below(bs.size()));
                if (k == 1 && is.size() > 1) is.erase(is.begin() + r.below(is.size()));
              }
            }
            for (auto& b : bs) if (r.coin()) for (auto& t : b->getBooleanTuple(r.below(50))) { g.a.push_back(t.getA()); g.b.push_back(t.getB()); g.c.push_back(t.getC()); }
            for (auto& b : is) if (r.coin()) for (auto& t : b->getIntegerTuple(r.below(15))) { g.ia.push_back(t.getA()); g.ib.push_back(t.getB()); g.ic.push_back(t.getC()); }
            progress();
          }
          count("generators", bs.size() + is.size());
        })) return;
    for (int p = 1; p < n; p++) if (got[p].a.size() != got[0].a.size() || got[p].ia.size() != got[0].ia.size()) { violation("amounts-differ", nm); return; }
    for (size_t i = 0; i < got[0].a.size(); i++) {
      bool a = 0, b = 0, c = 0;
      for (auto& g : got) { a ^= g.a[i]; b ^= g.b[i]; c ^= g.c[i]; }
      count("tuples");
      if (c != (a && b)) { violation("wrong-tuple", cat(nm, " boolean ", i)); break; }
    }
    for (size_t i = 0; i < got[0].ia.size(); i++) {
      uint64_t a = 0, b = 0, c = 0;
      for (auto& g : got) { a += g.ia[i]; b += g.ib[i]; c += g.ic[i]; }
      count("tuples");
      if (c != a * b) { violation("wrong-tuple", cat(nm, " integer ", i)); break; }
    }
  };
}
static void factories(size_t id) {
  std::string nm = cat("generators #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    std::vector<std::function<void()>> fs;
    for (int i = 0; i < 2; i++) { int n = i && r.coin() ? 3 : 2; fs.push_back(churn(cat(nm, ".", i), n, n == 2 ? 14 : 8)); }
    fs.push_back(computation(nm + ".w", anyWorld(r), 2, 20));
    together(fs);
    distinct(nm);
  });
}

// ---- the standard library, several uses at once -------------------------------------------
// no nested case: several of these run at the same time
static std::function<void()> library(std::string nm, int what) {
  return [=] {
    Rng s = rng(nm);
    World w{s.coin() ? SchedKind::Lazy : SchedKind::Eager, s.coin() ? EngineKind::SmallTwo : EngineKind::Dealer, Alloc::ArenaUnsafe, 2, 200, s.oneIn(3) ? 30u : 0u};
    auto tapes = newTapes(2, false, s.oneIn(3) ? 30 : 0, s());
    auto net = memNet(2, tapes);
    size_t n = 2 + s.below(9);
    auto v = kinds::random<uint32_t>(s, n);
    auto order = kinds::permutation(s, n);
    int owner = s.coin(), to = s.coin();
    onWorld(w, [&](int me, sched::IScheduler&) {
      Here h;
      kinds::Who who{me, false};
      auto noise = rng(cat(nm, me));
      if (what == 0) { // permutation
        auto p = pm::AsWaksmanPermuterFactory<uint32_t, 0>(me, 1 - me).create();
        auto src = kinds::input<uint32_t>(who, v, 1 - owner, noise);
        auto out = me == owner ? p->permute(src, n, order) : p->permute(src, n);
        kinds::Es want; for (auto i : order) want.push_back(v[i]);
        kinds::expectOpen<uint32_t>(who, "wrong-order", out, to, want, nm);
      } else if (what == 1) { // shuffle
        auto p = sh::PermuteBasedShufflerFactory<kinds::Sec<uint32_t>>(me, 1 - me, std::make_unique<pm::AsWaksmanPermuterFactory<uint32_t, 0>>(me, 1 - me), std::make_unique<eu::AesPrgFactory>(16)).create();
        auto out = p->shuffle(kinds::input<uint32_t>(who, v, owner, noise), n);
        auto got = kinds::K<uint32_t>::open(out, to);
        auto want = v;
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        if (me == to && got != want) violation("not-a-permutation", nm);
      } else { // oblivious memory
        using Role = om::IWriteOnlyOram<uint32_t>::Role;
        auto f = what == 2 ? om::getSecureWriteOnlyOramFactory<uint32_t, 16, 0>(me == 0, 0, 1, *net[me]) : om::getSecureLinearOramFactory<uint32_t, 0>(me == 0, 0, 1, *net[me]);
        auto o = f->create(n);
        Rng r = rng(nm);
        std::vector<uint32_t> ref(n);
        for (int round = 0; round < 2; round++) {
          size_t k = 1 + r.below(6);
          std::vector<std::vector<bool>> idx(4, std::vector<bool>(k)), val(32, std::vector<bool>(k));
          for (size_t j = 0; j < k; j++) {
            size_t at = r.below(n); uint32_t x = (uint32_t)r();
            ref[at] += x;
            for (int b = 0; b < 4; b++) { bool m = r.coin(); idx[b][j] = me ? m : m ^ (at >> b & 1); }
            for (int b = 0; b < 32; b++) { bool m = r.coin(); val[b][j] = me ? m : m ^ (x >> b & 1); }
          }
          o->obliviousAddBatch(idx, val);
          for (size_t i = 0; i < n; i++) {
            auto role = i % 2 ? Role::Alice : Role::Bob;
            auto got = o->publicRead(i, role);
            if ((role == Role::Alice) == (me == 0) && got != ref[i]) violation("wrong-memory", cat(nm, " position ", i, " of ", n, " ", got, " instead of ", ref[i]));
          }
        }
      }
      count("library_uses");
      progress();
    }, w.delayUs ? newTapes(2, false, w.delayUs, seed()) : std::vector<std::shared_ptr<Tape>>{});
  };
}
static void libraries(size_t id) {
  std::string nm = cat("library #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    std::vector<std::function<void()>> fs;
    size_t k = 3 + r.below(3);
    for (size_t i = 0; i < k; i++) fs.push_back(library(cat(nm, ".", i), (id + i) % 4));
    together(fs);
    distinct(nm);
  });
}

// ---- over sockets -----------------------------------------------------------------------
static std::function<void()> onSockets(std::string nm, int n, EngineKind e, socks::Tls tls) {
  return [=] {
    std::map<std::pair<int, int>, int> port;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) port[{i, j}] = freePort(6);
    ProgCfg c;
    c.n = n; c.steps = 25; c.intMult = hasIntMult(e); c.composite = n == 2;
    Prog p = genProg(c, rng(nm + "s"), rng(nm + "v"));
    World w{SchedKind::Lazy, e, Alloc::ArenaUnsafe, n, 40};
    std::vector<RunResult> rs(n);
    if (!parties(n, "party-died", [&](int me) {
          Here h;
          std::map<int, socks::Factory::PartyInfo> info;
          for (int q = 0; q < n; q++) if (q != me) info[q] = {"127.0.0.1", port[{std::min(me, q), std::max(me, q)}]};
          auto mc = std::make_shared<fbpcf::util::MetricCollector>("s");
          socks::Factory f(me, info, tls, mc, 25);
          auto s = scheduler(w.s, w.e, w.a, me, n, f, w.small);
          rs[me] = runProg(p, *s, me, false, seed());
        })) return;
    checkProg(p, w, rs, nm);
    count("socket_computations");
  };
}
static void networks(size_t id, const socks::Tls& tls) {
  std::string nm = cat("networks #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    std::vector<std::function<void()>> fs;
    fs.push_back(onSockets(nm + ".a", 2, EngineKind::SmallTwo, id % 2 ? tls : socks::noTls()));
    fs.push_back(onSockets(nm + ".b", 3, EngineKind::SmallMulti, socks::noTls()));
    fs.push_back(computation(nm + ".w", anyWorld(r), 2, 20));
    together(fs);
    distinct(nm);
  });
}

void vfMain() {
  signal(SIGPIPE, SIG_IGN);
  Switch::install<0>();
  socks::Pki pki(scratchDir());
  auto id = pki.make("party", "127.0.0.1", pki.good, "secret");
  for (size_t i = 0; i < n(9, 400); i++) crowd(i);
  for (size_t i = 0; i < n(5, 200); i++) arcade(i);
  for (size_t i = 0; i < n(4, 150); i++) factories(i);
  for (size_t i = 0; i < n(8, 150); i++) libraries(i);
  for (size_t i = 0; i < n(2, 40); i++) networks(i, VF_TSAN ? socks::noTls() : id);
  if (thorough() && !VF_TSAN) for (size_t i = 0; i < 4; i++) runCase(cat("full size #", i), [&] { together({computation(cat("full.a", i), World{SchedKind::Lazy, EngineKind::FerretBoth, Alloc::ArenaUnsafe, 2}, 1, 60), computation(cat("full.b", i), World{SchedKind::Eager, EngineKind::Ferret, Alloc::ArenaUnsafe, 2}, 1, 60)}); });
  count("most_at_once", most);
}
