// C21: oblivious memories of every make against a plain array.
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/oram/DifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyDifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummySinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/LinearOramFactory.h"
#include "fbpcf/mpc_std_lib/oram/ObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/SinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOramFactory.h"
#include "kinds.h"
using namespace kinds;
namespace om = fbpcf::mpc_std_lib::oram;
namespace ec = fbpcf::engine::communication;
using Bits2 = std::vector<std::vector<bool>>;

enum Make { Secure, DummyDelta, DummyArray, AllDummy, Linear, makes };
static const char* makeName[] = {"secure", "plain delta", "plain arrays", "plain parts", "linear"};
template <class T, int8_t W> static std::unique_ptr<om::IWriteOnlyOramFactory<T>> factory(Make mk, bool first, int p0, int p1, ec::IPartyCommunicationAgentFactory& f) {
  auto role = first ? om::IWriteOnlyOram<T>::Role::Alice : om::IWriteOnlyOram<T>::Role::Bob;
  int peer = first ? p1 : p0;
  switch (mk) {
    case Secure: return om::getSecureWriteOnlyOramFactory<T, W, 0>(first, p0, p1, f);
    case Linear: return om::getSecureLinearOramFactory<T, 0>(first, p0, p1, f);
    case DummyDelta:
      return std::make_unique<om::WriteOnlyOramFactory<T>>(role, peer, f, std::make_unique<om::SinglePointArrayGeneratorFactory>(first, std::make_unique<om::insecure::DummyObliviousDeltaCalculatorFactory>(peer, f)),
                                                           std::make_unique<om::DifferenceCalculatorFactory<T, W, 0>>(first, p0, p1));
    case DummyArray:
      return std::make_unique<om::WriteOnlyOramFactory<T>>(role, peer, f, std::make_unique<om::insecure::DummySinglePointArrayGeneratorFactory>(first, peer, f),
                                                           std::make_unique<om::DifferenceCalculatorFactory<T, W, 0>>(first, p0, p1));
    default:
      return std::make_unique<om::WriteOnlyOramFactory<T>>(role, peer, f, std::make_unique<om::insecure::DummySinglePointArrayGeneratorFactory>(first, peer, f),
                                                           std::make_unique<om::insecure::DummyDifferenceCalculatorFactory<T, W>>(first, peer, f));
  }
}
// arithmetic of the value type, by hand
template <class T> struct Ar { static uint64_t m0() { return K<T>::mask; } static uint64_t m1() { return 0; } };
template <> struct Ar<uint32_t> { static uint64_t m0() { return 0xffffffff; } static uint64_t m1() { return 0; } };
template <> struct Ar<mu::AggregationValue> { static uint64_t m0() { return 0xffffffff; } static uint64_t m1() { return 0xffffffff; } };
template <class T> static E plus(const E& a, const E& b) { return {(a[0] + b[0]) & Ar<T>::m0(), (a[1] + b[1]) & Ar<T>::m1()}; }
template <class T> static std::vector<bool> bitsOf(const E& e) {
  std::vector<bool> r;
  for (uint64_t m = Ar<T>::m0(), i = 0; m; m >>= 1, i++) r.push_back(e[0] >> i & 1);
  for (uint64_t m = Ar<T>::m1(), i = 0; m; m >>= 1, i++) r.push_back(e[1] >> i & 1);
  return r;
}

struct Op { int kind; std::vector<size_t> at; Es v; size_t iw; size_t pos; int reader; int bad; uint64_t seed; };

template <class T, int8_t W> static void session(Make mk, const World& w, size_t id, size_t size, size_t batch = 0) {
  auto r = rng(cat("oram", K<T>::name(), (int)mk, w.str(), id, "/", batch));
  bool swapped = r.coin(); // who is party 0 of the memory
  auto nm = cat("oram ", makeName[mk], " ", K<T>::name(), " ", w.str(), " #", id, " size ", size, swapped ? " swapped" : "");
  runCase(nm, [&] {
    size_t need = 0;
    while ((1ull << need) < size) need++;
    std::vector<Op> ops;
    size_t adds = batch ? 1 : 2 + r.below(3);
    for (size_t a = 0; a < adds; a++) {
      if (a == 0 || r.oneIn(2)) for (size_t q = 0; q < 2; q++) ops.push_back({1 + (int)r.below(2), {}, {}, 0, r.below(size), (int)r.below(2), 0, 0});
      if (r.oneIn(2)) ops.push_back({3, {}, {}, 0, size + (r.coin() ? 0 : r.below(100)), (int)r.below(2), 0, 0});
      size_t k = batch ? batch : 1 + r.below(mk == Linear ? 30 : 12);
      Op o{0, {}, random<T>(r, k), std::max<size_t>(1, need) + (r.oneIn(3) ? r.below(4) : 0), 0, 0, 0, r()};
      size_t hot = r.below(size);
      for (size_t i = 0; i < k; i++) o.at.push_back(r.oneIn(3) ? hot : r.oneIn(4) ? (r.coin() ? 0 : size - 1) : r.below(size));
      if (r.oneIn(2)) { auto b = o; b.kind = 4; b.bad = r.below(6); ops.push_back(b); }
      ops.push_back(o);
    }
    for (size_t p = 0; p < std::min<size_t>(size, 40); p++) for (int kind : {1, 2}) ops.push_back({kind, {}, {}, 0, size <= 40 ? p : r.below(size), (int)r.below(2), 0, 0});
    std::vector<Es> shares(2);
    std::vector<std::pair<uint64_t, uint64_t>> traffic(2);
    auto net = memNet(2, {});
    bool lived = onWorld(w, [&](int me, sched::IScheduler&) {
      bool first = (me == 0) != swapped;
      auto f = factory<T, W>(mk, first, swapped, !swapped, *net[me]);
      auto oram = f->create(size);
      using Role = typename om::IWriteOnlyOram<T>::Role;
      Role mine = first ? Role::Alice : Role::Bob;
      Es ref(size, E{0, 0});
      std::vector<bool> addressed(size);
      bool any = false;
      for (auto& o : ops) {
        auto tag = [&] { return cat(nm, " position ", o.pos, " ref ", show(ref)); };
        if (o.kind == 0 || o.kind == 4) {
          Rng rr(o.seed); // the same at both parties
          Bits2 idx(o.iw, std::vector<bool>(o.at.size())), val(bitsOf<T>(o.v[0]).size(), std::vector<bool>(o.at.size()));
          for (size_t i = 0; i < o.at.size(); i++) {
            for (size_t b = 0; b < o.iw; b++) { bool s = rr.coin(); idx[b][i] = first ? s : s ^ (o.at[i] >> b & 1); }
            auto vb = bitsOf<T>(o.v[i]);
            for (size_t b = 0; b < vb.size(); b++) { bool s = rr.coin(); val[b][i] = first ? s : s ^ vb[b]; }
          }
          if (o.kind == 0) {
            auto i0 = idx, v0 = val;
            oram->obliviousAddBatch(idx, val);
            if (i0 != idx || v0 != val) violation("input-changed", nm);
            for (size_t i = 0; i < o.at.size(); i++) { ref[o.at[i]] = plus<T>(ref[o.at[i]], o.v[i]); addressed[o.at[i]] = true; }
            any = true;
            count("updates", o.at.size());
          } else {
            const char* what = "";
            switch (o.bad) {
              case 0: if (need == 0 || size <= 1) continue; idx.resize(need - 1); what = "too few index bits"; break;
              case 1: idx.clear(); what = "no index bits"; break;
              case 2: val.clear(); what = "no value bits"; break;
              case 3: if (idx.size() < 2) continue; idx[1 + rr.below(idx.size() - 1)].push_back(true); what = "index bits of different sizes"; break;
              case 4: val[rr.below(val.size())].push_back(true); what = "value bits of different sizes"; break;
              default: for (auto& x : val) x.push_back(false); what = "more values than indexes";
            }
            bool threw = false;
            try { oram->obliviousAddBatch(idx, val); } catch (const std::exception&) { threw = true; }
            count("refusals");
            if (!threw) violation("misfit-accepted", cat(nm, " ", what));
          }
        } else if (o.kind == 1) {
          Role rd = o.reader ? Role::Bob : Role::Alice;
          E got = K<T>::from(oram->publicRead(o.pos, rd));
          E want = rd == mine ? ref[o.pos] : E{0, 0};
          count("reads_compared");
          if (got != want) violation(rd == mine ? "wrong-value" : "value-at-other-party", cat(tag(), " got ", show({got}), " want ", show({want})));
          if (rd == mine && !addressed[o.pos]) count("untouched_reads");
        } else if (o.kind == 2) {
          shares[me].push_back(K<T>::from(oram->secretRead(o.pos)));
          if (me == 0) continue;
        } else {
          for (int k = 0; k < 2; k++) {
            bool threw = false;
            try { if (k) oram->secretRead(o.pos); else oram->publicRead(o.pos, mine); } catch (const std::exception&) { threw = true; }
            count("refusals");
            if (!threw) violation("read-beyond-accepted", tag());
          }
        }
        progress();
      }
      (void)any;
      traffic[me] = oram->getTrafficStatistics();
    });
    if (!lived) return;
    Es ref(size, E{0, 0});
    size_t k = 0, bare = 0, checkedShares = 0;
    bool any = false;
    for (auto& o : ops) {
      if (o.kind == 0) { any = true; for (size_t i = 0; i < o.at.size(); i++) ref[o.at[i]] = plus<T>(ref[o.at[i]], o.v[i]); }
      if (o.kind != 2) continue;
      E sum = plus<T>(shares[0][k], shares[1][k]);
      count("shares_compared");
      if (sum != ref[o.pos]) violation("wrong-shares", cat(nm, " position ", o.pos, " shares ", show({shares[0][k], shares[1][k]}), " want ", show({ref[o.pos]})));
      if (any && Ar<T>::m0() >= 0xffffffff && (mk == Secure || mk == DummyDelta || mk == Linear)) {
        checkedShares++;
        for (int p = 0; p < 2; p++) bare += shares[p][k][0] == 0 || shares[p][k][0] == ref[o.pos][0];
      }
      k++;
    }
    count("shares_examined", checkedShares);
    if (bare > 3) violation("share-reveals", cat(nm, " ", bare, " of ", checkedShares, " shares are zero or the value itself"));
    if (traffic[0].first != traffic[1].second || traffic[0].second != traffic[1].first) violation("traffic", cat(nm, " ", traffic[0].first, "/", traffic[0].second, " against ", traffic[1].first, "/", traffic[1].second));
  });
  distinct(nm);
}

// the parts: arrays that differ in one place
static void arrays(const World& w, bool plainDelta, size_t id) {
  auto nm = cat("arrays ", plainDelta ? "plain delta " : "", w.str(), " #", id);
  auto r = rng(nm);
  runCase(nm, [&] {
    size_t length = 1 + r.below(r.oneIn(4) ? 70 : 9), width = 1, batch = 1 + r.below(5);
    while ((1ull << width) < length) width++;
    if (r.oneIn(3)) width += r.below(3);
    std::vector<size_t> at(batch);
    for (auto& a : at) a = r.below(length);
    Bits2 s0(width, std::vector<bool>(batch)), s1 = s0;
    for (size_t i = 0; i < batch; i++) for (size_t b = 0; b < width; b++) { s0[b][i] = r.coin(); s1[b][i] = s0[b][i] ^ (at[i] >> b & 1); }
    std::vector<std::vector<std::pair<std::vector<bool>, std::vector<__m128i>>>> out(2);
    auto net = memNet(2, {});
    if (!onWorld(w, [&](int me, sched::IScheduler&) {
          std::unique_ptr<om::IObliviousDeltaCalculatorFactory> d;
          if (plainDelta) d = std::make_unique<om::insecure::DummyObliviousDeltaCalculatorFactory>(1 - me, *net[me]);
          else d = std::make_unique<om::ObliviousDeltaCalculatorFactory<0>>(me == 0, 0, 1);
          auto g = om::SinglePointArrayGeneratorFactory(me == 0, std::move(d)).create();
          out[me] = g->generateSinglePointArrays(me ? s1 : s0, length);
        })) return;
    if (out[0].size() != batch || out[1].size() != batch) { violation("array-count", nm); return; }
    for (size_t i = 0; i < batch; i++) {
      auto &a = out[0][i], &b = out[1][i];
      if (a.first.size() != length || b.first.size() != length || a.second.size() != length || b.second.size() != length) { violation("array-length", nm); continue; }
      std::set<std::string> keys;
      for (size_t j = 0; j < length; j++) {
        auto ka = std::string((char*)&a.second[j], 16), kb = std::string((char*)&b.second[j], 16);
        bool point = j == at[i];
        count("array_positions");
        if ((a.first[j] != b.first[j]) != point) violation("array-indicator", cat(nm, " array ", i, " position ", j, " point ", at[i]));
        if ((ka != kb) != point) violation("array-key", cat(nm, " array ", i, " position ", j, " point ", at[i]));
        keys.insert(ka); keys.insert(kb);
      }
      if (keys.size() != length + 1) violation("array-key-repeats", cat(nm, " ", keys.size(), " keys for ", length));
    }
  });
  distinct(nm);
}
template <class T, int8_t W> static void kind(size_t maxSize) {
  World ws[] = {{SchedKind::NetPlain, EngineKind::Dealer, Alloc::Map, 2}, {SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2}, {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2}};
  auto r = rng(cat("kind", K<T>::name(), (int)W));
  for (auto& w : ws)
    for (int mk = 0; mk < makes; mk++)
      for (size_t k = 0; k < n(1, 8); k++) {
        size_t size = r.oneIn(6) ? 1 : r.oneIn(4) ? (1ull << (1 + r.below(4))) + (int)r.below(3) - 1 : 1 + r.below(r.oneIn(3) ? maxSize : 9);
        session<T, W>((Make)mk, w, k, std::min(size, maxSize));
      }
}
void vfMain() {
  Switch::install<0>();
  World ws[] = {{SchedKind::Eager, EngineKind::Dealer, Alloc::Map, 2}, {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2}};
  for (auto& w : ws) for (size_t k = 0; k < n(6, 80); k++) { arrays(w, false, k); arrays(w, true, k); }
  kind<uint32_t, 12>(60);
  { // larger memories, longer batches
    World e{SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2}, p{SchedKind::NetPlain, EngineKind::Dealer, Alloc::Map, 2};
    for (size_t k = 0; k < n(1, 3); k++) {
      auto r = rng(cat("large", k));
      for (auto mk : {Secure, DummyDelta, DummyArray, AllDummy, Linear}) {
        session<uint32_t, 16>(mk, mk == Linear ? p : e, k, 255 + r.below(4), 3);
        session<uint32_t, 16>(mk, mk == Linear ? p : e, k, 3 + r.below(4), mk == Linear ? 260 + r.below(10) : 66 + r.below(9));
      }
      session<uint32_t, 16>(Secure, e, k, 1100 + r.below(100), 2);
      session<uint32_t, 32>(AllDummy, e, k, 65537 + r.below(100), 1);
      session<mu::AggregationValue, 16>(AllDummy, p, k, 4097, 3);
      session<uint32_t, 16>(Linear, p, k, 1030, 2);
    }
  }
  kind<mu::AggregationValue, 12>(40);
  kind<mu::Intp<true, 9>, 5>(31);
  kind<mu::Intp<false, 12>, 12>(40);
  kind<mu::Intp<true, 64>, 6>(40);
}
