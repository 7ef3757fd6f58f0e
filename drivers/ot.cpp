// C09: oblivious transfer correlations.
#include "mpc.h"
#include "stat.h"
#include <emmintrin.h>
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/EmpShRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyRcotExtenderFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMatrixMultiplierFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMultiPointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummySinglePointCotFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/util/COTWithRandomMessageFactory.h"
using namespace vf;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
namespace fe = ot::ferret;
namespace eu = fbpcf::engine::util;
using U128 = std::pair<uint64_t, uint64_t>;
using V = std::vector<uint64_t>;
static U128 key(__m128i x) { return {(uint64_t)_mm_extract_epi64(x, 0), (uint64_t)_mm_extract_epi64(x, 1)}; }
static std::string hex(__m128i x) { char b[40]; snprintf(b, 40, "%016lx%016lx", key(x).second, key(x).first); return b; }
static __m128i random128(Rng& r) { return _mm_set_epi64x(r(), r()); }
static __m128i odd(Rng& r) { auto d = random128(r); eu::setLsbTo1(d); return d; }
static bool same(__m128i a, __m128i b) { return key(a) == key(b); }

// ---- base transfers ------------------------------------------------------------
static void baseOt(size_t id) {
  std::string nm = cat("base-ot #", id);
  runCase(nm, [&] {
    auto net = memNet(2, {});
    std::vector<__m128i> m0, m1, got;
    std::vector<bool> choices;
    if (!parties(2, "party-died", [&](int me) {
          Rng r = rng(nm);
          ot::NpBaseObliviousTransfer o(net[me]->create(1 - me, "base"));
          for (int rep = 0; rep < 3; rep++) {
            size_t k = r.oneIn(4) ? 1 : 1 + r.below(150);
            auto c = r.bits(k);
            if (r.oneIn(4)) c.assign(k, r.coin());
            // the roles change between requests
            if (me == (rep & 1)) { auto p = o.send(k); if (p.first.size() != k || p.second.size() != k) violation("base-amount", nm); m0.insert(m0.end(), p.first.begin(), p.first.end()); m1.insert(m1.end(), p.second.begin(), p.second.end()); }
            else { auto v = o.receive(c); got.insert(got.end(), v.begin(), v.end()); choices.insert(choices.end(), c.begin(), c.end()); }
            // both must be done before the other list is extended
            auto a = net[me]->create(1 - me, cat("sync", rep));
            a->sendSingleT<int>(1); a->receiveSingleT<int>();
          }
        })) return;
    if (got.size() != m0.size()) { violation("base-amount", cat(nm, " ", got.size(), " received of ", m0.size())); return; }
    std::set<U128> seen;
    for (size_t i = 0; i < got.size(); i++) {
      count("base_transfers");
      if (!same(got[i], choices[i] ? m1[i] : m0[i])) violation("base-message", cat(nm, " transfer ", i, " choice ", (int)choices[i], " got ", hex(got[i]), " of ", hex(m0[i]), " ", hex(m1[i])));
      if (!seen.insert(key(m0[i])).second || !seen.insert(key(m1[i])).second) violation("base-repeat", cat(nm, " transfer ", i));
    }
    distinct(nm);
  });
}

// ---- correlated transfers ---------------------------------------------------------
enum class Rc { Iknp, Emp, Ferret, FerretDummyMp, FerretDummySp, FerretDummyMatrix, EmpFerret };
static const char* nameOf(Rc k) { return (const char*[]){"iknp", "emp", "ferret", "ferret/dummy-multi-point", "ferret/dummy-single-point", "ferret/dummy-matrix", "emp-ferret"}[(int)k]; }
// what the extensions were fed with
struct Fed { std::vector<__m128i> snd, rcv; };
struct TapExtender final : fe::IRcotExtender {
  std::unique_ptr<fe::IRcotExtender> in; std::shared_ptr<Fed> fed;
  TapExtender(std::unique_ptr<fe::IRcotExtender> i, std::shared_ptr<Fed> f) : in(std::move(i)), fed(f) {}
  int senderInit(__m128i d, int64_t e, int64_t b, int64_t w) override { return in->senderInit(d, e, b, w); }
  int receiverInit(int64_t e, int64_t b, int64_t w) override { return in->receiverInit(e, b, w); }
  void setCommunicationAgent(std::unique_ptr<comm::IPartyCommunicationAgent> a) override { in->setCommunicationAgent(std::move(a)); }
  int getBaseCotSize() const override { return in->getBaseCotSize(); }
  std::vector<__m128i> senderExtendRcot(std::vector<__m128i>&& b) override { fed->snd.insert(fed->snd.end(), b.begin(), b.end()); return in->senderExtendRcot(std::move(b)); }
  std::vector<__m128i> receiverExtendRcot(std::vector<__m128i>&& b) override { fed->rcv.insert(fed->rcv.end(), b.begin(), b.end()); return in->receiverExtendRcot(std::move(b)); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return in->getTrafficStatistics(); }
};
struct TapExtenderFactory final : fe::IRcotExtenderFactory {
  std::unique_ptr<fe::IRcotExtenderFactory> in; std::shared_ptr<Fed> fed;
  TapExtenderFactory(std::unique_ptr<fe::IRcotExtenderFactory> i, std::shared_ptr<Fed> f) : in(std::move(i)), fed(f) {}
  std::unique_ptr<fe::IRcotExtender> create() override { return std::make_unique<TapExtender>(in->create(), fed); }
};
static std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rcotFactory(Rc k, int64_t ext, int64_t base, int64_t weight, std::shared_ptr<Fed> fed = std::make_shared<Fed>()) {
  auto prg = [] { return std::make_unique<eu::AesPrgFactory>(); };
  if (k == Rc::Iknp) return ot::createClassicRcotFactory();
  if (k == Rc::Emp) return std::make_shared<ot::EmpShRandomCorrelatedObliviousTransferFactory>(prg());
  std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransferFactory> boot;
  if (k == Rc::EmpFerret) boot = std::make_unique<ot::EmpShRandomCorrelatedObliviousTransferFactory>(prg());
  else boot = ot::createClassicRcotFactory();
  std::unique_ptr<fe::IMatrixMultiplierFactory> mm;
  if (k == Rc::FerretDummyMatrix) mm = std::make_unique<fe::insecure::DummyMatrixMultiplierFactory>();
  else mm = std::make_unique<fe::TenLocalLinearMatrixMultiplierFactory>();
  std::unique_ptr<fe::IMultiPointCotFactory> mp;
  if (k == Rc::FerretDummyMp) mp = std::make_unique<fe::insecure::DummyMultiPointCotFactory>(prg());
  else if (k == Rc::FerretDummySp) mp = std::make_unique<fe::RegularErrorMultiPointCotFactory>(std::make_unique<fe::insecure::DummySinglePointCotFactory>(prg()));
  else mp = std::make_unique<fe::RegularErrorMultiPointCotFactory>(std::make_unique<fe::SinglePointCotFactory>());
  return std::make_shared<ot::ExtenderBasedRandomCorrelatedObliviousTransferFactory>(std::move(boot), std::make_unique<TapExtenderFactory>(std::make_unique<fe::RcotExtenderFactory>(std::move(mm), std::move(mp)), fed), ext, base, weight);
}
static void correlated(Rc kind, int64_t ext, int64_t base, int64_t weight, size_t id, int64_t first = 0) {
  std::string nm = cat(first ? "large rcot " : "rcot ", nameOf(kind), kind > Rc::Emp ? cat("/", ext, "/", base, "/", weight) : "", "#", id);
  runCase(nm, [&] {
    auto tapes = newTapes(2, false, id % 3 == 0 ? 400 : 0, id);
    auto net = memNet(2, tapes);
    __m128i delta[2];
    std::vector<__m128i> s[2], r[2];
    std::shared_ptr<Fed> fed[2] = {std::make_shared<Fed>(), std::make_shared<Fed>()};
    if (!parties(2, "party-died", [&](int me) {
          Rng q = rng(nm), own = rng(cat(nm, me));
          auto f = rcotFactory(kind, ext, base, weight, fed[me]);
          delta[me] = odd(own);
          // both directions from one factory
          std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> snd, rcv;
          for (int step = 0; step < 2; step++)
            if (step == me) snd = f->create(delta[me], net[me]->create(1 - me, "s")); else rcv = f->create(net[me]->create(1 - me, "r"));
          int64_t gran = kind > Rc::Emp ? ext : 128;
          size_t total = 0;
          for (int i = 0; i < 30 && total < (first ? first + 3000 : kind > Rc::Emp ? 4u * ext : 12000u); i++) {
            int64_t k;
            switch (q.below(6)) { case 0: k = 0; break; case 1: k = 1; break; case 2: k = gran; break; case 3: k = gran + 1; break; case 4: k = 2 * gran + (int64_t)q.below(5); break; default: k = q.below(gran); }
            if (first && i == (int)(id % 2)) { k = first; if (me == 0) count("large_requests"); }
            total += k;
            for (int step = 0; step < 2; step++) {
              auto v = (step == me ? *snd : *rcv).rcot(k);
              if ((int64_t)v.size() != k) violation("rcot-amount", cat(nm, " asked ", k, " got ", v.size()));
              auto& to = step == me ? s[me] : r[me];
              to.insert(to.end(), v.begin(), v.end());
            }
            count("rcot_requests");
          }
        })) return;
    for (int me = 0; me < 2; me++) {
      auto &S = s[me], &R = r[1 - me];
      if (S.size() != R.size()) { violation("rcot-amount", nm); return; }
      std::set<U128> seen;
      Bits ch;
      bool fresh = kind != Rc::FerretDummyMatrix; // that one copies by design
      for (size_t i = 0; i < S.size(); i++) {
        bool c = eu::getLsb(R[i]);
        ch.add(c);
        count("correlations_checked");
        if (eu::getLsb(S[i])) { violation("rcot-sender-lsb", cat(nm, " position ", i)); break; }
        if (!same(R[i], c ? _mm_xor_si128(S[i], delta[me]) : S[i])) { violation("rcot-correlation", cat(nm, " position ", i, " of ", S.size(), " choice ", (int)c, " got ", hex(R[i]), " sender ", hex(S[i]), " offset ", hex(delta[me]))); break; }
        if (fresh && !seen.insert(key(S[i])).second) { violation("rcot-repeat", cat(nm, " position ", i)); break; }
      }
      // what an extension was built from is used up: the other party's view of the extension depends on it
      if (fresh) {
        std::set<U128> got; for (auto x : R) got.insert(key(x));
        std::set<U128> once;
        for (auto x : fed[me]->snd) { count("extension_inputs"); if (seen.count(key(x))) { violation("rcot-reused", cat(nm, " party ", me, " handed out what an extension was built from")); break; } if (!once.insert(key(x)).second) { violation("rcot-reused", cat(nm, " party ", me, " two extensions from the same correlation")); break; } }
        for (auto x : fed[1 - me]->rcv) { count("extension_inputs"); if (got.count(key(x))) { violation("rcot-reused", cat(nm, " party ", 1 - me, " (receiver)")); break; } }
      }
      if (fresh) {
        // choices are linear in those an extension was built from: few of those may all be equal by chance
        if (!base || base >= 64) uniform("rcot-choices", cat(nm, " choices of party ", 1 - me), ch);
        Bits m; // a column of the messages
        for (auto x : S) m.add(_mm_extract_epi64(x, 1) >> 63 & 1);
        uniform("rcot-messages", cat(nm, " messages of party ", me), m);
      }
    }
    distinct(nm);
    if (id % 4 == 0) sample(cat(nm, ": ", s[0].size() + s[1].size(), " correlations"));
  });
}

// ---- single and multi point --------------------------------------------------------
struct Base { __m128i delta; std::vector<__m128i> s, r; };
static Base makeBase(size_t k, Rng& q, __m128i delta) {
  Base b{delta, {}, {}};
  for (size_t i = 0; i < k; i++) {
    auto x = random128(q); eu::setLsbTo0(x);
    b.s.push_back(x);
    b.r.push_back(q.coin() ? _mm_xor_si128(x, delta) : x);
  }
  return b;
}
static void pointCot(bool multi, bool dummy, size_t id) {
  std::string nm = cat(multi ? "multi" : "single", "-point", dummy ? " dummy" : "", "#", id);
  runCase(nm, [&] {
    auto net = memNet(2, {});
    Rng q = rng(nm);
    __m128i delta = odd(q);
    size_t depth = 1 + q.below(multi ? 6 : 10), weight = multi ? 1 + q.below(20) : 1, len = (size_t)1 << depth;
    const int reps = 4;
    std::vector<Base> bases;
    for (int i = 0; i < reps; i++) bases.push_back(makeBase(depth * weight, q, delta));
    std::vector<__m128i> out[2][reps];
    bool refused = false;
    if (!parties(2, "party-died", [&](int me) {
          AgentPtr a = net[me]->create(1 - me, "p");
          auto prg = [] { return std::make_unique<eu::AesPrgFactory>(); };
          std::unique_ptr<fe::ISinglePointCotFactory> sf;
          if (dummy) sf = std::make_unique<fe::insecure::DummySinglePointCotFactory>(prg()); else sf = std::make_unique<fe::SinglePointCotFactory>();
          auto run = [&](auto& x, int i) { return me == 0 ? x.senderExtend(std::vector<__m128i>(bases[i].s)) : x.receiverExtend(std::vector<__m128i>(bases[i].r)); };
          __m128i even = delta; eu::setLsbTo0(even);
          if (multi) {
            std::unique_ptr<fe::IMultiPointCot> x;
            if (dummy && id % 2) x = fe::insecure::DummyMultiPointCotFactory(prg()).create(a); else x = fe::RegularErrorMultiPointCotFactory(std::move(sf)).create(a);
            if (me == 0) { try { x->senderInit(even, len * weight, weight); } catch (const std::exception&) { refused = true; } }
            if (me == 0) x->senderInit(delta, len * weight, weight); else x->receiverInit(len * weight, weight);
            if (!(dummy && id % 2) && (size_t)x->getBaseCotNeeds() != depth * weight) violation("multi-point-needs", cat(nm, " ", x->getBaseCotNeeds(), " for ", weight, " x ", len));
            for (int i = 0; i < reps; i++) out[me][i] = run(*x, i);
          } else {
            auto x = sf->create(a);
            if (me == 0) { try { x->senderInit(even); } catch (const std::exception&) { refused = true; } }
            if (me == 0) x->senderInit(delta); else x->receiverInit();
            for (int i = 0; i < reps; i++) out[me][i] = run(*x, i);
          }
        })) return;
    if (!refused) violation("even-offset-accepted", nm); else count("refusals");
    std::set<U128> seen;
    for (int i = 0; i < reps; i++) {
      auto &S = out[0][i], &R = out[1][i];
      if (S.size() != len * weight || R.size() != S.size()) { violation("point-amount", cat(nm, " ", S.size(), "/", R.size(), " of ", len * weight)); return; }
      size_t ones = 0;
      for (size_t b = 0; b < weight; b++) {
        size_t pos = 0;
        for (size_t d = 0; d < depth; d++) pos = pos << 1 | !eu::getLsb(bases[i].r[b * depth + d]);
        for (size_t j = 0; j < len; j++) {
          auto s = S[b * len + j], r = R[b * len + j];
          count("point_positions");
          bool c = eu::getLsb(r);
          ones += c;
          if (eu::getLsb(s)) violation("point-sender-lsb", nm);
          if (!same(r, c ? _mm_xor_si128(s, delta) : s)) { violation("point-correlation", cat(nm, " extension ", i, " block ", b, " position ", j, " chosen ", pos)); return; }
          if (!(multi && dummy && id % 2) && c != (j == pos)) { violation("point-position", cat(nm, " extension ", i, " block ", b, " position ", j, " chosen ", pos, " of ", len)); return; }
          if (!seen.insert(key(s)).second) { violation("point-repeat", cat(nm, " extension ", i, " block ", b)); return; }
        }
      }
      if (ones != weight) violation("point-weight", cat(nm, " ", ones, " of ", weight));
    }
    distinct(nm);
  });
}

// ---- the sparse linear map ------------------------------------------------------------
static void matrix(size_t id) {
  std::string nm = cat("matrix #", id);
  runCase(nm, [&] {
    Rng q = rng(nm);
    auto m = fe::TenLocalLinearMatrixMultiplierFactory().create(), m2 = fe::TenLocalLinearMatrixMultiplierFactory().create();
    size_t src = q.oneIn(6) ? 1 + q.below(3) : 2 + q.below(q.oneIn(3) ? 400 : 100), dst = q.oneIn(6) ? q.below(5) : 1 + q.below(3000);
    if (id % 8 == 0) src = (size_t)1 << (1 + q.below(8)), dst = 4000;
    auto seed = random128(q), other = random128(q);
    std::vector<__m128i> x, y, xy;
    for (size_t i = 0; i < src; i++) { x.push_back(random128(q)); y.push_back(random128(q)); xy.push_back(_mm_xor_si128(x[i], y[i])); }
    auto a = m->multiplyWithRandomMatrix(seed, dst, x), b = m2->multiplyWithRandomMatrix(seed, dst, y), c = m->multiplyWithRandomMatrix(seed, dst, xy);
    if (a.size() != dst || b.size() != dst || c.size() != dst) { violation("matrix-size", nm); return; }
    for (size_t i = 0; i < dst; i++) { count("matrix_rows"); if (!same(_mm_xor_si128(a[i], b[i]), c[i])) { violation("matrix-not-linear", cat(nm, " row ", i, " of ", dst, ", ", src, " inputs")); return; } }
    // the same rows for a longer result
    auto longer = m2->multiplyWithRandomMatrix(seed, dst + 1 + q.below(9), x);
    for (size_t i = 0; i < dst; i++) if (!same(longer[i], a[i])) { violation("matrix-rows-depend-on-length", cat(nm, " row ", i)); break; }
    // which inputs go into each row
    std::vector<std::set<size_t>> rows(dst), rows2(dst);
    for (size_t from = 0; from < src; from += 128) {
      std::vector<__m128i> unit(src, _mm_setzero_si128());
      for (size_t i = from; i < std::min(src, from + 128); i++) { size_t k = i - from; unit[i] = k < 64 ? _mm_set_epi64x(0, 1ull << k) : _mm_set_epi64x(1ull << (k - 64), 0); }
      auto o = m->multiplyWithRandomMatrix(seed, dst, unit), o2 = m->multiplyWithRandomMatrix(other, dst, unit);
      for (size_t i = 0; i < dst; i++) for (int h = 0; h < 2; h++) {
        auto [lo, hi] = key(h ? o2[i] : o[i]);
        for (int k = 0; k < 128; k++) if ((k < 64 ? lo >> k : hi >> (k - 64)) & 1) (h ? rows2 : rows)[i].insert(from + k);
      }
    }
    std::set<size_t> used;
    std::set<std::set<size_t>> kinds;
    for (auto& r : rows) {
      if (r.size() > 10 || r.size() % 2) violation("matrix-weight", cat(nm, " a row of ", r.size(), " inputs"));
      used.insert(r.begin(), r.end());
      kinds.insert(r);
    }
    if (dst >= 2000 && used.size() != src) violation("matrix-unused-inputs", cat(nm, " ", used.size(), " of ", src, " inputs used in ", dst, " rows"));
    if (src >= 64 && dst >= 100) {
      if (kinds.size() + 2 < dst) violation("matrix-rows-repeat", cat(nm, " ", kinds.size(), " different rows of ", dst));
      if (rows == rows2) violation("matrix-ignores-seed", nm);
    }
    distinct(nm);
  });
}

// ---- chosen transfers in both directions ------------------------------------------------
static void chosen(Rc kind, bool dummy, size_t id, size_t large = 0) {
  std::string nm = cat(large ? "large chosen " : "chosen ", dummy ? "dummy" : nameOf(kind), "#", id);
  runCase(nm, [&] {
    auto net = memNet(2, {});
    struct Q { V a, b, out; std::vector<bool> c; };
    std::vector<std::vector<Q>> qs(2);
    if (!parties(2, "party-died", [&](int me) {
          Rng shape = rng(nm), val = rng(cat(nm, me));
          std::unique_ptr<ot::IBidirectionObliviousTransferFactory> f;
          if (dummy) f = std::make_unique<ot::insecure::DummyBidirectionObliviousTransferFactory>(*net[me]);
          else f = std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *net[me], rcotFactory(kind, 1024, 128, 16));
          auto o = f->create(1 - me);
          for (int step = 0; step < (large ? 4 : 14); step++) {
            bool isInt = shape.coin();
            size_t k = shape.oneIn(6) ? 0 : shape.oneIn(4) ? 1 + shape.below(3000) : 1 + shape.below(40);
            if (large && step % 2) { isInt = step == 3; k = large + shape.below(300); if (me == 0) count("large_requests"); }
            Q x; x.c = val.bits(k);
            if (!large && val.oneIn(4)) x.c.assign(k, val.coin());
            for (size_t i = 0; i < k; i++) { x.a.push_back(isInt ? val.edgy() : val.below(2)); x.b.push_back(isInt ? val.edgy() : val.below(2)); }
            if (isInt) x.out = o->biDirectionOT(x.a, x.b, x.c);
            else { auto v = o->biDirectionOT(std::vector<bool>(x.a.begin(), x.a.end()), std::vector<bool>(x.b.begin(), x.b.end()), x.c); x.out = V(v.begin(), v.end()); }
            qs[me].push_back(x);
          }
        })) return;
    for (int me = 0; me < 2; me++) for (size_t i = 0; i < qs[me].size(); i++) {
      auto &x = qs[me][i], &y = qs[1 - me][i];
      if (x.out.size() != y.a.size()) { violation("chosen-amount", nm); return; }
      for (size_t j = 0; j < x.out.size(); j++) {
        count("chosen_transfers");
        if (x.out[j] != (x.c[j] ? y.b[j] : y.a[j])) { violation("chosen-message", cat(nm, " request ", i, " position ", j, " choice ", (int)x.c[j], " got ", x.out[j], " of ", y.a[j], " ", y.b[j])); return; }
      }
    }
    distinct(nm);
  });
}

// correlated transfer with chosen bits
static void chosenCorrelated(Rc kind, size_t id, size_t large = 0) {
  std::string nm = cat(large ? "large chosen-bit " : "chosen-bit ", nameOf(kind), "#", id);
  runCase(nm, [&] {
    auto net = memNet(2, {});
    std::vector<__m128i> m0, m1, got;
    std::vector<bool> ch;
    __m128i delta;
    bool refused = false;
    if (!parties(2, "party-died", [&](int me) {
          Rng q = rng(nm), own = rng(cat(nm, me));
          struct W : ot::IRandomCorrelatedObliviousTransferFactory {
            std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> f;
            std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(__m128i d, AgentPtr a) override { return f->create(d, std::move(a)); }
            std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(AgentPtr a) override { return f->create(std::move(a)); }
          };
          auto w = std::make_unique<W>();
          w->f = rcotFactory(kind, 1024, 128, 16);
          fbpcf::mpc_std_lib::walr::util::COTWithRandomMessageFactory f(std::move(w));
          std::unique_ptr<fbpcf::mpc_std_lib::walr::util::COTWithRandomMessage> o;
          auto a = net[me]->create(1 - me, "a"), b = net[me]->create(1 - me, "b");
          if (me == 0) { delta = odd(own); o = f.create(delta, std::move(a), std::move(b)); } else o = f.create(std::move(a), std::move(b));
          if (me == 1) { try { o->send(3); } catch (const std::exception&) { refused = true; } }
          for (int i = 0; i < 6; i++) {
            size_t k = q.oneIn(5) ? 0 : q.oneIn(3) ? 1 : 1 + q.below(2000);
            if (large && i == 1) { k = large; if (me == 0) count("large_requests"); }
            if (me == 0) { auto p = o->send(k); m0.insert(m0.end(), p.first.begin(), p.first.end()); m1.insert(m1.end(), p.second.begin(), p.second.end()); }
            else { auto c = own.bits(k); auto v = o->receive(c); ch.insert(ch.end(), c.begin(), c.end()); got.insert(got.end(), v.begin(), v.end()); }
          }
        })) return;
    if (!refused) violation("receiver-sends", nm); else count("refusals");
    if (m0.size() != got.size() || m1.size() != got.size() || ch.size() != got.size()) { violation("chosen-bit-amount", nm); return; }
    std::set<U128> seen;
    for (size_t i = 0; i < got.size(); i++) {
      count("chosen_bit_transfers");
      if (!same(got[i], ch[i] ? m1[i] : m0[i])) { violation("chosen-bit-message", cat(nm, " position ", i)); break; }
      if (!same(_mm_xor_si128(m0[i], m1[i]), delta)) { violation("chosen-bit-offset", cat(nm, " position ", i)); break; }
      if (!seen.insert(key(m0[i])).second || !seen.insert(key(m1[i])).second) { violation("chosen-bit-repeat", nm); break; }
    }
    distinct(nm);
  });
}

// the stand-in extension, which only repeats what it is given
static void standInExtension(size_t id) {
  runCase(cat("stand-in extension#", id), [&] {
    Rng q = rng(cat("stand-in extension", id));
    auto delta = odd(q);
    int64_t base = 1 + q.below(40), ext = base + q.below(200), w = 1 + q.below(8);
    auto s = fe::insecure::DummyRcotExtenderFactory().create(), r = fe::insecure::DummyRcotExtenderFactory().create();
    if (s->senderInit(delta, ext, base, w) != base || r->receiverInit(ext, base, w) != base || s->getBaseCotSize() != base || r->getBaseCotSize() != base)
      violation("extension-base-amount", cat(base, " ", ext));
    for (int round = 0; round < 3; round++) {
      std::vector<__m128i> b, c;
      for (int64_t i = 0; i < base; i++) {
        auto x = random128(q); eu::setLsbTo0(x);
        b.push_back(x);
        c.push_back(q.coin() ? _mm_xor_si128(x, delta) : x);
      }
      auto S = s->senderExtendRcot(std::move(b)), R = r->receiverExtendRcot(std::move(c));
      if ((int64_t)S.size() != ext || S.size() != R.size()) { violation("rcot-amount", cat("stand-in extension ", S.size(), " and ", R.size(), " of ", ext)); break; }
      for (size_t i = 0; i < S.size(); i++)
        if (!same(R[i], eu::getLsb(R[i]) ? _mm_xor_si128(S[i], delta) : S[i])) { violation("rcot-correlation", cat("stand-in extension, position ", i)); break; }
      count("stand_in_extended", S.size());
    }
    distinct(cat("stand-in extension#", id));
  });
}

// what cannot be served is refused
static void refusals() {
  runCase("refusals", [&] {
    Rng q = rng("refusals");
    auto even = random128(q); eu::setLsbTo0(even);
    auto net = memNet(2, {});
    // an even offset, by every kind
    AgentPtr a = net[0]->create(1, "x");
    bool r1 = false, r2 = false;
    fe::SinglePointCot spc(a);
    try { spc.senderInit(even); } catch (const std::exception&) { r1 = true; }
    auto mp = fe::RegularErrorMultiPointCotFactory(std::make_unique<fe::SinglePointCotFactory>()).create(a);
    mp->senderInit(odd(q), 64, 4);
    try { mp->senderExtend(std::vector<__m128i>(15)); } catch (const std::exception&) { r2 = true; }
    if (!r1) violation("even-offset-accepted", "single point");
    if (!r2) violation("wrong-base-amount-accepted", "multi point");
    count("refusals", r1 + r2);
    struct Never : ot::IBaseObliviousTransfer {
      std::pair<std::vector<__m128i>, std::vector<__m128i>> send(size_t n) override { return {std::vector<__m128i>(n), std::vector<__m128i>(n)}; }
      std::vector<__m128i> receive(const std::vector<bool>& c) override { return std::vector<__m128i>(c.size()); }
      std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
      AgentPtr extractCommunicationAgent() override { return nullptr; }
    };
    bool r3 = false;
    try { ot::IknpShRandomCorrelatedObliviousTransfer x(even, std::make_unique<Never>(), std::make_unique<eu::AesPrgFactory>()); } catch (const std::exception&) { r3 = true; }
    if (!r3) violation("even-offset-accepted", "iknp"); else count("refusals");
  });
}

void vfMain() {
  size_t id = 0;
  for (size_t i = 0; i < n(8, 60); i++) baseOt(id++);
  for (size_t i = 0; i < n(8, 60); i++) correlated(Rc::Iknp, 0, 0, 0, id++);
  for (size_t i = 0; i < n(4, 30); i++) correlated(Rc::Emp, 0, 0, 0, id++);
  struct P { int64_t e, b, w; } ps[] = {{1024, 128, 16}, {4096, 256, 64}, {512, 100, 32}, {2048, 500, 8}, {256, 17, 1}, {640, 64, 10}, {96, 8, 3}};
  for (size_t i = 0; i < n(14, 70); i++) correlated(Rc::Ferret, ps[i % 7].e, ps[i % 7].b, ps[i % 7].w, id++);
  for (auto k : {Rc::FerretDummyMp, Rc::FerretDummySp, Rc::FerretDummyMatrix, Rc::EmpFerret}) for (size_t i = 0; i < n(2, 14); i++) correlated(k, ps[i].e, ps[i].b, ps[i].w, id++);
  for (size_t i = 0; i < n(40, 400); i++) { pointCot(false, i % 5 == 4, id++); pointCot(true, i % 4 >= 2, id++); }
  for (size_t i = 0; i < n(40, 400); i++) matrix(i);
  for (size_t i = 0; i < n(6, 60); i++) { chosen(Rc::Iknp, false, id++); chosen(Rc::Ferret, false, id++); chosen(Rc::Iknp, true, id++); }
  for (size_t i = 0; i < n(4, 40); i++) { chosenCorrelated(Rc::Iknp, id++); chosenCorrelated(Rc::Ferret, id++); }
  for (size_t i = 0; i < n(4, 40); i++) standInExtension(i);
  // more than 16 bits can count
  for (size_t i = 0; i < n(1, 6); i++) {
    auto more = [&] { return 65537 + (int64_t)rng(cat("large", i)).below(5000); };
    correlated(Rc::Iknp, 0, 0, 0, id++, more()); correlated(Rc::Emp, 0, 0, 0, id++, more()); correlated(Rc::Ferret, 16384, 1000, 128, id++, more());
    chosen(Rc::Iknp, false, id++, more()); chosen(Rc::Iknp, true, id++, more()); chosenCorrelated(Rc::Iknp, id++, more());
  }
  refusals();
  if (thorough()) correlated(Rc::Ferret, fe::kExtendedSize, fe::kBaseSize, fe::kWeight, id++);
}
