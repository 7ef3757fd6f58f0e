#include "mpc_engine.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/util/MetricCollector.h"

namespace vf {
namespace tg = fbpcf::engine::tuple_generator;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
// ---- a trusted dealer: every party draws the shares of all from the same stream and keeps its own
namespace {
struct DealerTuples final : tg::ITupleGenerator {
  size_t me, n; bool composite;
  Rng flat;
  std::map<size_t, Rng> wide;
  DealerTuples(int me, int n, bool c) : me(me), n(n), composite(c), flat(rng("dealer booleans")) {}
  // k products with the same first factor
  void deal(Rng& r, size_t k, bool& a, std::vector<bool>& b, std::vector<bool>& c) {
    b.resize(k); c.resize(k);
    bool sa = false;
    std::vector<bool> sb(k), sc(k);
    for (size_t p = 0; p < n; p++) {
      bool x = r.coin(); sa = sa != x;
      if (p == me) a = x;
      for (size_t i = 0; i < k; i++) { bool y = r.coin(); sb[i] = sb[i] != y; if (p == me) b[i] = y; }
    }
    for (size_t p = 0; p < n; p++) for (size_t i = 0; i < k; i++) {
      bool z = p + 1 < n ? r.coin() : sc[i] != (sa && sb[i]);
      sc[i] = sc[i] != z;
      if (p == me) c[i] = z;
    }
  }
  std::vector<BooleanTuple> getBooleanTuple(uint32_t size) override {
    std::vector<BooleanTuple> t;
    std::vector<bool> b, c;
    for (bool a = false; size--;) { deal(flat, 1, a, b, c); t.emplace_back(a, b[0], c[0]); }
    return t;
  }
  std::map<size_t, std::vector<CompositeBooleanTuple>> getCompositeTuple(const std::map<size_t, uint32_t>& m) override {
    if (!composite) throw std::runtime_error("no composite tuples");
    std::map<size_t, std::vector<CompositeBooleanTuple>> t;
    std::vector<bool> b, c;
    for (auto& [width, count] : m) {
      auto& r = wide.emplace(width, rng(cat("dealer composite ", width))).first->second;
      auto& v = t[width];
      for (uint32_t i = 0; i < count; i++) { bool a = false; deal(r, width, a, b, c); v.emplace_back(a, b, c); }
    }
    return t;
  }
  std::pair<std::vector<BooleanTuple>, std::map<size_t, std::vector<CompositeBooleanTuple>>> getNormalAndCompositeBooleanTuples(
      uint32_t size, const std::map<size_t, uint32_t>& m) override {
    auto a = getBooleanTuple(size);
    return {std::move(a), getCompositeTuple(m)};
  }
  bool supportsCompositeTupleGeneration() override { return composite; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
struct DealerInts final : tg::IArithmeticTupleGenerator {
  size_t me, n;
  Rng r;
  DealerInts(int me, int n) : me(me), n(n), r(rng("dealer integers")) {}
  std::vector<IntegerTuple> getIntegerTuple(uint32_t size) override {
    std::vector<IntegerTuple> t;
    while (size--) {
      uint64_t s[3] = {0, 0, 0}, mine[3] = {0, 0, 0};
      for (size_t p = 0; p < n; p++)
        for (int k = 0; k < 3; k++) {
          uint64_t x = k == 2 && p + 1 == n ? 0 : r();
          s[k] += x;
          if (p == me) mine[k] = x;
        }
      if (me + 1 == n) mine[2] = s[0] * s[1] - s[2];
      t.emplace_back(mine[0], mine[1], mine[2]);
    }
    return t;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
struct DealerFactory final : tg::ITupleGeneratorFactory {
  int me, n; bool c;
  DealerFactory(int me, int n, bool c, std::shared_ptr<fbpcf::util::MetricCollector> mc) : ITupleGeneratorFactory(mc), me(me), n(n), c(c) {}
  std::unique_ptr<tg::ITupleGenerator> create() override { return std::make_unique<DealerTuples>(me, n, c); }
};
struct DealerIntFactory final : tg::IArithmeticTupleGeneratorFactory {
  int me, n;
  DealerIntFactory(int me, int n) : me(me), n(n) {}
  std::unique_ptr<tg::IArithmeticTupleGenerator> create() override { return std::make_unique<DealerInts>(me, n); }
};
} // namespace
static std::unique_ptr<eng::SecretShareEngineFactory> engineFactory(
    EngineKind k, int me, int n, comm::IPartyCommunicationAgentFactory& f, size_t small, std::shared_ptr<fbpcf::util::MetricCollector> mc) {
  if (!mc) mc = std::make_shared<fbpcf::util::MetricCollector>("vf");
  auto iknp = [] { return std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory>(ot::createClassicRcotFactory()); };
  switch (k) {
    case EngineKind::Dummy: return eng::getInsecureEngineFactoryWithDummyTupleGenerator(me, n, f, mc);
    case EngineKind::Iknp: return eng::getSecureEngineFactoryWithClassicOt(me, n, f, mc);
    case EngineKind::Ferret: return eng::getSecureEngineFactoryWithFERRET(me, n, f, mc);
    case EngineKind::IknpBoth: return eng::getSecureEngineFactoryWithIntegerTupleGenerator(me, n, f, iknp(), true, mc);
    case EngineKind::FerretBoth: return eng::getSecureEngineFactoryWithBooleanAndIntegerTupleGenerator(me, n, f, mc);
    case EngineKind::Dealer:
    case EngineKind::DealerFlat:
      return eng::getEngineFactoryWithTupleGeneratorFactories(
          me, n, f, std::make_unique<DealerFactory>(me, n, k == EngineKind::Dealer, mc), std::make_unique<DealerIntFactory>(me, n));
    case EngineKind::SmallTwo:
      return eng::getEngineFactoryWithTupleGeneratorFactories(
          me, n, f, std::make_unique<tg::TwoPartyTupleGeneratorFactory>(iknp(), f, me, small, mc),
          std::make_unique<tg::NullArithmeticTupleGeneratorFactory>());
    case EngineKind::SmallMulti: {
      auto bi = std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, f, iknp());
      auto ps = std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<eng::util::AesPrgFactory>(small), std::move(bi));
      return eng::getEngineFactoryWithTupleGeneratorFactories(
          me, n, f, std::make_unique<tg::TupleGeneratorFactory>(ps, std::make_unique<eng::util::AesPrgFactory>(), small, me, n, mc),
          std::make_unique<tg::ArithmeticTupleGeneratorFactory>(ps, std::make_unique<eng::util::AesPrgFactory>(), small, me, n));
    }
  }
  return nullptr;
}

std::unique_ptr<eng::ISecretShareEngine> makeEngine(
    EngineKind k, int me, int n, comm::IPartyCommunicationAgentFactory& f, size_t small, std::shared_ptr<fbpcf::util::MetricCollector> mc) {
  return engineFactory(k, me, n, f, small, std::move(mc))->create();
}
} // namespace vf
