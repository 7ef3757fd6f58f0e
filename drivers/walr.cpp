// C28: products of a secret label vector with a feature matrix.
#include "stat.h"
#include "switch.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/DummyMatrixMultiplicationFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h"
#include "fbpcf/util/MetricCollector.h"
using namespace vf;
namespace wl = fbpcf::mpc_std_lib::walr;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
using Labels = fbpcf::frontend::Bit<true, 0, true>;
using Col = std::vector<double>;
using Fact = wl::IWalrMatrixMultiplicationFactory<0>;

static std::unique_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rcot(int kind) {
  switch (kind) {
    case 0: return std::make_unique<ot::insecure::DummyRandomCorrelatedObliviousTransferFactory>();
    case 1: return ot::createClassicRcotFactory();
    default: {
      namespace fr = ot::ferret;
      return std::make_unique<ot::ExtenderBasedRandomCorrelatedObliviousTransferFactory>(
          ot::createClassicRcotFactory(),
          std::make_unique<fr::RcotExtenderFactory>(std::make_unique<fr::TenLocalLinearMatrixMultiplierFactory>(), std::make_unique<fr::RegularErrorMultiPointCotFactory>(std::make_unique<fr::SinglePointCotFactory>())),
          2048, 1024, 64);
    }
  }
}
template <class T>
static std::unique_ptr<Fact> otFactory(int me, bool owner, uint64_t divisor, int kind, comm::IPartyCommunicationAgentFactory& f, std::shared_ptr<fbpcf::util::MetricCollector> m) {
  return std::make_unique<wl::OTBasedMatrixMultiplicationFactory<0, T>>(
      me, 1 - me, owner, divisor, f, std::make_unique<fbpcf::engine::util::AesPrgFactory>(), std::make_unique<wl::util::COTWithRandomMessageFactory>(rcot(kind)), m);
}
struct Round {
  std::vector<Col> features;
  std::vector<bool> labels;
  Col noise;
  std::vector<long double> want;
  std::vector<long double> slack;
  bool exact = false, computed = false; // labels: computed from both parties' inputs
  int from = 0;
  std::vector<bool> mask;
};
// width 0 = stand-in on doubles
static Round makeRound(Rng& r, int width, uint64_t divisor, int big = 0) {
  Round x;
  size_t nl = r.oneIn(5) ? 1 : 1 + r.below(r.oneIn(4) ? 150 : 30), nf = r.oneIn(6) ? r.below(2) : 1 + r.below(r.oneIn(5) ? 120 : 20);
  if (big == 1) { nl = 4097 + r.below(40); nf = 1 + r.below(2); }
  if (big == 2) { nl = 1 + r.below(2); nf = 4097 + r.below(40); }
  if (big == 3) { nl = 257 + r.below(20); nf = 257 + r.below(20); }
  int w = width ? width : 50;
  // largest number of units a value may have so that no sum leaves the range
  int64_t top = std::min<int64_t>((w == 64 ? INT64_MAX : ((int64_t)1 << (w - 1)) - 1), (int64_t)1 << 52) / (int64_t)(nl + 1);
  x.exact = (divisor & (divisor - 1)) == 0 && !r.oneIn(3);
  int style = r.below(4);
  auto value = [&](size_t i) -> double {
    int64_t u;
    if (style == 0) u = i % 2 ? top : -top;
    else if (style == 1) u = r.oneIn(2) ? 0 : r.range(-top, top);
    else if (style == 2) u = r.coin() ? top : -top;
    else u = r.range(-std::min<int64_t>(top, 3), std::min<int64_t>(top, 3));
    double v = (double)u / (double)divisor;
    if (!x.exact) v *= 1.0 - (double)r.below(1000000) / 1000001.0; // off the grid, towards zero
    return v;
  };
  x.features.assign(nl, Col(nf));
  for (size_t i = 0; i < nl; i++) for (auto& v : x.features[i]) v = value(i);
  x.noise.resize(nf);
  bool quiet = r.oneIn(3);
  for (auto& v : x.noise) v = quiet ? 0 : value(r.below(2));
  x.labels = r.bits(nl);
  if (r.oneIn(4)) x.labels.assign(nl, r.coin());
  x.mask = r.bits(nl);
  x.computed = r.oneIn(3); x.from = r.coin();
  long k = std::count(x.labels.begin(), x.labels.end(), true);
  for (size_t j = 0; j < nf; j++) {
    long double s = x.noise[j], mag = std::fabs(x.noise[j]);
    for (size_t i = 0; i < nl; i++) if (x.labels[i]) { s += x.features[i][j]; mag += std::fabs(x.features[i][j]); }
    x.want.push_back(s);
    x.slack.push_back(x.exact ? 0 : (width ? (k + 1.001L) / divisor : 0) + mag * 1e-13L);
  }
  return x;
}
static Labels labelsOf(const Round& x, int me) {
  size_t n = x.labels.size();
  std::vector<bool> none(n, false);
  if (!x.computed) return Labels(me == x.from ? x.labels : none, x.from);
  std::vector<bool> rest(n);
  for (size_t i = 0; i < n; i++) rest[i] = x.labels[i] != x.mask[i];
  Labels a(me == 0 ? x.mask : none, 0), b(me == 1 ? rest : none, 1);
  return a ^ b;
}
static bool refused(const std::function<void()>& f) { try { f(); return false; } catch (const std::exception&) { return true; } }

static void session(size_t id, int big = 0) {
  std::string nm = cat("session #", id, big ? cat(" large ", big) : "");
  runCase(nm, [&] {
    Rng r = rng(nm);
    static const int widths[] = {0, 8, 16, 32, 64};
    int width = widths[id % 5];
    int kind = r.oneIn(12) ? 2 : r.oneIn(4) ? 0 : 1;
    int owner = r.coin();
    uint64_t divisor = width == 0 ? 1 : width == 8 ? 1 + r.below(8) : r.coin() ? (uint64_t)1 << r.below(std::min(width, 40) - 2) : 1 + r.below(width == 16 ? 3000 : 1u << 30);
    World w{width == 0 ? (r.coin() ? SchedKind::NetPlain : r.coin() ? SchedKind::Lazy : SchedKind::Eager) : r.coin() ? SchedKind::Lazy : SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2};
    size_t objects = r.oneIn(3) ? 2 : 1;
    std::vector<std::vector<Round>> plan(objects);
    if (big) { objects = 1; plan.resize(1); if (kind == 2) kind = 1; }
    for (auto& p : plan) for (size_t k = big ? 1 : 1 + r.below(3); k--;) {
      p.push_back(makeRound(r, width, divisor, big));
      if (big) continue;
      if (r.oneIn(4)) { p.push_back(p.back()); if (r.coin()) for (auto& f : p.back().features) for (auto& v : f) v = 0; // the same again, or nothing but zeros
        Round& q = p.back(); if (q.features[0].size() && q.features[0][0] == 0) { q.want.clear(); for (size_t j = 0; j < q.noise.size(); j++) { long double s = q.noise[j]; for (size_t i = 0; i < q.labels.size(); i++) if (q.labels[i]) s += q.features[i][j]; q.want.push_back(s); } } }
    }
    uint32_t delay = r.oneIn(5) ? 60 : 0;
    auto tapes = newTapes(2, true, delay, id);
    auto net = memNet(2, tapes);
    std::pair<uint64_t, uint64_t> traffic[2][2];
    size_t totalCols = 0, totalFeat = 0, totalRounds = 0, outFeat = 0;
    for (auto& x : plan[0]) { totalCols += x.labels.size(); totalFeat += x.labels.size() * x.noise.size(); totalRounds++; outFeat += x.noise.size(); }
    std::string metrics[2];
    auto run = [&](int me, sched::IScheduler&) {
      bool fo = me == owner;
      Rng q = rng(cat(nm, " misuse by ", me));
      auto m = std::make_shared<fbpcf::util::MetricCollector>("walr");
      std::unique_ptr<Fact> f;
      if (width == 0) f = std::make_unique<wl::insecure::DummyMatrixMultiplicationFactory<0>>(me, 1 - me, *net[me], m);
      else if (width == 8) f = otFactory<uint8_t>(me, fo, divisor, kind, *net[me], m);
      else if (width == 16) f = otFactory<uint16_t>(me, fo, divisor, kind, *net[me], m);
      else if (width == 32) f = otFactory<uint32_t>(me, fo, divisor, kind, *net[me], m);
      else f = otFactory<uint64_t>(me, fo, divisor, kind, *net[me], m);
      for (size_t o = 0; o < objects; o++) {
        auto mm = f->create();
        if (o == 0) traffic[me][0] = {0, 0};
        for (size_t k = 0; k < plan[o].size(); k++) {
          const Round& x = plan[o][k];
          std::string at = cat(nm, " width ", width, " rcot ", kind, " ", w.str(), " divisor ", divisor, " object ", o, " round ", k, " ", x.labels.size(), "x", x.noise.size());
          Labels l = labelsOf(x, me);
          if (q.oneIn(2)) { // misuse by one party: refused, and nothing of it is left behind
            count("refusals");
            auto fewer = x.features;
            if (width && !fo) check(refused([&] { mm->matrixVectorMultiplication(x.features, l); }), "wrong-role-accepted", [&] { return at; });
            else if (width && q.coin()) check(refused([&] { mm->matrixVectorMultiplication(l, x.noise); }), "wrong-role-accepted", [&] { return at; });
            else if (fo) {
              if (q.coin() || !width) { if (q.coin()) fewer.push_back(fewer[0]); else fewer.pop_back(); if (fewer.size()) check(refused([&] { mm->matrixVectorMultiplication(fewer, l); }), "label-count-mismatch-accepted", [&] { return at; }); }
              else if (fewer.size() > 1) {
                auto& c = fewer[q.below(fewer.size())];
                if (c.size() && q.coin()) c.pop_back(); else c.push_back(0);
                check(refused([&] { mm->matrixVectorMultiplication(fewer, l); }), "ragged-columns-accepted", [&] { return at; });
              }
            }
          }
          if (!fo) { mm->matrixVectorMultiplication(l, x.noise); continue; }
          auto got = mm->matrixVectorMultiplication(x.features, l);
          count("products");
          if (got.size() != x.noise.size()) { violation("result-size", cat(at, ": ", got.size())); continue; }
          for (size_t j = 0; j < got.size(); j++) {
            count("results_compared");
            if (!(std::fabs(got[j] - x.want[j]) <= x.slack[j])) { violation("wrong-product", cat(at, " feature ", j, ": ", got[j], " instead of ", (double)x.want[j], " (allowed ", (double)x.slack[j], ")")); break; }
          }
          progress();
        }
        auto t = mm->getTrafficStatistics(), ne = mm->getNonEngineTrafficStatistics();
        traffic[me][0].first += t.first; traffic[me][0].second += t.second;
        traffic[me][1].first += ne.first; traffic[me][1].second += ne.second;
        if (t.first < ne.first || t.second < ne.second) violation("traffic-total", nm);
        if (o == 0) metrics[me] = folly::toJson(m->collectMetrics());
      }
    };
    if (!onWorld(w, run)) return;
    if (traffic[0][0].first != traffic[1][0].second || traffic[0][0].second != traffic[1][0].first) violation("traffic-balance", cat(nm, " ", traffic[0][0].first, "/", traffic[0][0].second, " and ", traffic[1][0].first, "/", traffic[1][0].second));
    uint64_t s = 0, e = 0;
    for (int p = 0; p < 2; p++) {
      s = e = 0;
      for (auto& c : tapes[p]->channels) { s += c->sent; e += c->received; }
      if (traffic[p][1] != std::make_pair(s, e)) violation("traffic-amount", cat(nm, " party ", p, ": ", traffic[p][1].first, "/", traffic[p][1].second, " of ", s, "/", e));
      count("traffic_checked");
    }
    auto has = [&](int p, const char* key, size_t v) {
      std::string k = cat("\"", key, "\":", v);
      std::string& j = metrics[p];
      j.erase(std::remove(j.begin(), j.end(), ' '), j.end());
      count("metrics_checked");
      size_t a = j.find(k);
      if (a == std::string::npos || (a + k.size() < j.size() && isdigit(j[a + k.size()]))) violation("metric", cat(nm, " party ", p, " ", key, " should be ", v, " in ", j));
    };
    int lo = 1 - owner;
    if (width == 0) { has(owner, "features_received", outFeat); has(lo, "features_sent", outFeat); has(owner, "features_sent", 0); has(lo, "features_received", 0); }
    else {
      for (int p = 0; p < 2; p++) has(p, "ot_messages_used", totalCols);
      has(owner, "columns_sent", totalCols); has(lo, "columns_received", totalCols);
      has(owner, "features_sent", totalFeat); has(lo, "features_received", totalFeat);
      has(owner, "columns_received", totalRounds); has(lo, "columns_sent", totalRounds);
      has(owner, "features_received", outFeat); has(lo, "features_sent", outFeat);
    }
    if (width && kind) // what travels between the owners must tell nothing: uniform, and never the same again
      for (auto& c : tapes[owner]->channels) {
        if (c->name.find("cotWRM") != std::string::npos) continue;
        Bits b[2];
        for (auto& g : c->log) for (unsigned char y : g.data) for (int i = 0; i < 8; i++) if (b[g.sent].n < 12000) b[g.sent].add(y >> i & 1);
        uniform("corrections", cat(nm, " rcot ", kind, " to the label owner"), b[1]);
        uniform("masked-result", cat(nm, " rcot ", kind, " to the feature owner"), b[0]);
      }
    distinct(nm);
  });
}

template <class T> static void mapper(size_t id) {
  constexpr int W = sizeof(T) * 8;
  std::string nm = cat("mapper", W, " #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    uint64_t top = std::numeric_limits<T>::max();
    auto some = [&](uint64_t lim) { return r.oneIn(6) ? lim : r.coin() ? (uint64_t)1 << r.below(W) : 1 + r.below(r.coin() ? lim : std::min<uint64_t>(lim, 100)); };
    uint64_t d = some(top);
    wl::util::NumberMapper<T> m(d);
    for (int k = 0; k < 4; k++) {
      if (m.getDivisor() != d) violation("divisor", nm);
      double lim = (double)((uint64_t)1 << (W - 1)) * (W == 64 ? 0.9999999 : 1) - (W == 64 ? 0 : 1);
      std::vector<double> in, nonneg;
      for (int i = 0; i < 60; i++) {
        double u = r.oneIn(5) ? lim : r.oneIn(4) ? (double)r.below(5) : lim * ((double)r.below(1u << 30) / (1u << 30));
        if (r.coin()) u = std::floor(u);
        double v = u / (double)d;
        if (v * d > lim) v = 0;
        nonneg.push_back(v); in.push_back(r.coin() ? v : -v);
      }
      auto fx = m.mapToFixedPointType(in), fu = m.mapToFixedPointType(nonneg);
      auto back = m.mapToSignedDouble(fx), backU = m.mapToUnsignedDouble(fu);
      for (size_t i = 0; i < in.size(); i++) {
        count("numbers_mapped");
        double slack = 1.0001 / d + std::fabs(in[i]) * 1e-15;
        if (m.mapToFixedPointType(in[i]) != fx[i] || m.mapToSignedDouble(fx[i]) != back[i] || m.mapToUnsignedDouble(fu[i]) != backU[i]) violation("mapper-vector", cat(nm, " ", in[i]));
        if (!(std::fabs(back[i] - in[i]) <= slack)) violation("mapper-signed", cat(nm, " divisor ", d, " ", in[i], " came back as ", back[i]));
        if (!(std::fabs(backU[i] - nonneg[i]) <= slack)) violation("mapper-unsigned", cat(nm, " divisor ", d, " ", nonneg[i], " came back as ", backU[i]));
        // the group adds up
        size_t j = r.below(in.size());
        double sum = in[i] + in[j];
        if (std::fabs(sum) * d <= lim - 2) {
          double got = m.mapToSignedDouble((T)(fx[i] + fx[j]));
          if (!(std::fabs(got - sum) <= 2 * slack + std::fabs(in[j]) * 1e-15)) violation("mapper-sum", cat(nm, " divisor ", d, " ", in[i], "+", in[j], " = ", got));
        }
      }
      if (top != ~0ull) { // scales beyond the type
        uint64_t bad = r.coin() ? top + 1 : top + 1 + r.below(1u << 20);
        if (r.oneIn(4)) bad = ~0ull;
        count("refusals", 2);
        if (!refused([&] { m.setDivisor(bad); })) violation("scale-accepted", cat(nm, " ", bad)), m.setDivisor(d);
        if (!refused([&] { wl::util::NumberMapper<T> x(bad); })) violation("scale-accepted-at-construction", cat(nm, " ", bad));
        continue;
      }
      d = some(top); m.setDivisor(d);
    }
    distinct(cat(nm, d));
  });
}

void vfMain() {
  Switch::install<0>();
  for (size_t i = 0; i < n(40, 400); i++) { mapper<uint8_t>(i); mapper<uint16_t>(i); mapper<uint32_t>(i); mapper<uint64_t>(i); }
  for (size_t i = 0; i < n(100, 1500); i++) session(i);
  for (size_t i = 0; i < n(5, 20); i++) for (int big = 1; big <= 3; big++) session(i, big);
}
