// C08: multiplication tuples multiply, line up between the parties and are never reused.
#include <unordered_map>
#include "mpc.h"
#include "mpc_engine.h"
#include "stat.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/tuple_generator/DummyArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/util/MetricCollector.h"
using namespace vf;
namespace tg = fbpcf::engine::tuple_generator;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
using V = std::vector<uint64_t>;
using BT = tg::ITupleGenerator::BooleanTuple;
using CT = tg::ITupleGenerator::CompositeBooleanTuple;
using IT = tg::IArithmeticTupleGenerator::IntegerTuple;
enum class Src { TwoIknp, TwoFerret, TwoDummyOt, Multi, MultiDummyOt, Dummy };
static const char* nameOf(Src s) { return (const char*[]){"two-party/iknp", "two-party/ferret", "two-party/dummy-ot", "product-shares/iknp", "product-shares/dummy-ot", "dummy"}[(int)s]; }
static bool real(Src s) { return s == Src::TwoIknp || s == Src::TwoFerret || s == Src::Multi; }

static std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rcot(Src s) {
  if (s == Src::TwoFerret) return ot::createFerretRcotFactory(2048, 128, 32);
  if (s == Src::TwoDummyOt) return std::make_shared<ot::insecure::DummyRandomCorrelatedObliviousTransferFactory>();
  return ot::createClassicRcotFactory();
}

struct Out {
  std::vector<BT> normal;
  std::vector<std::pair<size_t, CT>> composite; // requested width, tuple
  std::vector<IT> ints;
};

static void checkAll(const std::string& nm, Src src, const std::vector<Out>& o) {
  int n = o.size();
  for (int p = 1; p < n; p++)
    if (o[p].normal.size() != o[0].normal.size() || o[p].composite.size() != o[0].composite.size() || o[p].ints.size() != o[0].ints.size()) { violation("amount", nm); return; }
  for (size_t i = 0; i < o[0].normal.size(); i++) {
    bool a = false, b = false, c = false;
    for (auto& x : o) { a ^= x.normal[i].getA(); b ^= x.normal[i].getB(); c ^= x.normal[i].getC(); }
    count("boolean_tuples");
    if ((a && b) != c) { violation("boolean-product", cat(nm, " tuple ", i, " of ", o[0].normal.size())); break; }
  }
  for (size_t i = 0; i < o[0].composite.size(); i++) {
    size_t w = o[0].composite[i].first;
    std::vector<bool> b, c;
    bool a = false, bad = false;
    for (auto& x : o) {
      auto t = x.composite[i].second;
      auto tb = t.getB(), tc = t.getC();
      if (tb.size() != w || tc.size() != w) { violation("composite-width", cat(nm, " asked ", w, " got ", tb.size(), "/", tc.size())); bad = true; break; }
      if (b.empty()) { b = tb; c = tc; } else for (size_t j = 0; j < w; j++) { b[j] = b[j] ^ tb[j]; c[j] = c[j] ^ tc[j]; }
      a ^= t.getA();
    }
    if (bad) break;
    count("composite_tuples"); count("composite_bits", w);
    for (size_t j = 0; j < w; j++) if ((a && b[j]) != c[j]) { violation("composite-product", cat(nm, " tuple ", i, " width ", w, " position ", j)); bad = true; break; }
    if (bad) break;
  }
  std::set<uint64_t> seen;
  for (size_t i = 0; i < o[0].ints.size(); i++) {
    uint64_t a = 0, b = 0, c = 0;
    for (auto& x : o) { a += x.ints[i].getA(); b += x.ints[i].getB(); c += x.ints[i].getC(); }
    count("integer_tuples");
    if (a * b != c) { violation("integer-product", cat(nm, " tuple ", i, ": ", a, "*", b, " != ", c)); break; }
  }
  if (!real(src)) return;
  // fresh: nobody's components repeat, lean one way or line up with each other
  for (int p = 0; p < n; p++) {
    Bits a, b, c;
    for (auto& t : o[p].normal) { a.add(t.getA()); b.add(t.getB()); c.add(t.getC()); }
    std::string w = cat(nm, " party ", p);
    uniform("boolean-reuse", w + " a", a); uniform("boolean-reuse", w + " b", b);
    unrelated("boolean-related", {w + " a", a}, {w + " b", b}, false);
    Bits ca, cb;
    std::map<size_t, std::set<std::vector<bool>>> masks;
    for (auto& [wd, tt] : o[p].composite) {
      auto t = tt;
      auto x = t.getB();
      for (bool q : x) if (cb.n < 30000) cb.add(q);
      ca.add(t.getA());
      // b repeats only if the tuple does (64 bits and more)
      if (wd >= 64 && !masks[wd].insert(std::vector<bool>(x.begin(), x.begin() + 64)).second) violation("composite-reuse", cat(w, " width ", wd));
      if (wd >= 64) {
        count("composite_masks");
        for (size_t s = 64; s + 64 <= wd; s += 64) if (!masks[wd].insert(std::vector<bool>(x.begin() + s, x.begin() + s + 64)).second) violation("composite-reuse", cat(w, " width ", wd, " within one tuple, from ", s));
      }
    }
    uniform("composite-reuse", w + " composite a", ca); uniform("composite-reuse", w + " composite b", cb);
    std::unordered_map<uint64_t, size_t> vals;
    for (size_t i = 0; i < o[p].ints.size(); i++)
      for (uint64_t x : {o[p].ints[i].getA(), o[p].ints[i].getB()})
        if (!vals.emplace(x, i).second) violation("integer-reuse", cat(w, " tuples ", i, " and ", vals[x]));
    count("freshness_values", vals.size());
  }
}

static void tuples(Src src, int n, size_t buf, size_t target, size_t id) {
  std::string nm = cat("tuples ", nameOf(src), "/n=", n, "/buf=", buf, "#", id);
  runCase(nm, [&] {
    auto tapes = newTapes(n, false, id % 3 == 0 ? 300 : 0, id);
    auto net = memNet(n, id % 3 == 0 ? tapes : decltype(tapes){});
    std::vector<Out> out(n);
    bool two = src == Src::TwoIknp || src == Src::TwoFerret || src == Src::TwoDummyOt;
    bool ints = src == Src::Multi || src == Src::MultiDummyOt || src == Src::Dummy;
    std::vector<std::string> log(n);
    bool ok = parties(n, "party-died", [&](int me) {
      auto mc = std::make_shared<fbpcf::util::MetricCollector>("vf");
      std::unique_ptr<tg::ITupleGenerator> g;
      std::unique_ptr<tg::IArithmeticTupleGenerator> h;
      Rng r = rng(nm);
      if (two) g = tg::TwoPartyTupleGeneratorFactory(rcot(src), *net[me], me, buf, mc).create();
      else if (src == Src::Dummy) {
        g = tg::insecure::DummyTupleGeneratorFactory(mc).create();
        h = tg::insecure::DummyArithmeticTupleGeneratorFactory().create();
      } else {
        std::unique_ptr<ot::IBidirectionObliviousTransferFactory> bi;
        if (src == Src::Multi) bi = std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *net[me], rcot(src));
        else bi = std::make_unique<ot::insecure::DummyBidirectionObliviousTransferFactory>(*net[me]);
        auto ps = std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<eng::util::AesPrgFactory>(1 + r.below(2000)), std::move(bi));
        tg::TupleGeneratorFactory f(ps, std::make_unique<eng::util::AesPrgFactory>(1 + r.below(2000)), buf, me, n, mc);
        g = f.create();
        tg::ArithmeticTupleGeneratorFactory f2(ps, std::make_unique<eng::util::AesPrgFactory>(1 + r.below(2000)), std::max<size_t>(1, buf / 40), me, n);
        h = f2.create();
      }
      auto& o = out[me];
      bool composite = two || src == Src::Dummy;
      // sizes like to be at buffer boundaries
      auto amount = [&](size_t b) -> size_t {
        switch (r.below(8)) {
          case 0: return 0;
          case 1: return 1;
          case 2: return b;
          case 3: return b + 1;
          case 4: return b ? b - 1 : 0;
          case 5: return 2 * b + r.below(3);
          default: return 1 + r.below(b);
        }
      };
      size_t made = 0;
      for (int step = 0; made < target && step < 400; step++) {
        size_t k = amount(buf);
        made += k + 5;
        switch (r.below(composite ? 3 : ints ? 2 : 1) + (composite && !ints ? 10 : 0)) {
          case 0: case 10: {
            auto t = g->getBooleanTuple(k);
            count("requests");
            if (t.size() != k) violation("amount", cat(nm, " asked ", k, " got ", t.size()));
            o.normal.insert(o.normal.end(), t.begin(), t.end());
            break;
          }
          case 11: case 12: case 2: {
            std::map<size_t, uint32_t> want;
            for (size_t j = r.below(4) + 1; j-- > 0;) {
              size_t w = (size_t[]){1, 2, 3, 7, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300, 1000}[r.below(16)];
              if (r.oneIn(3)) w = 1 + r.below(400);
              want[w] = r.oneIn(5) ? 0 : 1 + r.below(r.oneIn(8) ? buf + 3 : 6);
              if (w > 500) want[w] = std::min<uint32_t>(want[w], 20);
            }
            std::map<size_t, std::vector<CT>> got;
            if (r.coin()) got = g->getCompositeTuple(want);
            else {
              auto pr = g->getNormalAndCompositeBooleanTuples(k, want);
              if (pr.first.size() != k) violation("amount", nm);
              o.normal.insert(o.normal.end(), pr.first.begin(), pr.first.end());
              got = std::move(pr.second);
            }
            count("requests");
            for (auto& [w, c] : want) {
              auto f = got.find(w);
              size_t have = f == got.end() ? 0 : f->second.size();
              if (have != c) { violation("amount", cat(nm, " asked ", c, " of width ", w, " got ", have)); continue; }
              if (c) for (auto& t : f->second) o.composite.emplace_back(w, t);
            }
            for (auto& [w, v] : got) if (!v.empty() && !want.count(w)) violation("amount", cat(nm, " width ", w, " not asked for"));
            break;
          }
          default: {
            size_t kk = std::min<size_t>(amount(std::max<size_t>(1, buf / 40)), 60);
            auto t = h->getIntegerTuple(kk);
            count("requests");
            if (t.size() != kk) violation("amount", cat(nm, " asked ", kk, " integers, got ", t.size()));
            o.ints.insert(o.ints.end(), t.begin(), t.end());
          }
        }
      }
      g.reset(); // ends cleanly with refills under way
    });
    if (!ok) return;
    checkAll(nm, src, out);
    distinct(nm);
    if (id % 10 == 0) sample(cat(nm, ": ", out[0].normal.size(), " boolean, ", out[0].composite.size(), " composite, ", out[0].ints.size(), " integer tuples"));
  });
}

// shares of products of two parties' own values
static void products(bool dummy, size_t id, bool large = false) {
  std::string nm = cat(large ? "large products " : "products ", dummy ? "dummy-ot" : "iknp", "#", id);
  runCase(nm, [&] {
    auto net = memNet(2, {});
    struct R { V l, r, s; bool isInt; };
    std::vector<std::vector<R>> rs(2);
    if (!parties(2, "party-died", [&](int me) {
          Rng shape = rng(nm), val = rng(cat(nm, me));
          std::unique_ptr<ot::IBidirectionObliviousTransferFactory> bi;
          if (!dummy) bi = std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *net[me], rcot(Src::Multi));
          else bi = std::make_unique<ot::insecure::DummyBidirectionObliviousTransferFactory>(*net[me]);
          tg::ProductShareGeneratorFactory f(std::make_unique<eng::util::AesPrgFactory>(64), std::move(bi));
          auto g = f.create(1 - me);
          for (int step = 0; step < (large ? 8 : 12); step++) {
            R x; x.isInt = shape.coin();
            size_t k = shape.oneIn(5) ? 0 : shape.oneIn(4) ? 1 + shape.below(x.isInt ? 60 : 3000) : 1 + shape.below(20);
            if (large && step % 5 == 2) { x.isInt = step == 2; k = 65537 / (x.isInt ? 64 : 1) + shape.below(100); if (me == 0) count("large_requests"); }
            for (size_t i = 0; i < k; i++) { x.l.push_back(x.isInt ? val.edgy() : val.below(2)); x.r.push_back(x.isInt ? val.edgy() : val.below(2)); }
            if (x.isInt) x.s = g->generateIntegerProductShares(x.l, x.r);
            else { auto b = g->generateBooleanProductShares(std::vector<bool>(x.l.begin(), x.l.end()), std::vector<bool>(x.r.begin(), x.r.end())); x.s = V(b.begin(), b.end()); }
            rs[me].push_back(x);
          }
          int refused = 0;
          try { g->generateBooleanProductShares({true}, {}); } catch (const std::exception&) { refused++; }
          try { g->generateIntegerProductShares({1, 2}, {1}); } catch (const std::exception&) { refused++; }
          count("refusals", refused);
          if (refused != 2) violation("mismatch-accepted", nm);
        })) return;
    for (size_t i = 0; i < rs[0].size(); i++) {
      auto &x = rs[0][i], &y = rs[1][i];
      if (x.s.size() != x.l.size() || y.s.size() != y.l.size()) { violation("amount", nm); return; }
      for (size_t j = 0; j < x.s.size(); j++) {
        count("product_shares");
        bool ok = x.isInt ? x.s[j] + y.s[j] == x.l[j] * y.r[j] + y.l[j] * x.r[j] : (x.s[j] ^ y.s[j]) == ((x.l[j] & y.r[j]) ^ (y.l[j] & x.r[j]));
        if (!ok) { violation(x.isInt ? "integer-product-share" : "boolean-product-share", cat(nm, " request ", i, " position ", j)); return; }
      }
    }
    distinct(nm);
  });
}

void vfMain() {
  size_t id = 0;
  for (size_t i = 0; i < n(20, 200); i++) tuples(Src::TwoIknp, 2, (size_t[]){1, 2, 7, 64, 127, 128, 500, 3000}[i % 8], 6000, id++);
  for (size_t i = 0; i < n(5, 60); i++) tuples(Src::TwoFerret, 2, (size_t[]){5, 100, 1000, 2500}[i % 4], 8000, id++);
  for (size_t i = 0; i < n(16, 200); i++) tuples(Src::TwoDummyOt, 2, (size_t[]){1, 3, 64, 1000}[i % 4], 3000, id++);
  for (size_t i = 0; i < n(8, 100); i++) tuples(Src::Multi, 2 + i % 3, (size_t[]){1, 40, 129, 800}[i % 4], 1500, id++);
  for (size_t i = 0; i < n(16, 200); i++) tuples(Src::MultiDummyOt, 2 + i % 4, (size_t[]){1, 5, 100, 1000}[i % 4], 2000, id++);
  for (size_t i = 0; i < n(4, 20); i++) tuples(Src::Dummy, 2 + i % 3, 100, 1000, id++);
  for (size_t i = 0; i < n(12, 100); i++) products(i % 2, id++);
  // more than 16 bits can count
  products(false, id++, true);
  products(true, id++, true);
  tuples(Src::TwoIknp, 2, 65537 + rng("large two").below(5000), 6000, id++);
  tuples(Src::Multi, 2, 65537 + rng("large multi").below(5000), 6000, id++);
  if (thorough()) for (int i = 0; i < 3; i++) tuples(Src::TwoIknp, 2, tg::kDefaultBufferSize, 200000, id++);
}
