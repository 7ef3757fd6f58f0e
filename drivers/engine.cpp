// C06: the parties' shares recombine to the intended values.
#include "mpc.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
using namespace vf;
using V = std::vector<uint64_t>;
struct Val { bool isInt; V plain; V share; };
static std::vector<bool> B(const V& v) { return std::vector<bool>(v.begin(), v.end()); }
static V U(const std::vector<bool>& v) { return V(v.begin(), v.end()); }

struct Party {
  std::vector<Val> vals;
  std::vector<std::pair<V, V>> placeholders; // what a non-recipient was given: booleans as 0/1
};

static void session(EngineKind ek, int n, size_t small, size_t rounds, size_t width, size_t id) {
  std::string nm = cat(name(ek), "/n=", n, "/buf=", small, "/w=", width, "#", id);
  runCase(nm, [&] {
    auto net = memNet(n, {});
    std::vector<Party> ps(n);
    std::mutex pm;
    std::map<std::pair<bool, size_t>, V> firstPlaceholder;
    bool ok = parties(n, "party-died", [&](int me) {
      auto e = makeEngine(ek, me, n, *net[me], small);
      Rng r = rng(nm), noise = rng(cat(nm, me));
      auto& vals = ps[me].vals;
      bool mults = hasIntMult(ek);
      auto size = [&](bool zero = true) -> size_t { return zero && r.oneIn(12) ? 0 : r.oneIn(3) ? 1 : 1 + r.below(r.oneIn(6) ? width * 8 : width); };
      auto draw = [&](bool isInt, size_t k) { V v(k); for (auto& x : v) x = isInt ? r.edgy() : r.below(2); return v; };
      auto garbage = [&](const V& v, bool isInt) { V g(v.size()); for (auto& x : g) x = isInt ? noise() : noise.below(2); return g; };
      auto add = [&](bool isInt, V plain, V share) {
        if (share.size() != plain.size()) { violation("size", cat(nm, " party ", me, " got ", share.size(), " shares for ", plain.size())); share.resize(plain.size()); }
        vals.push_back({isInt, std::move(plain), std::move(share)});
      };
      auto input = [&](bool isInt, size_t k, bool single) {
        int owner = r.below(n);
        V v = draw(isInt, k), mine = owner == me ? v : garbage(v, isInt);
        if (single) {
          if (isInt) { std::optional<uint64_t> o = mine[0]; if (me != owner && noise.coin()) o.reset(); add(true, v, {e->setIntegerInput(owner, o)}); }
          else { std::optional<bool> o = (bool)mine[0]; if (me != owner && noise.coin()) o.reset(); add(false, v, {e->setInput(owner, o)}); }
        } else if (isInt) add(true, v, e->setBatchIntegerInput(owner, mine));
        else add(false, v, U(e->setBatchInput(owner, B(mine))));
      };
      auto pick = [&](bool isInt, long k) -> int { // k<0: any size
        std::vector<int> c;
        for (size_t i = 0; i < vals.size(); i++) if (vals[i].isInt == isInt && (k < 0 || (long)vals[i].plain.size() == k)) c.push_back(i);
        return c.empty() ? -1 : c[r.below(c.size())];
      };
      // an operand of k elements: a slice of earlier ones, or new
      auto operand = [&](bool isInt, size_t k) -> Val {
        int i = pick(isInt, k);
        if (i < 0 || r.oneIn(3)) {
          if (k == 0) return {isInt, {}, {}};
          input(isInt, k, k == 1 && r.coin());
          return vals.back();
        }
        return vals[i];
      };
      auto map2 = [](const V& a, const V& b, auto f) { V o(a.size()); for (size_t i = 0; i < a.size(); i++) o[i] = f(a[i], b[i]); return o; };
      for (size_t rd = 0; rd < rounds; rd++) {
        // inputs and local operations
        for (size_t k = 3 + r.below(5); k-- > 0;) { bool s = r.coin(); input(r.coin(), s ? 1 : size(false), s); }
        for (size_t k = 4 + r.below(10); k-- > 0;) {
          bool isInt = r.coin(), single = r.coin();
          size_t z = single ? 1 : size();
          Val a = operand(isInt, z), b = operand(isInt, z);
          V pub = draw(isInt, z);
          count("local_operations");
          switch (r.below(4)) {
            case 0:
              if (isInt) add(true, map2(a.plain, b.plain, std::plus<uint64_t>()), single ? V{e->computeSymmetricPlus(a.share[0], b.share[0])} : e->computeBatchSymmetricPlus(a.share, b.share));
              else add(false, map2(a.plain, b.plain, std::bit_xor<uint64_t>()), single ? V{e->computeSymmetricXOR(a.share[0], b.share[0])} : U(e->computeBatchSymmetricXOR(B(a.share), B(b.share))));
              break;
            case 1:
              if (isInt) add(true, map2(a.plain, pub, std::plus<uint64_t>()), single ? V{e->computeAsymmetricPlus(a.share[0], pub[0])} : e->computeBatchAsymmetricPlus(a.share, pub));
              else add(false, map2(a.plain, pub, std::bit_xor<uint64_t>()), single ? V{e->computeAsymmetricXOR(a.share[0], pub[0])} : U(e->computeBatchAsymmetricXOR(B(a.share), B(pub))));
              break;
            case 2: {
              V p = a.plain;
              for (auto& x : p) x = isInt ? -x : 1 - x;
              if (isInt) add(true, p, single ? V{e->computeSymmetricNeg(a.share[0])} : e->computeBatchSymmetricNeg(a.share));
              else add(false, p, single ? V{e->computeAsymmetricNOT(a.share[0])} : U(e->computeBatchAsymmetricNOT(B(a.share))));
              // the symmetric form is for values known to all
              if (!isInt) {
                V np = pub; for (auto& x : np) x = 1 - x;
                V g = single ? V{e->computeSymmetricNOT(pub[0])} : U(e->computeBatchSymmetricNOT(B(pub)));
                if (g != np) violation("public-not", nm);
              }
              break;
            }
            default: // with a public factor
              if (isInt) add(true, map2(a.plain, pub, std::multiplies<uint64_t>()), single ? V{e->computeFreeMult(a.share[0], pub[0])} : e->computeBatchFreeMult(a.share, pub));
              else add(false, map2(a.plain, pub, std::bit_and<uint64_t>()), single ? V{e->computeFreeAND(a.share[0], pub[0])} : U(e->computeBatchFreeAND(B(a.share), B(pub))));
          }
        }
        // a schedule of everything, then one exchange
        struct Sched { int kind; uint32_t idx; std::vector<V> plain; };
        std::vector<Sched> sc;
        size_t m = r.oneIn(5) ? 60 + r.below(140) : r.below(20);
        bool composite = !(ek == EngineKind::SmallMulti && r.coin());
        auto doSched = [&] {
          int kind = r.below(6);
          if (!mults && kind >= 4) kind = r.below(4);
          bool isInt = kind >= 4;
          size_t z = kind == 0 || kind == 2 || kind == 4 ? 1 : size();
          Val a = operand(isInt, z);
          Sched x{kind, 0, {}};
          if (kind == 0) { Val b = operand(false, 1); x.idx = e->scheduleAND(a.share[0], b.share[0]); x.plain = {map2(a.plain, b.plain, std::bit_and<uint64_t>())}; }
          else if (kind == 1) { Val b = operand(false, z); x.idx = e->scheduleBatchAND(B(a.share), B(b.share)); x.plain = {map2(a.plain, b.plain, std::bit_and<uint64_t>())}; }
          else if (kind == 4) { Val b = operand(true, 1); x.idx = e->scheduleMult(a.share[0], b.share[0]); x.plain = {map2(a.plain, b.plain, std::multiplies<uint64_t>())}; }
          else if (kind == 5) { Val b = operand(true, z); x.idx = e->scheduleBatchMult(a.share, b.share); x.plain = {map2(a.plain, b.plain, std::multiplies<uint64_t>())}; }
          else {
            size_t rights = composite ? 1 + r.below(r.oneIn(60) ? 300 : r.oneIn(5) ? 40 : 5) : 1;
            std::vector<bool> rs;
            std::vector<std::vector<bool>> rb;
            for (size_t i = 0; i < rights; i++) {
              Val b = operand(false, z);
              x.plain.push_back(map2(a.plain, b.plain, std::bit_and<uint64_t>()));
              if (kind == 2) rs.push_back(b.share[0]); else rb.push_back(B(b.share));
            }
            x.idx = kind == 2 ? e->scheduleCompositeAND(a.share[0], rs) : e->scheduleBatchCompositeAND(B(a.share), rb);
          }
          sc.push_back(x);
          count("products_scheduled");
        };
        for (size_t k = 0; k < m; k++) {
          doSched();
          if (r.oneIn(40)) { // an immediate product while others wait
            size_t z = 1 + r.below(9);
            Val a = operand(false, z), b = operand(false, z);
            add(false, map2(a.plain, b.plain, std::bit_and<uint64_t>()), U(e->computeBatchANDImmediately(B(a.share), B(b.share))));
            if (mults) { Val c = operand(true, z), d = operand(true, z); add(true, map2(c.plain, d.plain, std::multiplies<uint64_t>()), e->computeBatchMultImmediately(c.share, d.share)); }
            count("immediate_products");
          }
        }
        e->executeScheduledOperations();
        count("exchanges");
        // in any order
        r.shuffle(sc);
        for (auto& x : sc) switch (x.kind) {
          case 0: add(false, x.plain[0], {e->getANDExecutionResult(x.idx)}); break;
          case 1: add(false, x.plain[0], U(e->getBatchANDExecutionResult(x.idx))); break;
          case 2: {
            auto& g = e->getCompositeANDExecutionResult(x.idx);
            V all; for (auto& p : x.plain) all.push_back(p[0]);
            add(false, all, U(g));
            break;
          }
          case 3: {
            auto& g = e->getBatchCompositeANDExecutionResult(x.idx);
            if (g.size() != x.plain.size()) { violation("size", cat(nm, " composite ", g.size(), " for ", x.plain.size())); break; }
            for (size_t i = 0; i < g.size(); i++) add(false, x.plain[i], U(g[i]));
            break;
          }
          case 4: add(true, x.plain[0], {e->getMultExecutionResult(x.idx)}); break;
          default: add(true, x.plain[0], e->getBatchMultExecutionResult(x.idx));
        }
        // openings: of many values at once, to each party
        for (int to = 0; to < n; to++) {
          bool isInt = r.coin();
          V plain, share;
          for (size_t k = r.below(6); k-- > 0;) { int i = pick(isInt, -1); if (i >= 0) { plain.insert(plain.end(), vals[i].plain.begin(), vals[i].plain.end()); share.insert(share.end(), vals[i].share.begin(), vals[i].share.end()); } }
          if (plain.empty()) continue;
          V got = isInt ? e->revealToParty(to, share) : U(e->revealToParty(to, B(share)));
          if (got.size() != plain.size()) { violation("size", cat(nm, " opened ", got.size(), " of ", plain.size())); continue; }
          if (to == me) { count("values_opened", got.size()); if (got != plain) violation("opened-value", cat(nm, " party ", me, " got ", str(got), " want ", str(plain))); }
          else {
            count("placeholders", got.size());
            std::lock_guard<std::mutex> g(pm);
            auto f = firstPlaceholder.emplace(std::make_pair(isInt, got.size()), got);
            if (f.first->second != got) violation("placeholder-depends", cat(nm, " party ", me, " opening to ", to));
          }
        }
        // keep the number of values in check
        if (vals.size() > 4000) break;
      }
      // sizes that do not agree are refused, at all parties alike
      int refused = 0;
      auto refuses = [&](auto f) { try { f(); } catch (const std::exception&) { refused++; } };
      std::vector<bool> b3(3), b4(4);
      V u3(3), u4(4);
      refuses([&] { e->computeBatchSymmetricXOR(b3, b4); });
      refuses([&] { e->computeBatchAsymmetricXOR(b4, b3); });
      refuses([&] { e->computeBatchSymmetricPlus(u3, u4); });
      refuses([&] { e->computeBatchAsymmetricPlus(u4, u3); });
      refuses([&] { e->computeBatchFreeAND(b3, b4); });
      refuses([&] { e->computeBatchFreeMult(u3, u4); });
      refuses([&] { e->scheduleBatchAND(b3, b4); });
      refuses([&] { e->scheduleBatchCompositeAND(b3, {b3, b4}); });
      refuses([&] { e->computeBatchANDImmediately(b4, b3); });
      refuses([&] { if (mults) e->scheduleBatchMult(u3, u4); else throw std::runtime_error(""); });
      count("refusals", refused);
      if (refused != 10) violation("mismatch-accepted", cat(nm, " party ", me, " refused ", refused, " of 10"));
    });
    if (!ok) return;
    for (size_t i = 0; i < ps[0].vals.size(); i++) {
      auto& v0 = ps[0].vals[i];
      V sum(v0.plain.size(), 0);
      for (int p = 0; p < n; p++) {
        if (ps[p].vals.size() != ps[0].vals.size() || ps[p].vals[i].share.size() != sum.size()) { violation("size", nm); return; }
        for (size_t j = 0; j < sum.size(); j++) sum[j] = v0.isInt ? sum[j] + ps[p].vals[i].share[j] : sum[j] ^ ps[p].vals[i].share[j];
      }
      count("values_recombined", sum.size());
      if (sum != v0.plain) { violation("wrong-value", cat(nm, " value ", i, v0.isInt ? " integers " : " bits ", str(sum), " want ", str(v0.plain))); return; }
    }
    distinct(nm);
    if (id % 9 == 0) sample(cat(nm, ": ", ps[0].vals.size(), " values recombined"));
  });
}

// the shares one party holds say nothing: for a fixed value they are balanced and do not repeat
static void masks(int n, size_t id) {
  std::string nm = cat("masking n=", n, "#", id);
  runCase(nm, [&] {
    size_t k = 4000;
    auto net = memNet(n, {});
    std::vector<std::vector<bool>> bs(n);
    std::vector<V> us(n);
    parties(n, "party-died", [&](int me) {
      auto e = makeEngine(EngineKind::Dummy, me, n, *net[me]);
      bs[me] = e->setBatchInput(0, std::vector<bool>(k, id & 1));
      us[me] = e->setBatchIntegerInput(n - 1, V(k, id & 1 ? ~0ull : 0));
    });
    for (int p = 0; p < n; p++) {
      long ones = 0;
      for (bool b : bs[p]) ones += b;
      // 6.5 standard deviations: never by chance
      if (std::labs(ones * 2 - (long)k) > 6.5 * 63.3) violation("unbalanced-shares", cat(nm, " party ", p, ": ", ones, " of ", k));
      std::set<uint64_t> d(us[p].begin(), us[p].end());
      if (d.size() != k) violation("repeated-shares", cat(nm, " party ", p, ": ", d.size(), " of ", k));
      count("masked_values", 2 * k);
    }
    distinct(nm);
  });
}

// the engines as the library makes them, with the buffers it chooses; what an engine was
// made without it refuses, everything else it computes
static void shipped(int kind, int n, size_t id) {
  static const char* kinds[] = {"classic", "ferret", "ferret integers only", "ferret both", "classic integers only", "classic both"};
  std::string nm = cat("as shipped: ", kinds[kind], " n=", n, "#", id);
  bool ints = kind >= 2, bools = kind != 2 && kind != 4;
  runCase(nm, [&] {
    auto net = memNet(n, {});
    std::vector<V> shares[2];
    V want[2];
    bool ok = parties(n, "party-died", [&](int me) {
      namespace ot = eng::tuple_generator::oblivious_transfer;
      auto mc = std::make_shared<fbpcf::util::MetricCollector>("vf");
      auto& f = *net[me];
      std::unique_ptr<eng::ISecretShareEngineFactory> fac;
      if (kind == 0) fac = eng::getSecureEngineFactoryWithClassicOt(me, n, f, mc);
      else if (kind == 1) fac = eng::getSecureEngineFactoryWithFERRET(me, n, f, mc);
      else if (kind == 2) fac = eng::getSecureEngineFactoryWithIntegerOnlyTupleGenerator(me, n, f, mc);
      else if (kind == 3) fac = eng::getSecureEngineFactoryWithBooleanAndIntegerTupleGenerator(me, n, f, mc);
      else fac = eng::getSecureEngineFactoryWithIntegerTupleGenerator(me, n, f, ot::createClassicRcotFactory(), kind == 5, mc);
      auto e = fac->create();
      Rng r = rng(nm);
      V wb, wi, sb, si;
      auto put = [&](bool isInt, const V& plain, const V& share) {
        if (plain.size() != share.size()) violation("size", nm);
        auto &w = isInt ? wi : wb, &s = isInt ? si : sb;
        w.insert(w.end(), plain.begin(), plain.end()); s.insert(s.end(), share.begin(), share.end());
      };
      auto in = [&](bool isInt, size_t k, V& plain) -> V {
        plain.resize(k);
        for (auto& x : plain) x = isInt ? r.edgy() : r.below(2);
        int owner = r.below(n);
        V given = owner == me ? plain : V(k, 0);
        return isInt ? e->setBatchIntegerInput(owner, given) : U(e->setBatchInput(owner, B(given)));
      };
      for (int rd = 0; rd < 3; rd++) {
        size_t k = rd == 0 ? 1 : rd == 1 ? 1 + r.below(200) : 900 + r.below(300);
        V a, b, c, d, o(k);
        V sa = in(false, k, a), sb2 = in(false, k, b), sc = in(true, k, c), sd = in(true, k, d);
        for (size_t i = 0; i < k; i++) o[i] = a[i] ^ b[i];
        put(false, o, U(e->computeBatchSymmetricXOR(B(sa), B(sb2))));
        for (size_t i = 0; i < k; i++) o[i] = c[i] + d[i];
        put(true, o, e->computeBatchSymmetricPlus(sc, sd));
        int refused = 0;
        uint32_t pb = 0, pi = 0;
        if (bools) { pb = e->scheduleBatchAND(B(sa), B(sb2)); }
        if (ints) pi = e->scheduleBatchMult(sc, sd);
        e->executeScheduledOperations();
        if (bools) { for (size_t i = 0; i < k; i++) o[i] = a[i] & b[i]; put(false, o, U(e->getBatchANDExecutionResult(pb))); }
        if (ints) { for (size_t i = 0; i < k; i++) o[i] = c[i] * d[i]; put(true, o, e->getBatchMultExecutionResult(pi)); }
        if (bools) {
          auto x = e->scheduleBatchCompositeAND(B(sa), {B(sb2), B(sa)});
          e->executeScheduledOperations();
          auto& g = e->getBatchCompositeANDExecutionResult(x);
          for (size_t i = 0; i < k; i++) o[i] = a[i] & b[i];
          put(false, o, U(g.at(0))); put(false, a, U(g.at(1)));
        }
        count("shipped_products", k * (bools * 3 + ints));
        auto refuses = [&](auto f) { try { f(); } catch (const std::exception&) { refused++; } };
        if (rd < 2) continue;
        if (!bools) {
          refuses([&] { e->computeBatchANDImmediately(B(sa), B(sb2)); });
          refuses([&] { e->scheduleBatchAND(B(sa), B(sb2)); e->executeScheduledOperations(); });
        }
        if (!ints) {
          refuses([&] { e->computeBatchMultImmediately(sc, sd); });
          refuses([&] { e->scheduleBatchMult(sc, sd); e->executeScheduledOperations(); });
        }
        if (refused != 2 * (!bools + !ints)) violation("unprovided-accepted", cat(nm, " party ", me, " refused ", refused));
        count("refusals", refused);
      }
      static std::mutex m;
      std::lock_guard<std::mutex> g(m);
      shares[0].push_back(sb); shares[1].push_back(si); want[0] = wb; want[1] = wi;
    });
    if (!ok) return;
    for (int t = 0; t < 2; t++)
      for (size_t i = 0; i < want[t].size(); i++) {
        uint64_t sum = 0;
        for (auto& s : shares[t]) sum = t ? sum + s.at(i) : sum ^ s.at(i);
        count("values_recombined");
        if (sum != want[t][i]) { violation("wrong-value", cat(nm, t ? " integer " : " bit ", i, ": ", sum, " want ", want[t][i])); break; }
      }
    distinct(nm);
  });
}

void vfMain() {
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
  for (size_t i = 0; i < n(1, 4); i++) for (int k = 0; k < 6; k++) for (int p = 2; p <= (k == 1 || k == 3 || k == 4 ? 2 : 3); p++) shipped(k, p, i);
  return;
#endif
  size_t id = 0;
  for (size_t i = 0; i < n(60, 800); i++)
    for (int p = 2; p <= 4; p++) session(i % 6 == 5 ? EngineKind::Dummy : i % 3 == 2 ? EngineKind::DealerFlat : EngineKind::Dealer, p, 64, 6, 6 + i % 30, id++);
  session(EngineKind::Dealer, 5, 64, 6, 20, id++);
  session(EngineKind::Dealer, 2, 64, 2, 9000, id++);
  session(EngineKind::DealerFlat, 2, 64, 1, 3000, id++);
  session(EngineKind::Dealer, 3, 64, 1, 20000, id++);
  for (size_t i = 0; i < n(4, 60); i++) session(EngineKind::SmallTwo, 2, (size_t[]){400, 150, 2000, 9000}[i % 4], 2, 6, id++);
  for (size_t i = 0; i < n(2, 40); i++) session(EngineKind::SmallMulti, 2 + i % 2, (size_t[]){100, 700}[i % 2], 1, 4, id++);
  if (thorough()) for (auto k : {EngineKind::Iknp, EngineKind::IknpBoth, EngineKind::Ferret, EngineKind::FerretBoth}) { session(k, 2, 0, 4, 30, id++); session(k, 3, 0, 3, 10, id++); }
  for (size_t i = 0; i < n(12, 100); i++) masks(2 + i % 3, i);
}
