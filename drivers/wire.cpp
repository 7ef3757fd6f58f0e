// C07: transcripts carry nothing about secrets except where something is opened.
#include "prog.h"
#include "stat.h"
#include <cmath>
#include "fbpcf/engine/SecretShareEngine.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
#include "fbpcf/util/MetricCollector.h"
using namespace vf;
namespace tg = fbpcf::engine::tuple_generator;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
using V = std::vector<uint64_t>;

static Bits bitsOf(const std::vector<unsigned char>& d, unsigned padMask) {
  Bits b;
  for (auto c : d) for (int j = 0; j < 8; j++) if (!(padMask >> j & 1)) b.add(c >> j & 1);
  return b;
}
// bit positions that carry no data: zero in every byte of every message
static unsigned padding(const std::vector<std::vector<unsigned char>>& all) {
  unsigned any = 0;
  for (auto& d : all) for (auto c : d) any |= c;
  return any == 0 ? 0 : ~any & 255;
}

// ---- 1. sizes and order do not depend on secrets ------------------------------
static void sizes(const World& w, size_t id) {
  std::string nm = cat("sizes ", w.str(), "#", id);
  runCase(nm, [&] {
    ProgCfg c; c.n = w.n; c.steps = 30; c.intMult = hasIntMult(w.e);
    std::vector<std::string> first;
    for (int v = 0; v < 3; v++) {
      Prog p = genProg(c, rng(nm), rng(cat(nm, " values ", v)));
      auto tapes = newTapes(w.n, false);
      if (runWorld(w, p, 1, false, tapes).empty()) return;
      auto s = wireShapes(tapes);
      for (auto& t : tapes) count("message_sizes_compared", t->order.size());
      if (v == 0) first = s;
      else for (int i = 0; i < w.n; i++) if (s[i] != first[i]) violation("sizes-depend-on-secrets", cat(nm, " party ", i, " saw ", s[i].substr(0, 300), " and ", first[i].substr(0, 300)));
    }
    distinct(nm);
  });
}

// ---- 2. what a party receives during evaluation ---------------------------------
struct Seen { // one execution
  // per party and peer and phase: bytes received
  std::map<std::tuple<int, int, std::string>, std::vector<unsigned char>> got, sent;
  std::vector<std::vector<bool>> bitShares; std::vector<V> intShares;
};
static bool execute(bool multi, int n, size_t M, size_t I, bool secret, const std::string& nm, Seen& seen) {
  auto nets = memNet(n, {});
  auto tapes = newTapes(n, true);
  auto online = memNet(n, tapes);
  std::mutex m;
  seen.bitShares.assign(n, {}); seen.intShares.assign(n, {});
  return parties(n, "party-died", [&](int me) {
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("vf");
    auto rc = [] { return std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory>(ot::createClassicRcotFactory()); };
    std::unique_ptr<tg::ITupleGenerator> bt;
    std::unique_ptr<tg::IArithmeticTupleGenerator> at;
    size_t buf = 700;
    if (!multi) {
      tg::TwoPartyTupleGeneratorFactory f(rc(), *nets[me], me, 1500, mc);
      bt = f.create(); at = tg::NullArithmeticTupleGeneratorFactory().create();
    } else {
      auto bi = std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *nets[me], rc());
      auto ps = std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<eng::util::AesPrgFactory>(buf), std::move(bi));
      tg::TupleGeneratorFactory f(ps, std::make_unique<eng::util::AesPrgFactory>(buf), buf, me, n, mc);
      bt = f.create();
      tg::ArithmeticTupleGeneratorFactory g(ps, std::make_unique<eng::util::AesPrgFactory>(buf), 100, me, n);
      at = g.create();
    }
    eng::SecretShareEngine e(std::move(bt), std::move(at),
        std::make_unique<comm::SecretShareEngineCommunicationAgent>(me, comm::getAgentMap(n, me, *online[me])),
        std::make_unique<eng::util::AesPrgFactory>(), me, n);
    auto& tape = *tapes[me];
    std::vector<size_t> from(tape.channels.size());
    auto mark = [&] { for (size_t c = 0; c < from.size(); c++) { std::lock_guard<std::mutex> g(tape.channels[c]->m); from[c] = tape.channels[c]->log.size(); } };
    auto take = [&](const std::string& phase) {
      size_t bytes = 0;
      for (size_t c = 0; c < from.size(); c++) {
        std::lock_guard<std::mutex> g(tape.channels[c]->m);
        auto& l = tape.channels[c]->log;
        std::vector<unsigned char> d, out;
        for (size_t i = from[c]; i < l.size(); i++) { auto& to = l[i].sent ? out : d; to.insert(to.end(), l[i].data.begin(), l[i].data.end()); }
        bytes += d.size(); from[c] = l.size();
        std::lock_guard<std::mutex> h(m);
        seen.got[{me, tape.channels[c]->peer, phase}] = d;
        seen.sent[{me, tape.channels[c]->peer, phase}] = out;
      }
      return bytes;
    };
    mark();
    uint64_t iv = secret ? ~0ull : 0;
    auto x = e.setBatchInput(0, std::vector<bool>(M, secret)), y = e.setBatchInput(n - 1, std::vector<bool>(M, secret));
    std::vector<bool> s1, s2;
    for (size_t i = 0; i < 400; i++) { s1.push_back(e.setInput(0, secret)); s2.push_back(e.setInput(n - 1, secret)); }
    auto u = e.setBatchIntegerInput(0, V(I, iv)), v = e.setBatchIntegerInput(n - 1, V(I, iv));
    if (size_t b = take("share")) violation("sharing-sends", cat(nm, " party ", me, " received ", b, " bytes while inputs were shared")); // by design no data moves
    auto all = x; all.insert(all.end(), y.begin(), y.end()); all.insert(all.end(), s1.begin(), s1.end()); all.insert(all.end(), s2.begin(), s2.end());
    seen.bitShares[me] = all;
    seen.intShares[me] = u; seen.intShares[me].insert(seen.intShares[me].end(), v.begin(), v.end());
    // products: the same operands again and again
    auto a = e.scheduleBatchAND(x, y), b = e.scheduleBatchAND(x, y);
    auto c = e.scheduleBatchCompositeAND(x, {y, y, y});
    auto c2 = e.scheduleBatchCompositeAND(x, {y, x});
    e.scheduleBatchCompositeAND(x, {y, y, y}); // two of one width in a round, and the other width after it
    e.scheduleBatchCompositeAND(x, {y, x});
    e.executeScheduledOperations(); take("and 1");
    auto za = e.getBatchANDExecutionResult(a), zb = e.getBatchANDExecutionResult(b);
    auto zc = e.getBatchCompositeANDExecutionResult(c); (void)c2;
    for (size_t i = 0; i < s1.size(); i++) e.scheduleAND(s1[i], s2[i]);
    e.scheduleCompositeAND(s1[0], std::vector<bool>(s2));
    e.scheduleCompositeAND(s1[0], std::vector<bool>(s2));
    e.executeScheduledOperations(); take("and singles");
    // single and batched products of the same operands in one round
    for (size_t i = 0; i < M; i++) e.scheduleAND(x[i], y[i]);
    e.scheduleBatchAND(x, y);
    for (size_t i = 0; i < M; i++) e.scheduleCompositeAND(x[i], {y[i], y[i]});
    e.scheduleBatchCompositeAND(x, {y, y});
    e.executeScheduledOperations(); take("and both");
    e.scheduleBatchAND(za, zb); e.scheduleBatchAND(x, y); e.scheduleBatchCompositeAND(zc[0], {zc[1]});
    e.executeScheduledOperations(); take("and 2");
    e.computeBatchANDImmediately(x, y); take("and now");
    V zu;
    if (multi) {
      auto p = e.scheduleBatchMult(u, v); auto q = e.scheduleBatchMult(u, v);
      for (size_t i = 0; i < I; i++) e.scheduleMult(u[i], v[i]);
      e.executeScheduledOperations(); take("mult 1");
      zu = e.getBatchMultExecutionResult(p); (void)q;
      e.computeBatchMultImmediately(u, v); take("mult now");
    }
    // openings: only the recipient gets anything
    for (int to = 0; to < n; to++) for (int kind = 0; kind < 2; kind++) {
      size_t r;
      std::string ph = cat("open ", kind, " to ", to);
      if (kind) e.revealToParty(to, u); else e.revealToParty(to, za);
      r = take(ph);
      count("openings_observed");
      if (to != me && r) violation("opening-reaches-others", cat(nm, " party ", me, " received ", r, " bytes while ", kind ? "integers" : "bits", " were opened to ", to));
      if (to == me && !r) violation("opening-received-nothing", cat(nm, " party ", me));
    }
  });
}
static void transcripts(bool multi, int n, size_t M, size_t I, size_t reps, size_t id) {
  std::string nm = cat("transcript ", multi ? "product shares" : "two-party", "/n=", n, "/M=", M, "#", id);
  runCase(nm, [&] {
    std::vector<Seen> ex(2 * reps);
    for (size_t i = 0; i < ex.size(); i++) if (!execute(multi, n, M, I, i & 1, nm, ex[i])) return;
    std::vector<std::vector<unsigned char>> every;
    for (auto& s : ex) for (auto& [k, d] : s.got) if (std::get<2>(k).rfind("and", 0) == 0) every.push_back(d);
    unsigned pad = padding(every);
    std::map<std::tuple<int, int, std::string>, std::vector<Named>> across;
    for (size_t i = 0; i < ex.size(); i++) {
      std::string en = cat(nm, " execution ", i, i & 1 ? " (ones)" : " (zeros)");
      std::map<int, std::vector<Named>> per; // per party
      for (auto& [k, d] : ex[i].got) {
        auto& [me, peer, ph] = k;
        if (d.empty()) continue;
        bool ints = ph.rfind("mult", 0) == 0 || ph.rfind("open 1", 0) == 0;
        Named x{cat(en, ", party ", me, " from ", peer, ", ", ph), bitsOf(d, ints ? 0 : pad)};
        if (!uniform("content", x.name, x.b)) return;
        // opened shares of two peers together say the value: for three parties and more each alone must not
        across[k].push_back(x);
        if (ph.rfind("open", 0) != 0 || n > 2) per[me].push_back(std::move(x));
      }
      for (auto& [me, xs] : per)
        for (size_t a = 0; a < xs.size(); a++) for (size_t b = 0; b < a; b++)
          if (!unrelated("content-related", xs[a], xs[b], i < 2)) return;
    }
    // what all shares of a round say together is the masked operands: fresh masks leave no relation
    for (size_t i = 0; i < ex.size(); i++) {
      std::vector<Named> xs;
      for (auto& [k, d] : ex[i].got) {
        auto& [me, peer, ph] = k;
        bool ints = ph.rfind("mult", 0) == 0;
        if (me != 0 || peer != 1 || (!ints && ph.rfind("and", 0) != 0)) continue;
        auto sum = ex[i].sent[{0, 1, ph}];
        for (int p = 1; p < n; p++) {
          auto& o = ex[i].got[{0, p, ph}];
          if (o.size() != sum.size()) { violation("rounds-differ", cat(nm, " ", ph, ": ", o.size(), " bytes from ", p, ", ", sum.size(), " sent")); return; }
          if (!ints) for (size_t j = 0; j < o.size(); j++) sum[j] ^= o[j];
          else for (size_t j = 0; j + 8 <= o.size(); j += 8) { uint64_t a, b; memcpy(&a, &sum[j], 8); memcpy(&b, &o[j], 8); a += b; memcpy(&sum[j], &a, 8); }
        }
        Named x{cat(nm, " execution ", i, ", opened in ", ph), bitsOf(sum, ints ? 0 : pad)};
        count("masked_bits", x.b.n);
        if (!uniform("masked", x.name, x.b)) return;
        for (auto& y : xs) if (!unrelated("masked-related", x, y)) return;
        xs.push_back(std::move(x));
      }
    }
    for (auto& [k, xs] : across) for (size_t a = 0; a < xs.size(); a++) for (size_t b = 0; b < a; b++) if (!unrelated("executions-repeat", xs[a], xs[b], b == 0)) return;
    // shares: any proper subset of the parties together knows nothing
    for (size_t i = 0; i < ex.size(); i++) for (int set = 1; set + 1 < 1 << n; set++) {
      Bits b, c;
      for (size_t j = 0; j < ex[i].bitShares[0].size(); j++) { bool o = false; for (int p = 0; p < n; p++) if (set >> p & 1) o ^= ex[i].bitShares[p][j]; b.add(o); }
      for (size_t j = 0; j < ex[i].intShares[0].size(); j++) { uint64_t o = 0; for (int p = 0; p < n; p++) if (set >> p & 1) o += ex[i].intShares[p][j]; for (int k = 0; k < 64; k++) c.add(o >> k & 1); }
      if (!uniform("shares", cat(nm, " bit shares of parties ", set), b)) return;
      if (!uniform("shares", cat(nm, " integer shares of parties ", set), c)) return;
      count("share_subsets");
    }
    count("executions", ex.size());
    distinct(nm);
    sample(cat(nm, ": ", across.size(), " kinds of received messages"));
  });
}

// ---- 3. chosen oblivious transfer: choices and unchosen messages stay hidden -------
static void transfer(size_t M, size_t id) {
  std::string nm = cat("transfer M=", M, "#", id);
  runCase(nm, [&] {
    std::map<std::tuple<int, int, bool>, std::vector<Named>> across;
    for (int exn = 0; exn < 4; exn++) {
      auto tapes = newTapes(2, true);
      auto net = memNet(2, tapes);
      std::vector<std::vector<std::vector<unsigned char>>> got(2);
      bool ch = exn & 1, ms = exn & 2;
      if (!parties(2, "party-died", [&](int me) {
            auto bi = ot::RcotBasedBidirectionObliviousTransferFactory(me, *net[me], std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory>(ot::createClassicRcotFactory())).create(1 - me);
            Channel* c = nullptr; // the last one made
            for (auto& x : tapes[me]->channels) c = x.get();
            size_t from = c->log.size();
            for (int rep = 0; rep < 2; rep++) {
              bi->biDirectionOT(std::vector<bool>(M, ms), std::vector<bool>(M, ms ^ ch), std::vector<bool>(M, ch));
              bi->biDirectionOT(V(M / 8, ms ? ~0ull : 0), V(M / 8, ms ? 5 : ~0ull), std::vector<bool>(M / 8, ch));
            }
            for (size_t i = from; i < c->log.size(); i++) if (!c->log[i].sent) got[me].push_back(c->log[i].data);
          })) return;
      unsigned pad = 255;
      for (auto& g : got) pad &= padding(g);
      for (int me = 0; me < 2; me++) {
        std::vector<Named> xs;
        for (size_t i = 0; i < got[me].size(); i++) {
          Named x{cat(nm, " execution ", exn, " party ", me, " message ", i), bitsOf(got[me][i], pad)};
          if (!uniform("transfer-content", x.name, x.b)) return;
          for (auto& y : xs) if (!unrelated("transfer-related", x, y)) return;
          across[{me, (int)i, false}].push_back(x);
          xs.push_back(std::move(x));
        }
        if (xs.empty()) violation("nothing-observed", nm);
      }
    }
    for (auto& [k, xs] : across) for (size_t a = 0; a < xs.size(); a++) for (size_t b = 0; b < a; b++) if (!unrelated("transfer-executions-repeat", xs[a], xs[b], false)) return;
    count("transfers_observed", 4);
    distinct(nm);
  });
}

// ---- 4. what is offered for products of shares: each offer hides behind a value of its own ---------
struct Offers { std::vector<std::vector<uint64_t>> i0, i1; std::vector<std::vector<bool>> b0, b1; };
struct OfferTap final : ot::IBidirectionObliviousTransfer {
  std::shared_ptr<Offers> o;
  explicit OfferTap(std::shared_ptr<Offers> x) : o(x) {}
  std::vector<bool> biDirectionOT(const std::vector<bool>& a, const std::vector<bool>& b, const std::vector<bool>& c) override { o->b0.push_back(a); o->b1.push_back(b); return std::vector<bool>(c.size()); }
  std::vector<uint64_t> biDirectionOT(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b, const std::vector<bool>& c) override { o->i0.push_back(a); o->i1.push_back(b); return std::vector<uint64_t>(c.size()); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
struct OfferTapFactory final : ot::IBidirectionObliviousTransferFactory {
  std::vector<std::shared_ptr<Offers>>& all;
  explicit OfferTapFactory(std::vector<std::shared_ptr<Offers>>& a) : all(a) {}
  std::unique_ptr<ot::IBidirectionObliviousTransfer> create(int) override { all.push_back(std::make_shared<Offers>()); return std::make_unique<OfferTap>(all.back()); }
};
static void offers(bool secret, size_t id) {
  std::string nm = cat("offers ", (int)secret, "#", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    std::vector<std::shared_ptr<Offers>> all;
    std::vector<std::unique_ptr<tg::IProductShareGenerator>> gs;
    for (int f = 0; f < 2; f++) {
      tg::ProductShareGeneratorFactory fac(std::make_unique<eng::util::AesPrgFactory>(1 + r.below(4000)), std::make_unique<OfferTapFactory>(all));
      for (int p = 0; p < 2; p++) gs.push_back(fac.create(p));
    }
    for (auto& g : gs) for (int k = 0; k < 5; k++) {
      size_t n = 1 + r.below(60), m = 1 + r.below(900);
      g->generateIntegerProductShares(std::vector<uint64_t>(n, secret ? ~0ull : 0), std::vector<uint64_t>(n, r()));
      g->generateBooleanProductShares(std::vector<bool>(m, secret), r.bits(m));
    }
    std::set<uint64_t> d0, d1;
    std::vector<Bits> flat(all.size() * 2), low(all.size());
    for (size_t i = 0; i < all.size(); i++) {
      for (auto& v : all[i]->i0) for (auto x : v) { count("offers_observed"); low[i].add(x & 1); if (!d0.insert(x).second) violation("offer-repeats", nm); }
      for (auto& v : all[i]->i1) for (auto x : v) if (!d1.insert(x).second) violation("offer-repeats", nm + " (second)");
      for (auto& v : all[i]->b0) for (bool x : v) flat[2 * i].add(x);
      for (auto& v : all[i]->b1) for (bool x : v) flat[2 * i + 1].add(x);
    }
    for (auto& b : flat) uniform("offers-biased", nm, b);
    for (auto& b : low) uniform("offers-biased", nm + " integers", b);
    for (size_t i = 0; i < flat.size(); i++) for (size_t j = 0; j < i; j++) if (i / 2 != j / 2) unrelated("offers-related", {cat(nm, " offers ", i), flat[i]}, {cat("offers ", j), flat[j]});
    distinct(nm);
  });
}

void vfMain() {
  size_t id = 0;
  for (size_t i = 0; i < n(14, 200); i++)
    for (auto s : {SchedKind::Eager, SchedKind::Lazy}) {
      sizes({s, EngineKind::Dummy, Alloc::ArenaSafe, 2 + (int)(i % 3)}, id++);
      if (i % 4 == 0) { sizes({s, EngineKind::SmallTwo, Alloc::ArenaSafe, 2, 500}, id++); sizes({s, EngineKind::SmallMulti, Alloc::ArenaSafe, 2 + (int)(i / 4 % 2), 150}, id++); }
    }
  for (size_t i = 0; i < n(1, 6); i++) {
    transcripts(false, 2, 512, 0 + 16, 2, id++);
    transcripts(true, 2, 512, 64, 2, id++);
    transcripts(true, 3, 512, 64, 1, id++);
  }
  for (size_t i = 0; i < n(2, 12); i++) transfer(1024, id++);
  for (size_t i = 0; i < n(6, 60); i++) offers(i & 1, i);
}
