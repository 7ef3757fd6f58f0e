// C23: union maps of both parties turned into aligned lists of matched rows.
#include "fbpcf/mpc_std_lib/unified_data_process/adapter/AdapterFactory.h"
#include <map>
#include "kinds.h"
#include "stat.h"
using namespace kinds;
namespace ad = fbpcf::mpc_std_lib::unified_data_process::adapter;
enum Make { Real, Plain, None, makes };
static const char* makeName[] = {"real", "plain permuter", "no shuffle"};
static std::unique_ptr<ad::IAdapter> make(Make m, bool first, int me) {
  switch (m) {
    case Real: return ad::getAdapterFactoryWithAsWaksmanBasedShuffler<0>(first, me, 1 - me)->create();
    case Plain: return ad::getAdapterFactoryWithInsecureShuffler<0>(first, me, 1 - me)->create();
    default: return ad::getAdapterFactoryWithNonShuffler<0>(first, me, 1 - me)->create();
  }
}
using Map = std::vector<int32_t>;
struct Case { Map m[2]; std::map<int32_t, int32_t> match; }; // match: row of party 1 -> row of party 0
enum Shape { Any, Same, Disjoint, OneSided, OneMatch, Dense, shapes };
static Case gen(Rng& r, size_t size, int shape) {
  Case c;
  std::vector<int> who(size); // 1: only 0, 2: only 1, 3: both
  size_t pick = r.below(size), side = 1 + r.below(2);
  for (size_t i = 0; i < size; i++)
    switch (shape) {
      case Same: who[i] = 3; break;
      case Disjoint: who[i] = 1 + r.below(2); break;
      case OneSided: who[i] = r.coin() ? 3 : side; break;
      case OneMatch: who[i] = i == pick ? 3 : 1 + r.below(2); break;
      case Dense: who[i] = r.oneIn(6) ? 1 + r.below(2) : 3; break;
      default: who[i] = 1 + r.below(3);
    }
  for (int p = 0; p < 2; p++) {
    size_t rows = 0;
    for (auto w : who) rows += w >> p & 1;
    Map idx(r.oneIn(4) ? size : rows); // own rows need not be consecutive: any below the size of the union
    std::iota(idx.begin(), idx.end(), 0);
    r.shuffle(idx);
    if (r.oneIn(8)) std::sort(idx.begin(), idx.end());
    size_t k = 0;
    for (auto w : who) c.m[p].push_back(w >> p & 1 ? idx[k++] : -1);
  }
  for (size_t i = 0; i < size; i++) if (who[i] == 3) c.match[c.m[1][i]] = c.m[0][i];
  return c;
}
static void judge(const std::string& nm, const Case& c, const std::vector<Map>& out) {
  if (out[0].size() != c.match.size() || out[1].size() != c.match.size()) { violation("list-size", cat(nm, " ", out[0].size(), "/", out[1].size(), " matched ", c.match.size())); return; }
  // party 0 of the protocol holds its peer's rows in union order, and the other way round
  std::set<int32_t> seen;
  for (size_t i = 0; i < out[0].size(); i++) {
    count("matches_compared");
    auto it = c.match.find(out[0][i]);
    if (it == c.match.end()) { violation("not-matched", cat(nm, " position ", i, " row ", out[0][i])); return; }
    if (it->second != out[1][i]) { violation("misaligned", cat(nm, " position ", i, " rows ", out[1][i], " and ", out[0][i], " want ", it->second)); return; }
    if (!seen.insert(out[0][i]).second) { violation("row-repeated", cat(nm, " row ", out[0][i])); return; }
  }
}
static void session(Make mk, const World& w, size_t id, bool deep, size_t large = 0) {
  auto r = rng(cat("adapter", mk, w.str(), id));
  bool swapped = r.coin();
  size_t rounds = large ? 1 : 1 + r.below(4);
  std::vector<Case> cs;
  std::string sizes;
  for (size_t k = 0; k < rounds; k++) {
    size_t size = r.oneIn(6) ? 1 : r.oneIn(4) ? (1u << (1 + r.below(5))) - 1 + r.below(3) : 1 + r.below(r.oneIn(3) ? (deep ? 400 : 90) : 12);
    if (large) size = large;
    cs.push_back(gen(r, size, large ? (id % 2 ? Same : Dense) : r.below(shapes)));
    sizes += cat(" ", size, "/", cs.back().match.size());
  }
  auto nm = cat("adapter ", makeName[mk], " ", w.str(), " #", id, swapped ? " swapped" : "", sizes);
  std::vector<std::vector<Map>> out(2);
  runCase(nm, [&] {
    uint64_t badSeed = r();
    if (!onWorld(w, [&](int me, sched::IScheduler& s) {
          int role = me ^ swapped; // which party of the protocol
          auto a = make(mk, role == 0, me);
          Rng br(badSeed + me);
          for (auto& c : cs) {
            // maps that must be refused, without saying anything to the peer
            size_t size = c.m[role].size();
            for (int bad = 0; bad < 5; bad++) {
              auto m = c.m[role];
              size_t at = br.below(size);
              switch (bad) {
                case 0: m[at] = size + (br.coin() ? 0 : br.below(1000)); break;
                case 1: m[at] = -2 - (int)br.below(5); break;
                case 2: m[at] = br.coin() ? INT32_MAX : INT32_MIN; break;
                case 3: {
                  if (size < 2) continue;
                  size_t other = (at + 1 + br.below(size - 1)) % size;
                  if (m[at] < 0) m[at] = br.below(size);
                  m[other] = m[at];
                  break;
                }
                default: m.clear();
              }
              auto before = s.getTrafficStatistics();
              bool threw = false;
              try { a->adapt(m); } catch (const std::exception&) { threw = true; }
              count("refusals");
              if (!threw) { violation("bad-map-accepted", cat(nm, " kind ", bad)); return; }
              if (s.getTrafficStatistics() != before) violation("refusal-talks", cat(nm, " kind ", bad));
            }
            auto in = c.m[role];
            out[role].push_back(a->adapt(in));
            if (in != c.m[role]) violation("input-changed", nm);
            progress();
          }
        })) return;
    for (size_t k = 0; k < rounds; k++) {
      count("unions");
      if (cs[k].match.empty()) count("empty_intersections");
      if (cs[k].m[0].size() == 1) count("unions_of_one");
      judge(cat(nm, " round ", k), cs[k], {out[0][k], out[1][k]});
    }
  });
  distinct(nm);
}
// the order of the result says nothing about the order of the union
static void order(const World& w, size_t matched, size_t extra, size_t draws) {
  auto nm = cat("order ", matched, "+", extra, " ", w.str());
  runCase(nm, [&] {
    Map m(matched + extra), n = m;
    for (size_t i = 0; i < m.size(); i++) { m[i] = i < matched + extra / 2 ? i : -1; n[i] = i < matched || i >= matched + extra / 2 ? (int)i : -1; }
    std::map<Map, uint64_t> seen;
    std::vector<std::vector<Map>> out(2);
    if (!onWorld(w, [&](int me, sched::IScheduler&) {
          for (size_t k = 0; k < draws; k++) {
            auto a = make(k & 1 ? Real : Plain, me == 0, me);
            out[me].push_back(a->adapt(me ? n : m));
            progress();
          }
        })) return;
    for (size_t k = 0; k < draws; k++) {
      count("orders_drawn");
      if (out[0][k] != out[1][k]) violation("misaligned", nm);
      seen[out[0][k]]++;
    }
    size_t all = 1;
    for (size_t i = 2; i <= matched; i++) all *= i;
    double p = 1.0 / all;
    Map o(matched);
    std::iota(o.begin(), o.end(), 0);
    do {
      double sd = std::sqrt(draws * p * (1 - p)), d = std::abs(double(seen[o]) - draws * p);
      if (d > 7.5 * sd) violation("order-unfair", cat(nm, " order ", cat(o[0], ",", o[1]), " came ", seen[o], " times of ", draws, ", expected ", draws * p));
    } while (std::next_permutation(o.begin(), o.end()));
  });
  distinct(nm);
}
void vfMain() {
  Switch::install<0>();
  World ws[] = {{SchedKind::NetPlain, EngineKind::Dummy, Alloc::Map, 2}, {SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2}, {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2}};
  for (auto& w : ws)
    for (int mk = 0; mk < makes; mk++)
      for (size_t k = 0; k < n(14, 150); k++) session((Make)mk, w, k, thorough());
  for (size_t k = 0; k < n(2, 10); k++) { // more rows than small counters and indexes hold
    session(None, ws[k % 3], 1000 + k, false, 257 + k * 300);
    session(Plain, ws[0], 1000 + k, false, 3000 + k * 77);
    session(None, ws[0], 1002 + k, false, 70000 + k);
    session(Real, ws[0], 1002 + k, false, 600 + k * 7);
  }
  for (size_t k = 0; k < n(2, 3); k++) {
    if (k != 2) order(ws[k], 3, 2, n(900, 4000));
    if (k != 2) order(ws[k], 2, 0, n(500, 2000));
  }
}
