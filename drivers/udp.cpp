// C24: rows of one party, chosen by the other, as secret shared values.
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DummyDataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DataProcessor_impl.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DummyDataProcessor_impl.h"
#include "switch.h"
#include "stat.h"
using namespace vf;
namespace dp = fbpcf::mpc_std_lib::unified_data_process::data_processor;
using B = std::vector<unsigned char>;
using Proc = dp::IDataProcessor<0>;
static std::atomic<uint64_t> gShareBits{0}, gShareSame{0}, gShareOnes{0};

struct Round { int owner; size_t width; std::vector<B> rows; std::vector<uint64_t> at; int to; };
static Round gen(Rng& r, bool real, size_t big = 0) {
  Round d;
  d.owner = r.below(2);
  d.to = r.below(2);
  d.width = r.oneIn(4) ? 16 * (1 + r.below(2)) : r.oneIn(3) ? 1 + r.below(3) : 1 + r.below(real ? 36 : 70);
  size_t rows = big ? big : 1 + r.below(r.oneIn(4) ? 40 : 7);
  if (big) d.width = big > 500 ? 2 : 1 + r.below(20);
  if (big == 1) { rows = 3; d.width = 150 + r.below(150); }
  int style = r.below(4);
  for (size_t i = 0; i < rows; i++) {
    B b(d.width);
    for (auto& x : b) x = style == 0 ? 0 : style == 1 ? 0xff : style == 2 ? (r.coin() ? 0x80 : 0x01) : r();
    if (style == 3 && i && r.oneIn(5)) b = d.rows[0];
    d.rows.push_back(b);
  }
  std::vector<uint64_t> all(rows);
  std::iota(all.begin(), all.end(), 0);
  r.shuffle(all);
  size_t take = r.oneIn(4) ? rows : r.oneIn(3) ? 1 : 1 + r.below(rows);
  d.at.assign(all.begin(), all.begin() + take);
  if (r.oneIn(3)) std::sort(d.at.begin(), d.at.end());
  if (!real && r.oneIn(3)) d.at.push_back(d.at[r.below(d.at.size())]);
  return d;
}
static void session(bool real, const World& w, size_t id, size_t big = 0) {
  auto r = rng(cat("udp", real, w.str(), id, "/", big));
  size_t rounds = big ? 1 : 1 + r.below(3);
  std::vector<Round> ds;
  std::string what;
  for (size_t k = 0; k < rounds; k++) { ds.push_back(gen(r, real, big)); auto& d = ds.back(); what += cat(" ", d.owner, ":", d.rows.size(), "x", d.width, "->", d.at.size()); }
  auto nm = cat(real ? "real " : "plain ", w.str(), " #", id, what);
  runCase(nm, [&] {
    std::vector<std::vector<std::vector<bool>>> got[2], shares[2];
    uint64_t seed = r();
    auto tapes = newTapes(2, true, 0, seed);
    auto net = memNet(2, tapes);
    if (!onWorld(w, [&](int me, sched::IScheduler& s) {
          std::unique_ptr<Proc> p;
          if (real) p = dp::getDataProcessorFactoryWithAesCtr<0>(me, 1 - me, *net[me])->create();
          else p = dp::insecure::DummyDataProcessorFactory<0>(me, 1 - me, *net[me]).create();
          for (auto& d : ds) {
            Proc::SecString out;
            if (d.owner == me) {
              auto in = d.rows;
              out = p->processMyData(in, d.at.size());
              if (in != d.rows) violation("input-changed", nm);
            } else {
              auto at = d.at;
              out = p->processPeersData(d.rows.size(), at, d.width);
              if (at != d.at) violation("input-changed", nm);
            }
            progress();
            if (w.s != SchedKind::NetPlain) shares[me].push_back(out.extractStringShare().getValue());
            got[me].push_back(out.openToParty(d.to).getValue());
            progress();
          }
        })) return;
    for (size_t k = 0; k < rounds; k++) {
      auto& d = ds[k];
      auto& g = got[d.to][k];
      if (g.size() != 8 * d.width) { violation("row-width", cat(nm, " round ", k, " ", g.size(), " bits")); continue; }
      for (size_t b = 0; b < g.size(); b++) {
        if (g[b].size() != d.at.size()) { violation("row-count", cat(nm, " round ", k, " ", g[b].size())); break; }
        for (size_t i = 0; i < d.at.size(); i++) {
          bool want = d.rows[d.at[i]][b / 8] >> (b % 8) & 1;
          if (g[b][i] != want) { violation("wrong-row", cat(nm, " round ", k, " row ", i, " (", d.at[i], " of the owner's) bit ", b)); b = g.size() - 1; break; }
          if (!shares[0].empty()) {
            bool s0 = shares[0][k].at(b).at(i), s1 = shares[1][k].at(b).at(i);
            if ((s0 ^ s1) != want) violation("wrong-shares", cat(nm, " round ", k, " row ", i, " bit ", b));
            if (real) { gShareBits++; gShareSame += s0 == want; gShareOnes += s0; }
          }
        }
      }
      count("rows_compared", d.at.size());
      // what the owner sends never contains a row
      if (real && d.width >= 8) {
        for (auto& c : tapes[d.owner]->channels) {
          std::string sent;
          for (auto& m : c->log) if (m.sent) sent.append(m.data.begin(), m.data.end());
          for (auto& row : d.rows) {
            bool flat = std::count(row.begin(), row.end(), row[0]) > (long)row.size() / 3; // constant rows may occur by themselves
            if (flat) continue;
            count("rows_sought");
            if (sent.find(std::string(row.begin(), row.begin() + 8)) != std::string::npos) violation("row-sent-in-the-clear", cat(nm, " round ", k));
          }
        }
      }
    }
  });
  distinct(nm);
}
// sizes that do not agree are refused by the party that can see it, before any secret is exchanged
static void misfits(size_t id) {
  World w{SchedKind::NetPlain, EngineKind::Dealer, Alloc::Map, 2};
  auto nm = cat("misfit #", id);
  auto r = rng(nm);
  int kind = id % 5;
  runCase(nm, [&] {
    auto net = memNet(2, {});
    const uint64_t seed = r();
    onWorld(w, [&](int me, sched::IScheduler& s) {
      Rng r(seed);
      std::unique_ptr<Proc> p;
      if (me || kind < 3) p = dp::getDataProcessorFactoryWithAesCtr<0>(me, 1 - me, *net[me])->create();
      size_t width = 2 + r.below(20), rows = 2 + r.below(5);
      std::vector<B> data(rows, B(width, 7));
      if (kind < 3) { // the owner's data is at fault: nothing is needed of the peer
        if (me) return;
        if (kind == 0) data[1 + r.below(rows - 1)].push_back(1);
        if (kind == 1) data[1 + r.below(rows - 1)].pop_back();
        if (kind == 2) data.clear();
        auto before = s.getTrafficStatistics();
        bool threw = false;
        try { p->processMyData(data, 2); } catch (const std::exception&) { threw = true; }
        count("refusals");
        if (!threw) violation("misfit-accepted", cat(nm, " owner's rows, kind ", kind));
        if (s.getTrafficStatistics() != before) violation("misfit-late", nm);
        return;
      }
      // a row the owner does not have is asked for, first or last
      if (me == 0) {
        dp::UdpEncryption e(net[0]->create(1, "data_processor_traffic")); // only the transfer: the peer goes no further
        e.prepareToProcessMyData(width);
        std::vector<uint64_t> i(rows);
        std::iota(i.begin(), i.end(), 0);
        e.processMyData(data, i);
        return;
      }
      auto before = s.getTrafficStatistics();
      bool threw = false;
      std::vector<uint64_t> at = {0, rows - 1};
      at[kind - 3] = rows + (r.coin() ? 0 : r.coin() ? 1000 : 1ull << 32);
      try { p->processPeersData(rows, at, width); } catch (const std::exception&) { threw = true; }
      count("refusals");
      if (!threw) violation("misfit-accepted", cat(nm, " row beyond the data asked for"));
      if (s.getTrafficStatistics() != before) violation("misfit-late", nm);
    });
  });
  distinct(nm);
}
void vfMain() {
  Switch::install<0>();
  World ws[] = {{SchedKind::NetPlain, EngineKind::Dealer, Alloc::Map, 2}, {SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2}, {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2}};
  for (auto& w : ws) {
    for (size_t k = 0; k < n(10, 60); k++) session(true, w, k);
    for (size_t k = 0; k < n(10, 100); k++) session(false, w, k);
    if (w.s != SchedKind::Lazy || thorough()) {
      for (size_t big : {1, 70, 300, 1100}) for (size_t k = 0; k < n(1, 4); k++) { session(true, w, k, big); session(false, w, k, big); }
    }
  }
  for (size_t k = 0; k < n(20, 100); k++) misfits(k);
  runCase("shares", [&] {
    long all = gShareBits;
    count("share_bits", all);
    if (all > 1000 && (off(gShareSame, all) || off(gShareOnes, all))) violation("shares-not-random", cat("of ", all, " share bits ", gShareOnes.load(), " are set and ", gShareSame.load(), " equal the value"));
  });
}
