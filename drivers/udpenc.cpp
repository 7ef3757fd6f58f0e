// C25: streamed row encryption: selection, order, freshness, shards, files, misuse.
#include <set>
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpDecryption.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.h"
#include "switch.h"
using namespace vf;
namespace dp = fbpcf::mpc_std_lib::unified_data_process::data_processor;
using B = std::vector<unsigned char>;
using Res = dp::IUdpEncryption::EncryptionResults;
using Key = std::vector<__m128i>;
static std::string raw(const __m128i& x) { return std::string((const char*)&x, 16); }
static bool same(const std::vector<__m128i>& a, const std::vector<__m128i>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 16 * a.size())); }
static bool same(const Res& a, const Res& b) { return a.ciphertexts == b.ciphertexts && a.indexes == b.indexes && same(a.nonces, b.nonces); }
template <class F> static void refuse(const std::string& what, F f) {
  bool threw = false;
  try { f(); } catch (const std::exception&) { threw = true; }
  count("refusals");
  if (!threw) violation("misuse-accepted", what);
}

struct Stream { size_t width; std::vector<std::vector<B>> rows; std::vector<std::vector<uint64_t>> idx; std::vector<uint64_t> want; size_t absent; };
static Stream gen(Rng& r, bool wide, int big = 0) {
  Stream s;
  s.width = r.oneIn(4) ? 16 * (1 + r.below(2)) : 1 + r.below(r.oneIn(3) ? 50 : 20);
  size_t batches = big == 3 ? 140 : big ? 2 : 1 + r.below(5);
  if (big == 1) s.width = 1 + r.below(17);
  if (big == 2) s.width = 600 + r.below(700);
  int style = r.below(3);
  uint64_t base = wide ? (r.oneIn(3) ? 1ull << 31 : r.oneIn(2) ? 1ull << 32 : r.edgy(60)) : 0;
  std::set<uint64_t> used;
  std::vector<uint64_t> all;
  uint64_t next = base;
  for (size_t b = 0; b < batches; b++) {
    size_t rows = big == 1 && b == 0 ? 1030 + r.below(300) : 1 + r.below(big ? 3 : r.oneIn(4) ? 30 : 6);
    s.rows.emplace_back();
    s.idx.emplace_back();
    for (size_t i = 0; i < rows; i++) {
      B v(s.width);
      for (auto& x : v) x = style == 0 ? 0x55 : r();
      s.rows.back().push_back(v);
      uint64_t at = next++;
      if (wide && r.oneIn(3) && !all.empty()) at = all[r.below(all.size())] + ((uint64_t)(1 + r.below(5)) << 32); // alike in the low bits
      else if (wide && r.oneIn(5)) at = r.edgy(62);
      while (!used.insert(at).second) at++;
      s.idx.back().push_back(at);
      all.push_back(at);
    }
    if (r.oneIn(3)) { // any order within a batch
      r.shuffle(s.idx.back());
    }
  }
  s.want = all;
  r.shuffle(s.want);
  size_t take = r.oneIn(5) ? all.size() : r.oneIn(10) ? 0 : 1 + r.below(all.size());
  s.want.resize(take);
  s.absent = 0;
  if (r.oneIn(6)) { // a row that never comes
    uint64_t at = wide ? all[0] + (7ull << 32) : next + r.below(5);
    while (used.count(at)) at++;
    s.want.insert(s.want.begin() + r.below(s.want.size() + 1), at);
    s.absent = 1;
  }
  return s;
}
static B rowOf(const Stream& s, uint64_t at) {
  for (size_t b = 0; b < s.idx.size(); b++)
    for (size_t i = 0; i < s.idx[b].size(); i++) if (s.idx[b][i] == at) return s.rows[b][i];
  return {};
}
static std::vector<B> rowsOf(const std::vector<std::vector<bool>>& v, size_t rows, size_t width) {
  std::vector<B> o(rows, B(width));
  for (size_t b = 0; b < 8 * width; b++) for (size_t i = 0; i < rows; i++) o[i][b / 8] |= v.at(b).at(i) << (b % 8);
  return o;
}
// the whole blocks of what hides a row: none is used for another row of the same key
struct Masks {
  std::map<std::string, std::pair<uint64_t, size_t>> seen;
  void add(const std::string& nm, uint64_t row, const B& cipher, const B& plain) {
    for (size_t b = 0; 16 * (b + 1) <= cipher.size() && cipher.size() == plain.size(); b++) {
      std::string m;
      for (size_t j = 0; j < 16; j++) m += (char)(cipher[16 * b + j] ^ plain[16 * b + j]);
      count("masks_compared");
      auto [it, fresh] = seen.insert({m, {row, b}});
      if (!fresh) { violation("mask-repeats", cat(nm, " row ", row, " block ", b, " is hidden as row ", it->second.first, " block ", it->second.second)); return; }
    }
  }
};
static void session(const World& w, size_t id, int big = 0) {
  auto r = rng(cat("udpenc", w.str(), id, "/", big));
  bool wide = r.coin();
  size_t rounds = big ? 1 : 1 + r.below(3);
  std::vector<Stream> st[2]; // of either owner
  std::string what;
  for (size_t k = 0; k < rounds; k++) for (int p = 0; p < 2; p++) {
    st[p].push_back(gen(r, wide, p == (int)(id & 1) ? big : 0));
    auto& s = st[p].back();
    what += cat(" ", s.rows.size(), "x", s.width, "->", s.want.size(), s.absent ? "!" : "");
  }
  auto nm = cat("stream ", w.str(), wide ? " wide #" : " #", id, what);
  runCase(nm, [&] {
    auto net = memNet(2, {});
    auto dir = scratchDir();
    std::vector<Res> res[2]; // received by
    std::vector<Key> keys[2]; // of the owner
    uint64_t seed = r();
    int shards[8], to[8];
    for (auto& x : shards) x = r.coin() ? 1 : 1 + r.below(4);
    for (auto& x : to) x = r.below(2);
    onWorld(w, [&](int me, sched::IScheduler&) {
      dp::UdpEncryption e(net[me]->create(1 - me, "udp"));
      dp::UdpDecryption<0> d(me, 1 - me);
      Rng x(seed + me);
      auto misuseMine = [&](bool open, const Stream& s) {
        if (!open) {
          refuse(cat(nm, " processing own data unprepared"), [&] { e.processMyData(s.rows[0], s.idx[0]); });
          refuse(cat(nm, " key unprepared"), [&] { e.getExpandedKey(); });
          return;
        }
        refuse(cat(nm, " own data prepared twice"), [&] { e.prepareToProcessMyData(s.width); });
        refuse(cat(nm, " no rows"), [&] { e.processMyData({}, {}); });
        auto rows = s.rows[0];
        auto idx = s.idx[0];
        if (x.coin()) idx.push_back(idx.back() + 1); else idx.pop_back();
        refuse(cat(nm, " row numbers and rows of different counts"), [&] { e.processMyData(rows, idx); });
        auto& v = rows[x.below(rows.size())];
        if (x.coin()) v.push_back(1); else v.pop_back();
        refuse(cat(nm, " row of another width"), [&] { e.processMyData(rows, s.idx[0]); });
      };
      auto misusePeers = [&](bool open, const Stream& s) {
        if (!open) {
          refuse(cat(nm, " processing peer's data unprepared"), [&] { e.processPeerData(1); });
          refuse(cat(nm, " peer's data unprepared"), [&] { e.getProcessedData(); });
        } else refuse(cat(nm, " peer's data prepared twice"), [&] { e.prepareToProcessPeerData(s.width, s.want); });
      };
      for (size_t k = 0; k < rounds; k++) {
        auto &mine = st[me][k], &peers = st[1 - me][k];
        if (x.coin()) misuseMine(false, mine);
        if (x.coin()) misusePeers(false, peers);
        // the two directions interleave in any order
        size_t a = 0, b = 0; // steps taken
        size_t na = mine.rows.size() + 2, nb = peers.rows.size() + 2;
        bool mayRead = x.coin(); // one side at least must send before it reads
        while (a < na || b < nb) {
          bool doA = b == nb || (a < na && (x.coin() || (!mayRead && a < na - 1)));
          if (me == 0 && a < na - 1) doA = true;
          if (doA) {
            if (a == 0) e.prepareToProcessMyData(mine.width);
            else if (a < na - 1) { auto rows = mine.rows[a - 1]; e.processMyData(rows, mine.idx[a - 1]); if (rows != mine.rows[a - 1]) violation("input-changed", nm); }
            else keys[me].push_back(e.getExpandedKey());
            if (a < na - 1 && x.oneIn(3)) misuseMine(true, mine);
            a++;
          } else {
            if (b == 0) e.prepareToProcessPeerData(peers.width, peers.want);
            else if (b < nb - 1) e.processPeerData(peers.rows[b - 1].size());
            else if (peers.absent) {
              refuse(cat(nm, " a row that never came"), [&] { e.getProcessedData(); });
              res[me].push_back({});
            } else res[me].push_back(e.getProcessedData());
            if (b < nb - 1 && x.oneIn(3)) misusePeers(true, peers);
            b++;
          }
        }
        progress();
      }
      // decryption, round by round and shard by shard, from what went through files
      for (size_t k = 0; k < rounds; k++)
        for (int owner = 0; owner < 2; owner++) {
          auto& s = st[owner][k];
          if (s.absent || s.want.empty()) continue;
          int n = shards[(2 * k + owner) % 8], t = to[(k + owner) % 8];
          std::vector<B> got;
          Key key;
          std::vector<Res> parts;
          if (owner == me) {
            auto f = cat(dir, "/key", me, k);
            dp::writeExpandedKeyToFile(keys[me][k], f);
            key = dp::readExpandedKeyFromFile(f);
            if (!same(key, keys[me][k])) violation("key-file", nm);
            count("files_reread");
          } else {
            auto& full = res[me][k];
            if (full.ciphertexts.size() != s.want.size() || full.nonces.size() != s.want.size() || full.indexes.size() != s.want.size()) {
              violation("result-size", cat(nm, " round ", k, " ", full.ciphertexts.size(), "/", full.nonces.size(), "/", full.indexes.size(), " want ", s.want.size()));
            }
            if (full.indexes != s.want) violation("result-order", cat(nm, " round ", k));
            for (auto& c : full.ciphertexts) if (c.size() != s.width) violation("result-width", nm);
            auto copy = full;
            parts = dp::splitEncryptionResults(full, n);
            if (!same(copy, full)) violation("input-changed", nm);
            for (size_t i = 0; i < parts.size(); i++) {
              auto f = cat(dir, "/part", me, k, i);
              dp::writeEncryptionResultsToFile(parts[i], f);
              auto back = dp::readEncryptionResultsFromFile(f);
              if (!same(back, parts[i])) violation("result-file", nm);
              parts[i] = back;
              count("files_reread");
            }
          }
          for (int i = 0; i < n; i++) {
            size_t size = dp::getShardSize(s.want.size(), i, n);
            if (owner != me && parts.at(i).ciphertexts.size() != size) { violation("shard-size", nm); throw std::runtime_error("shard"); }
            if (!size) continue;
            auto out = owner == me ? d.decryptMyData(key, s.width, size) : d.decryptPeerData(parts[i].ciphertexts, parts[i].nonces, parts[i].indexes);
            auto v = out.openToParty(t).getValue();
            if (t == me) {
              auto rows = rowsOf(v, size, s.width);
              got.insert(got.end(), rows.begin(), rows.end());
            }
            progress();
          }
          if (t != me) continue;
          if (got.size() != s.want.size()) violation("row-count", nm);
          for (size_t i = 0; i < got.size() && i < s.want.size(); i++) {
            count("rows_compared");
            if (got[i] != rowOf(s, s.want[i])) { violation("wrong-row", cat(nm, " round ", k, " owner ", owner, " position ", i, " row ", s.want[i], " shards ", n)); break; }
          }
        }
    });
    // nothing repeats
    std::set<std::string> seen, keySeen;
    Masks masks;
    for (int p = 0; p < 2; p++)
      for (size_t k = 0; k < res[p].size() && k < rounds; k++) {
        auto& s = st[1 - p][k];
        std::map<std::string, std::set<size_t>> batchOf;
        for (size_t i = 0; i < res[p][k].ciphertexts.size(); i++) {
          auto& c = res[p][k].ciphertexts[i];
          masks.add(nm, s.want[i], c, rowOf(s, s.want[i]));
          if (c.size() >= 8) {
            count("ciphertexts_examined");
            if (!seen.insert(std::string(c.begin(), c.end())).second) violation("ciphertext-repeats", nm);
            if (c == rowOf(s, s.want[i])) violation("ciphertext-is-plain", nm);
          }
          for (size_t b = 0; b < s.idx.size(); b++) if (std::count(s.idx[b].begin(), s.idx[b].end(), s.want[i])) batchOf[raw(res[p][k].nonces[i])].insert(b);
        }
        for (auto& [nonce, bs] : batchOf) {
          if (bs.size() != 1) violation("nonce-shared-by-batches", nm);
          if (!keySeen.insert(nonce).second) violation("nonce-repeats", nm);
        }
      }
    for (int p = 0; p < 2; p++) for (auto& key : keys[p]) {
      if (key.size() != 11) violation("key-size", nm);
      else if (!keySeen.insert(raw(key[0])).second) violation("key-repeats", nm);
    }
  });
  distinct(nm);
}
// encryption without a peer
static void local(size_t id) {
  auto nm = cat("local #", id);
  auto r = rng(nm);
  runCase(nm, [&] {
    size_t rows = 1 + r.below(12), width = 1 + r.below(40);
    std::vector<B> data(rows, B(width));
    for (auto& d : data) for (auto& x : d) x = r.coin() ? r() : 0;
    __m128i key = _mm_set_epi64x(r(), r());
    std::vector<uint64_t> idx(rows);
    uint64_t off = r.oneIn(3) ? 0 : r.edgy(50);
    bool byList = r.coin();
    for (size_t i = 0; i < rows; i++) idx[i] = byList ? r.edgy(50) : off + i;
    auto enc = [&] { return byList ? dp::UdpUtil::localEncryption(data, key, idx) : off || r.coin() ? dp::UdpUtil::localEncryption(data, key, off) : dp::UdpUtil::localEncryption(data, key); };
    auto one = enc(), two = enc();
    if (one.second.size() != 16 || two.second.size() != 16) { violation("nonce-size", nm); return; }
    if (one.second == two.second) violation("nonce-repeats", nm);
    for (size_t i = 0; i < rows; i++) if (width >= 8 && one.first.at(i) == two.first.at(i)) violation("ciphertext-repeats", nm);
    Masks masks;
    std::set<uint64_t> different(idx.begin(), idx.end());
    if (different.size() == rows) for (size_t i = 0; i < rows; i++) { masks.add(nm, idx[i], one.first.at(i), data[i]); masks.add(nm, idx[i], two.first.at(i), data[i]); }
    auto bad = idx;
    bad.push_back(1);
    refuse(cat(nm, " more indexes than rows"), [&] { dp::UdpUtil::localEncryption(data, key, bad); });
    World w{SchedKind::NetPlain, EngineKind::Dealer, Alloc::Map, 2};
    auto ek = fbpcf::engine::util::Aes::expandEncryptionKey(key);
    onWorld(w, [&](int me, sched::IScheduler&) {
      dp::UdpDecryption<0> d(me, 1 - me);
      auto out = me == 0 ? d.decryptMyData(Key(ek.begin(), ek.end()), width, rows)
                         : d.decryptPeerData(one.first, std::vector<__m128i>(rows, _mm_loadu_si128((const __m128i*)one.second.data())), idx);
      auto v = out.openToParty(0).getValue();
      if (me == 0) { count("rows_compared", rows); if (rowsOf(v, rows, width) != data) violation("local-round-trip", cat(nm, byList ? " listed" : " offset ", off)); }
    });
  });
  distinct(nm);
}
// splitting and files, for any sizes
static void pieces(size_t id) {
  auto nm = cat("pieces #", id);
  auto r = rng(nm);
  runCase(nm, [&] {
    size_t rows = r.oneIn(6) ? 0 : id % 50 == 49 ? 4000 + r.below(1000) : r.below(r.oneIn(5) ? 300 : 20);
    Res e;
    for (size_t i = 0; i < rows; i++) {
      B c(r.oneIn(10) ? 0 : r.below(70));
      for (auto& x : c) x = r();
      e.ciphertexts.push_back(c);
      e.nonces.push_back(_mm_set_epi64x(r.edgy(64), r.edgy(64)));
      e.indexes.push_back(r.edgy(64));
    }
    size_t n = 1 + r.below(r.coin() ? rows + 4 : 5);
    auto copy = e;
    auto parts = dp::splitEncryptionResults(e, n);
    if (!same(copy, e)) violation("input-changed", nm);
    if (parts.size() != n) violation("shard-count", cat(nm, " ", parts.size(), " of ", n));
    Res all;
    size_t least = SIZE_MAX, most = 0;
    for (size_t i = 0; i < parts.size(); i++) {
      auto& p = parts[i];
      count("shards_compared");
      if (p.ciphertexts.size() != dp::getShardSize(rows, i, n)) violation("shard-size", cat(nm, " shard ", i));
      least = std::min(least, p.ciphertexts.size());
      most = std::max(most, p.ciphertexts.size());
      all.ciphertexts.insert(all.ciphertexts.end(), p.ciphertexts.begin(), p.ciphertexts.end());
      all.nonces.insert(all.nonces.end(), p.nonces.begin(), p.nonces.end());
      all.indexes.insert(all.indexes.end(), p.indexes.begin(), p.indexes.end());
    }
    if (!same(all, e)) violation("shards-differ", cat(nm, " ", rows, " rows in ", n));
    if (most - least > 1) violation("shards-uneven", cat(nm, " ", least, " to ", most));
    auto f = cat(scratchDir(), "/r");
    dp::writeEncryptionResultsToFile(e, f);
    if (!same(dp::readEncryptionResultsFromFile(f), e)) violation("result-file", nm);
    Key k(r.oneIn(3) ? 11 : r.below(20));
    for (auto& x : k) x = _mm_set_epi64x(r.edgy(64), r());
    dp::writeExpandedKeyToFile(k, f);
    if (!same(dp::readExpandedKeyFromFile(f), k)) violation("key-file", nm);
    count("files_reread", 2);
  });
  distinct(nm);
}
void vfMain() {
  Switch::install<0>();
  World ws[] = {{SchedKind::NetPlain, EngineKind::Dealer, Alloc::Map, 2}, {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2}};
  for (size_t k = 0; k < n(30, 600); k++) session(ws[0], k);
  for (size_t k = 0; k < n(3, 60); k++) session(ws[1], k);
  for (int big = 1; big <= 3; big++) for (size_t k = 0; k < n(2, 10); k++) session(ws[0], k, big);
  for (size_t k = 0; k < n(25, 300); k++) local(k);
  for (size_t k = 0; k < n(150, 3000); k++) pieces(k);
}
