// C30: public randomness drawn by two parties.
#include <openssl/sha.h>
#include <cstring>
#include "net.h"
#include "stat.h"
#include "fbpcf/mpc_std_lib/util/secureSamplePublicSeed.h"
using namespace vf;
namespace ut = fbpcf::mpc_std_lib::util;
using Bytes = std::vector<unsigned char>;
static Bytes m128(__m128i x) { Bytes b(16); memcpy(b.data(), &x, 16); return b; }
static std::string hex(const Bytes& b) { std::string r; char t[3]; for (auto x : b) { snprintf(t, 3, "%02x", x); r += t; } return r; }
static Bytes operator^(Bytes a, const Bytes& b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; return a; }
static Bytes bytes(Rng& r, size_t n) { Bytes b(n); for (auto& x : b) x = (unsigned char)r(); return b; }
static Bytes digest(const Bytes& b) { Bytes d(32); SHA256(b.data(), b.size(), d.data()); return d; }

// everything ever contributed, over the whole run
static std::mutex gm;
static std::set<Bytes> gSeen;
static Bits gBits[3];
static void fresh(const std::string& nm, const char* what, const Bytes& b, int stream) {
  std::lock_guard<std::mutex> g(gm);
  count("contributions");
  if (!gSeen.insert(b).second) violation("contribution-repeats", cat(nm, ": ", what, " ", hex(b)));
  for (auto x : b) for (int i = 0; i < 8; i++) gBits[stream].add(x >> i & 1);
}

static void honest(size_t id) {
  std::string nm = cat("honest #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    auto tapes = newTapes(2, true, r.oneIn(2) ? 200 : 0, id);
    auto net = memNet(2, tapes);
    int first = r.coin();
    size_t draws = 1 + r.below(4);
    std::vector<Bytes> got[2];
    if (!parties(2, "party-died", [&](int me) {
          auto a = net[me]->create(1 - me, "seed");
          for (size_t k = 0; k < draws; k++) got[me].push_back(m128(ut::secureSamplePublicSeed((me == first) != (k % 2 == 1), *a)));
        })) return;
    // what each party sent, and whether it told its contribution too early
    for (size_t k = 0; k < draws; k++) {
      count("seeds_compared");
      if (got[0][k] != got[1][k]) violation("seeds-differ", cat(nm, " draw ", k, ": ", hex(got[0][k]), " and ", hex(got[1][k])));
      fresh(nm, "seed", got[0][k], 2);
    }
    distinct(nm);
  });
}
// the first sender is real
static void scriptedSecond(size_t id) {
  std::string nm = cat("real first #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    auto net = memNet(2, {});
    Bytes got, commit, open, mine = r.oneIn(5) ? Bytes(16) : bytes(r, 16);
    if (!parties(2, "party-died", [&](int me) {
          auto a = net[me]->create(1 - me, "seed");
          if (me == 0) { got = m128(ut::secureSamplePublicSeed(true, *a)); return; }
          commit = a->receive(32);
          a->send(mine);
          open = a->receive(32);
        })) return;
    count("protocols_followed");
    if (digest(open) != commit) violation("commitment", cat(nm, ": ", hex(commit), " is not of ", hex(open)));
    Bytes s(open.begin(), open.begin() + 16), salt(open.begin() + 16, open.end());
    if ((s ^ mine) != got) violation("seed-contributions", cat(nm, ": ", hex(s), " and ", hex(mine), " gave ", hex(got)));
    // the commitment hides: not the digest of the contribution alone
    if (digest(s) == commit || std::search(commit.begin(), commit.end(), s.begin(), s.begin() + 8) != commit.end()) violation("commitment-tells", nm);
    fresh(nm, "first contribution", s, 0); fresh(nm, "salt", salt, 1);
    distinct(nm);
  });
}
// the second sender is real; how = what the scripted first one does wrong
static Bytes gReplay;
static void scriptedFirst(size_t id) {
  std::string nm = cat("real second #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    auto net = memNet(2, {});
    static const char* hows[] = {"honest", "bit of the contribution", "bit of the salt", "bit of the commitment", "other contribution", "other salt", "bytes exchanged", "halves swapped", "chosen after", "commitment to the contribution alone", "all zero commitment", "byte of the commitment", "first half of the commitment", "second half of the commitment", "last byte of the commitment", "last byte of the salt"};
    int how = id % 3 == 0 ? 0 : (int)(1 + (id / 3 * 2 + id % 3 - 1) % 15);
    Bytes open = r.oneIn(6) ? Bytes(32) : bytes(r, 32), commit = digest(open), theirs, got;
    bool threw = false;
    switch (how) {
      case 3: commit[r.below(32)] ^= 1 << r.below(8); break;
      case 9: commit = digest(Bytes(open.begin(), open.begin() + 16)); break;
      case 10: commit = Bytes(32); break;
      case 11: commit[r.below(32)] += 1 + r.below(255); break;
      case 12: for (int i = 0; i < 16; i++) commit[i] ^= 1 + r.below(255); break;
      case 13: for (int i = 16; i < 32; i++) commit[i] ^= 1 + r.below(255); break;
      case 14: commit[31] ^= 1 << r.below(8); break;
      default: break;
    }
    if (!parties(2, "party-died", [&](int me) {
          auto a = net[me]->create(1 - me, "seed");
          if (me == 1) { try { got = m128(ut::secureSamplePublicSeed(false, *a)); } catch (const std::exception&) { threw = true; } return; }
          a->send(commit);
          theirs = a->receive(16);
          switch (how) {
            case 1: open[r.below(16)] ^= 1 << r.below(8); break;
            case 2: open[16 + r.below(16)] ^= 1 << r.below(8); break;
            case 4: for (int i = 0; i < 16; i++) open[i] ^= 1 + r.below(255); break;
            case 5: for (int i = 16; i < 32; i++) open[i] ^= 1 + r.below(255); break;
            case 6: { size_t i = r.below(31); if (open[i] == open[i + 1]) open[i + 1]++; else std::swap(open[i], open[i + 1]); break; }
            case 7: std::rotate(open.begin(), open.begin() + 16, open.end()); if (digest(open) == commit) open[0] ^= 1; break;
            case 8: { Bytes want(16, 0x42); auto s = want ^ theirs; std::copy(s.begin(), s.end(), open.begin()); break; }
            case 15: open[31] ^= 1 << r.below(8); break;
            default: break;
          }
          a->send(open);
        })) return;
    fresh(nm, "second contribution", theirs, 0);
    if (how == 0) {
      count("protocols_followed");
      if (threw) violation("honest-refused", nm);
      else if ((Bytes(open.begin(), open.begin() + 16) ^ theirs) != got) violation("seed-contributions", cat(nm, ": ", hex(open), " and ", hex(theirs), " gave ", hex(got)));
    } else {
      count("alterations");
      if (!threw) violation("cheating-accepted", cat(nm, ": ", hows[how], ", seed ", hex(got)));
    }
    distinct(cat(nm, how));
  });
}
// two real parties, one bit of the commitment or of what it opens to is changed on the way
static void inTransit(size_t bit) {
  std::string nm = cat("bit ", bit, " changed on the way");
  runCase(nm, [&] {
    auto a = memNet(2, {}), b = memNet(2, {});
    bool threw = false;
    if (!parties(3, "party-died", [&](int me) {
          if (me == 0) { auto x = a[0]->create(1, "seed"); ut::secureSamplePublicSeed(true, *x); }
          else if (me == 1) { auto x = b[1]->create(0, "seed"); try { ut::secureSamplePublicSeed(false, *x); } catch (const std::exception&) { threw = true; } }
          else {
            auto x = a[1]->create(0, "seed"), y = b[0]->create(1, "seed");
            Bytes c = x->receive(32); if (bit < 256) c[bit / 8] ^= 1 << bit % 8; y->send(c);
            x->send(y->receive(16));
            Bytes o = x->receive(32); if (bit >= 256 && bit < 512) o[bit / 8 - 32] ^= 1 << bit % 8; y->send(o);
          }
        })) return;
    count("alterations");
    if (threw != (bit < 512)) violation(threw ? "honest-refused" : "cheating-accepted", nm);
    distinct(nm);
  });
}
// nothing of the contribution may be said before the other side is bound or has spoken
static void order(size_t id) {
  std::string nm = cat("order #", id);
  runCase(nm, [&] {
    auto tapes = newTapes(2, true, 100, id);
    auto net = memNet(2, tapes);
    if (!parties(2, "party-died", [&](int me) { auto a = net[me]->create(1 - me, "seed"); ut::secureSamplePublicSeed(me == 0, *a); })) return;
    count("orders_checked", 2);
    auto& f = tapes[0]->channels[0]->log; auto& s = tapes[1]->channels[0]->log;
    Bytes before, after; bool heard = false; size_t told = 0;
    for (auto& m : f) { if (!m.sent) { heard = true; continue; } auto& d = heard ? after : before; d.insert(d.end(), m.data.begin(), m.data.end()); }
    if (before.size() != 32 || after.size() != 32 || digest(after) != before) violation("opened-too-early", cat(nm, ": sent ", hex(before), " before and ", hex(after), " after hearing from the peer"));
    size_t in = 0;
    for (auto& m : s) { if (m.sent) { told += m.data.size(); if (in < 32) violation("spoke-before-commitment", nm); } else in += m.data.size(); }
    if (told != 16) violation("second-says", cat(nm, " ", told));
    distinct(nm);
  });
}
void vfMain() {
  for (size_t i = 0; i < n(200, 3000); i++) { honest(i); scriptedSecond(i); }
  for (size_t i = 0; i < n(300, 4500); i++) scriptedFirst(i);
  for (size_t i = 0; i < n(50, 500); i++) order(i);
  for (size_t i = 0; i <= 512; i++) inTransit(i);
  runCase("all contributions", [] {
    uniform("contribution-bias", "contributions", gBits[0]); uniform("salt-bias", "salts", gBits[1]); uniform("seed-bias", "seeds", gBits[2]);
    distinct("all");
  });
}
