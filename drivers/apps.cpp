// C31: the example applications.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstring>
#include <fstream>
#include "stat.h"
#include "proxy.h"
#include "switch.h"
#include <folly/json.h>
#include "example/billionaire_problem/BillionaireProblemGame.h"
#include "example/edit_distance/EditDistanceApp.h"
#include "example/edit_distance/MainUtil.h"
#include "example/edit_distance/EditDistanceGame.h"
#include "example/edit_distance/EditDistanceResults.h"
#include "example/edit_distance/Validator.h"
using namespace vf;
namespace bp = fbpcf::billionaire_problem;
namespace ed = fbpcf::edit_distance;
using Net = std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>>;

static std::unique_ptr<sched::IScheduler> sch(const World& w, int me, Net& net) { return scheduler(w.s, w.e, w.a, me, 2, *net[me], w.small); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_SLOW 1 // instrumented: the cheap engines and fewer circuits
#endif
#endif
#ifndef VF_SLOW
#define VF_SLOW 0
#endif
static World world(Rng& r, bool plain = true) {
  World w{r.coin() ? SchedKind::Lazy : SchedKind::Eager, r.oneIn(4) && !VF_SLOW ? EngineKind::Iknp : EngineKind::Dealer, r.coin() ? Alloc::ArenaUnsafe : Alloc::ArenaSafe, 2};
  if (plain && r.oneIn(5)) w.s = SchedKind::NetPlain;
  return w;
}

// ---- who is richer -----------------------------------------------------------------
struct Rich { std::vector<uint32_t> a[3], b[3]; };
template <int me> static std::vector<bool> richBatch(const World& w, Net& net, const Rich& x) {
  using G = bp::BillionaireProblemGame<me, true>;
  G g(sch(w, me, net));
  std::vector<uint32_t> none(x.a[0].size(), 0);
  typename G::AssetsLists a{x.a[0], x.a[1], x.a[2]}, b{x.b[0], x.b[1], x.b[2]}, z{none, none, none};
  return me == 0 ? g.billionaireProblem(a, z) : g.billionaireProblem(z, b); // the other's assets are not known
}
template <int me> static std::vector<bool> richSingle(const World& w, Net& net, const Rich& x) {
  using G = bp::BillionaireProblemGame<me, false>;
  G g(sch(w, me, net));
  std::vector<bool> r;
  for (size_t i = 0; i < x.a[0].size(); i++) {
    typename G::AssetsLists a{x.a[0][i], x.a[1][i], x.a[2][i]}, b{x.b[0][i], x.b[1][i], x.b[2][i]}, z{0, 0, 0};
    r.push_back(me == 0 ? g.billionaireProblem(a, z) : g.billionaireProblem(z, b));
  }
  return r;
}
// what the other party was told must not go with the truth
static void notTold(const std::string& nm, const Bits& told, const Bits& truth) {
  long t = ones(told, 0, told.n), y = ones(truth, 0, truth.n), both = 0;
  for (size_t i = 0; i < told.n; i++) both += (told.w[i / 64] & truth.w[i / 64]) >> (i % 64) & 1;
  double n = told.n, p = t / n, q = y / n, var = n * p * (1 - p) * q * (1 - q);
  count("told_bits", told.n);
  if (var > 0 && std::fabs(both - n * p * q) > kSigmas * std::sqrt(var)) violation("other-party-learns", cat(nm, " of ", told.n, " answers ", t, " told yes, ", y, " are yes, ", both, " both"));
}
static void richer(size_t id) {
  std::string nm = cat("wealth #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    bool batch = r.below(3) || id % 10 == 0;
    World w = world(r);
    bool many = id % 10 == 0;
    size_t n = many ? 1500 : batch ? 1 + r.below(r.oneIn(4) ? 500 : 40) : 1 + r.below(4);
    Bits told, truth;
    Rich x;
    for (auto* l : {&x.a[0], &x.a[1], &x.a[2], &x.b[0], &x.b[1], &x.b[2]}) for (size_t i = 0; i < n; i++) l->push_back((uint32_t)r.edgy(32) >> (i % 4 ? 2 : 0));
    for (size_t i = 0; i < n; i++) switch (r.below(5)) {
        case 0: for (int k = 0; k < 3; k++) x.b[k][i] = x.a[(k + 1) % 3][i]; break; // equal totals of other assets
        case 1: { for (int k = 0; k < 3; k++) x.b[k][i] = x.a[k][i]; auto& v = x.b[r.below(3)][i]; v += v == ~0u ? -1 : v == 0 ? 1 : r.coin() ? 1 : -1; break; }
        case 2: { for (int k = 0; k < 3; k++) x.b[k][i] = x.a[k][i]; auto& v = x.b[r.below(3)][i]; v ^= 1u << r.below(32); break; }
        default: break;
      }
    auto net = memNet(2, newTapes(2, false, r.oneIn(5) ? 40 : 0, id));
    std::vector<bool> got[2];
    if (!parties(2, "party-died", [&](int me) {
          if (batch) got[me] = me == 0 ? richBatch<0>(w, net, x) : richBatch<1>(w, net, x);
          else got[me] = me == 0 ? richSingle<0>(w, net, x) : richSingle<1>(w, net, x);
        })) return;
    for (int p = 0; p < 2; p++) if (got[p].size() != n) { violation("result-size", cat(nm, " party ", p, " ", got[p].size())); return; }
    for (size_t i = 0; i < n; i++) {
      uint64_t a = 0, b = 0;
      for (int k = 0; k < 3; k++) { a += x.a[k][i]; b += x.b[k][i]; }
      count("comparisons");
      // known finding: totals are taken modulo 2^32
      bool wrapped = (a >> 32 || b >> 32) && got[0][i] == ((uint32_t)a < (uint32_t)b);
      count(wrapped ? "wrapped_totals" : "exact_totals");
      if (got[0][i] != (a < b)) violation(wrapped ? "wealth-total-wraps" : "wrong-comparison", cat(nm, " ", w.str(), batch ? " batch" : " single", " row ", i, ": ", x.a[0][i], "+", x.a[1][i], "+", x.a[2][i], " against ", x.b[0][i], "+", x.b[1][i], "+", x.b[2][i], " told ", (int)got[0][i]));
      if (w.s != SchedKind::NetPlain) { told.add(got[1][i]); truth.add(got[0][i]); }
    }
    if (told.n >= 1500) notTold(nm, told, truth);
    distinct(nm);
  });
}

// ---- edit distance -------------------------------------------------------------------
struct Rows { std::vector<std::string> word, guess, msg; int threshold, del, ins; };
static long distanceOf(const std::string& a, const std::string& b, long ins, long del) { // plain recursion over prefixes, memoized
  std::vector<std::vector<long>> d(a.size() + 1, std::vector<long>(b.size() + 1, 0));
  for (size_t i = 0; i <= a.size(); i++) for (size_t j = 0; j <= b.size(); j++) {
      if (!i && !j) continue;
      long best = LONG_MAX;
      if (i) best = std::min(best, d[i - 1][j] + ins);
      if (j) best = std::min(best, d[i][j - 1] + del);
      if (i && j) best = std::min(best, d[i - 1][j - 1] + std::labs((long)a[i - 1] - (long)b[j - 1]));
      d[i][j] = best;
    }
  return d[a.size()][b.size()];
}
static std::string wordOf(Rng& r) {
  size_t len = r.oneIn(6) ? 0 : r.oneIn(5) ? 15 : r.below(16);
  std::string s;
  int style = r.below(4);
  for (size_t i = 0; i < len; i++) s += (char)(style == 0 ? 'a' + r.below(26) : style == 1 ? (r.coin() ? '!' : '~') : style == 2 ? 'a' + r.below(2) : '-' + (char)r.below(80)); // no comma, no blanks
  return s;
}
static Rows rowsOf(Rng& r, size_t n) {
  Rows x;
  x.ins = r.oneIn(5) ? 0 : r.oneIn(6) ? 1000000 : 1 + r.below(60);
  x.del = r.oneIn(5) ? x.ins : r.oneIn(6) ? 0 : 1 + r.below(60);
  for (size_t i = 0; i < n; i++) {
    x.word.push_back(wordOf(r));
    x.guess.push_back(wordOf(r));
    if (r.oneIn(3)) { // close to each other
      auto g = x.word.back();
      for (size_t k = r.below(3); k-- && g.size();) { size_t p = r.below(g.size()); if (r.coin()) g.erase(p, 1); else if (g.size() < 15) g.insert(p, 1, 'k'); else g[p] = 'z'; }
      x.guess.back() = g;
    }
    x.msg.push_back(wordOf(r));
  }
  // a threshold that some distance meets or just misses
  long d = distanceOf(x.word[0], x.guess[0], x.ins, x.del);
  switch (r.below(6)) {
    case 0: x.threshold = (int)d; break;
    case 1: x.threshold = (int)d + 1; break;
    case 2: x.threshold = (int)(d / 2); break;
    case 3: x.threshold = (int)(d / 2) - (d >= 2); break;
    case 4: x.threshold = 0; break;
    default: x.threshold = (int)r.below(300);
  }
  if (x.threshold < 0) x.threshold = 0;
  return x;
}
static void put(const std::string& path, const std::string& s) { std::ofstream f(path, std::ios::binary); f << s; }
// the files of one party; columns in either order, with or without the last line end
static void files(Rng r, const std::string& dir, int me, const Rows& x) {
  std::string s; bool turn = r.coin(), other = r.oneIn(3);
  if (me == 0) { s = turn ? "sender_message,word" : "word,sender_message"; if (other) s += ",notes"; s += "\n"; } else s = other ? "id,guess\n" : "guess\n";
  for (size_t i = 0; i < x.word.size(); i++) {
    if (me == 0) { s += turn ? cat(x.msg[i], ",", x.word[i]) : cat(x.word[i], ",", x.msg[i]); if (other) s += cat(",n", i); }
    else s += other ? cat(i, ",", x.guess[i]) : x.guess[i];
    s += "\n";
  }
  if (r.coin() && s[s.size() - 2] != '\n') s.pop_back();
  put(dir + cat("/data", me), s);
  static const char* orders[] = {"threshold,delete_cost,insert_cost", "insert_cost,threshold,delete_cost"};
  bool o = r.coin();
  put(dir + cat("/params", me), cat(orders[o], "\n", o ? x.ins : x.threshold, ",", o ? x.threshold : x.del, ",", o ? x.del : x.ins, "\n"));
}
template <int me> static std::string playGame(const World& w, Net& net, const std::string& dir) {
  ed::EditDistanceGame<me> g(me, sch(w, me, net));
  return g.play(ed::EditDistanceInputReader(dir + cat("/data", me), dir + cat("/params", me)));
}
template <int me> static void playApp(Net& net, const std::string& dir) {
  ed::EditDistanceApp<me> a(me, std::move(net[me]), dir + cat("/data", me), dir + cat("/params", me), dir + cat("/out", me));
  a.run();
}
static std::string readAll(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
// what the program of a party starts, over the loopback network
template <int me> static void playStarted(int port, const std::string& dir) {
  std::string ip = "127.0.0.1", data = dir + cat("/data", me), params = dir + cat("/params", me), out = dir + cat("/out", me);
  ed::startEditDistanceGame<me>(ip, port, data, params, out);
}
static void editDistance(size_t id, int app) {
  std::string nm = cat(app == 2 ? "started application #" : app ? "application #" : "edit distance #", id);
  int port = app == 2 ? freePort(1) : 0;
  runCase(nm, [&] {
    Rng r = rng(nm);
    World w = world(r);
    size_t n = 1 + r.below(r.oneIn(3) ? 60 : 12);
    Rows x = rowsOf(r, n);
    std::string dir = scratchDir();
    auto net = memNet(2, app ? std::vector<std::shared_ptr<Tape>>{} : newTapes(2, false, 0, id));
    for (int p = 0; p < 2; p++) files(rng(cat(nm, p)), dir, p, x);
    if (!parties(2, "party-died", [&](int me) {
          if (app == 2) { if (me == 0) playStarted<0>(port, dir); else playStarted<1>(port, dir); count("programs_started"); }
          else if (app) { if (me == 0) playApp<0>(net, dir); else playApp<1>(net, dir); }
          else put(dir + cat("/out", me), me == 0 ? playGame<0>(w, net, dir) : playGame<1>(w, net, dir));
        })) return;
    std::vector<folly::dynamic> shares;
    for (int p = 0; p < 2; p++) shares.push_back(folly::parseJson(readAll(dir + cat("/out", p))));
    ed::EditDistanceResults res(shares);
    if (res.editDistances.size() != n || res.receiverMessages.size() != n) { violation("result-size", nm); return; }
    std::string expected = "distance,receiver_message\n";
    std::vector<std::pair<long, std::string>> want;
    for (size_t i = 0; i < n; i++) {
      long d = distanceOf(x.word[i], x.guess[i], x.ins, x.del);
      std::string m = d < x.threshold ? x.msg[i] : d <= 2l * x.threshold ? x.msg[i].substr(0, x.msg[i].size() / 2) : "";
      want.emplace_back(d, m);
      expected += cat(d, ",", m, "\n");
      count("rows_compared"); count(d < x.threshold ? "messages_released" : d <= 2l * x.threshold ? "messages_halved" : "messages_withheld");
      auto at = [&] { return cat(nm, " ", w.str(), " word '", x.word[i], "' guess '", x.guess[i], "' insert ", x.ins, " delete ", x.del, " threshold ", x.threshold, " message '", x.msg[i], "' row ", i, " of ", n, ": "); };
      if (res.editDistances[i] != d) { violation("wrong-distance", cat(at(), res.editDistances[i], " instead of ", d)); break; }
      if (res.receiverMessages[i] != m) { violation("wrong-message", cat(at(), "'", res.receiverMessages[i], "' instead of '", m, "'")); break; }
    }
    // the validator accepts exactly this
    std::vector<std::string> outs = {dir + "/out0", dir + "/out1"};
    auto verdict = [&](const std::string& e) { put(dir + "/expected", e); return ed::Validator(outs, dir + "/expected").validate(); };
    count("validations");
    if (int v = verdict(expected); v != ed::Validator::SUCCESS) violation("validator-refuses", cat(nm, " ", v));
    std::swap(outs[0], outs[1]);
    if (int v = verdict(expected); v != ed::Validator::SUCCESS) violation("validator-refuses", cat(nm, " shares exchanged ", v));
    for (int k = 0; k < 8; k++) {
      auto t = want;
      size_t i = k < 2 ? (k ? n - 1 : 0) : r.below(n);
      bool size = false;
      switch (k < 2 ? r.below(4) : r.below(8)) {
        case 0: t[i].first += r.coin() ? 1 : -1; break;
        case 1: t[i].first ^= 1l << r.below(31); break;
        case 2: t[i].second += 'x'; break;
        case 3: if (t[i].second.empty()) t[i].second = "q"; else if (r.coin()) t[i].second.pop_back(); else t[i].second[r.below(t[i].second.size())] ^= 1; break;
        case 4: t.pop_back(); size = true; break;
        case 5: t.push_back(t[i]); size = true; break;
        case 6: t.erase(t.begin() + i); size = true; break;
        default: if (n < 2 || t[0] == t[n - 1]) { t[i].first++; break; } std::swap(t[0], t[n - 1]);
      }
      bool bad = false; std::string e = "distance,receiver_message\n";
      for (auto& [d, m] : t) { e += cat(d, ",", m, "\n"); if (m.find_first_of(", ") != std::string::npos) bad = true; }
      if (bad) continue;
      count("validations");
      int v = verdict(e);
      if (v == ed::Validator::SUCCESS || (v == ed::Validator::SIZE_MISMATCH) != size) violation("validator-verdict", cat(nm, " ", size ? "size" : "content", " changed: ", v, "\n", e));
    }
    { // a share that was tampered with
      auto j = folly::parseJson(readAll(dir + "/out0"));
      folly::dynamic d2 = folly::dynamic::array(); size_t i = r.below(n);
      for (size_t q = 0; q < n; q++) d2.push_back(j["editDistanceShares"][q].asInt() ^ (q == i ? 1 << r.below(31) : 0));
      j["editDistanceShares"] = d2;
      put(dir + "/out2", folly::toJson(j)); outs[1] = dir + "/out2"; if (outs[0] == dir + "/out0") outs[0] = dir + "/out1";
      count("validations");
      if (verdict(expected) != ed::Validator::RESULT_MISMATCH) violation("validator-verdict", cat(nm, " tampered share"));
      d2.push_back(1); j["editDistanceShares"] = d2;
      bool threw = false; std::vector<folly::dynamic> s2 = {shares[0], j};
      try { ed::EditDistanceResults z(s2); } catch (const std::exception&) { threw = true; }
      if (!threw) violation("uneven-shares-accepted", nm);
    }
    distinct(nm);
  });
}
// whether f throws, in a child process
static bool refuses(const std::function<void()>& f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1);
    signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGBUS, SIG_DFL);
    alarm(20);
    try { f(); } catch (const std::exception&) { _exit(0); }
    _exit(1);
  }
  int st = -1;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  count("refusal_probes");
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// parameters or row counts that differ, lines that do not fit: nobody gets a result
static void refusing(size_t id) {
  std::string nm = cat("refusal #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    World w = world(r, false);
    Rows x = rowsOf(r, 3), y = x;
    std::string dir = scratchDir();
    int how = id % 6;
    switch (how) {
      case 0: y.threshold += 1 + r.below(5); break;
      case 1: y.del += 1 + r.below(5); break;
      case 2: y.ins ^= 1 << r.below(30); break;
      case 3: y.word.push_back("a"); y.guess.push_back("b"); y.msg.push_back("c"); break;
      default: break;
    }
    files(rng(nm), dir, 0, x); files(rng(nm), dir, 1, y);
    count("refusals");
    if (how < 4) {
      auto net = memNet(2, {});
      bool threw[2] = {false, false};
      if (!parties(2, "party-died", [&](int me) { try { if (me == 0) playGame<0>(w, net, dir); else playGame<1>(w, net, dir); } catch (const std::exception&) { threw[me] = true; } })) return;
      if (!threw[0] || !threw[1]) violation("mismatch-accepted", cat(nm, " how ", how, " ", w.str(), " refused by ", (int)threw[0], (int)threw[1]));
    } else {
      // in a process of its own: known findings end it or make it read what is not there
      put(dir + "/e", "distance,receiver_message\n4\n"); put(dir + "/o", "{\"editDistanceShares\":[4],\"receiverMessageShares\":[\"\"]}");
      if (how == 4) {
        put(dir + "/data0", "word,sender_message\nab,cd\nef\n");
        if (!refuses([&] { ed::EditDistanceInputReader z(dir + "/data0", dir + "/params0"); })) violation("short-data-line", "the reader goes beyond the end of a data line with fewer columns than the header");
        std::vector<std::string> o = {dir + "/o"};
        if (!refuses([&] { ed::Validator(o, dir + "/e").validate(); })) violation("short-expected-line", "the validator goes beyond the end of an expected line with fewer columns than the header");
      } else {
        put(dir + "/params0", "threshold,delete_cost,insert_cost\n4,5\n");
        if (!refuses([&] { ed::EditDistanceInputReader z(dir + "/data0", dir + "/params0"); })) violation("short-params-line", "the reader goes beyond the end of a parameter line with fewer columns than the header");
        // a parameter without a column must not be whatever the memory held
        put(dir + "/params0", "threshold,delete_cost\n4,5\n");
        alignas(ed::EditDistanceInputReader) unsigned char mem[2][sizeof(ed::EditDistanceInputReader)];
        long v[2] = {0, 0};
        for (int k = 0; k < 2; k++) {
          memset(mem[k], k ? 0x11 : 0x2f, sizeof mem[k]);
          try { auto* z = new (mem[k]) ed::EditDistanceInputReader(dir + "/data0", dir + "/params0"); v[k] = z->getInsertCost(); z->~EditDistanceInputReader(); } catch (const std::exception&) {}
        }
        if (v[0] != v[1]) violation("missing-parameter-uninitialized", "a parameter without a column in the file has whatever value the memory held");
      }
    }
    distinct(nm);
  });
}
// ---- strings -------------------------------------------------------------------------
static void strings(size_t id) {
  std::string nm = cat("strings #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    World w = world(r);
    size_t n = 1 + r.below(12);
    std::vector<std::string> a, b; for (size_t i = 0; i < n; i++) { a.push_back(wordOf(r).substr(0, 9)); b.push_back(wordOf(r).substr(0, 9)); }
    if (r.coin()) for (auto& s : a) for (auto& c : s) c = (char)("`az{AZ@["[r.below(8)]);
    auto pick = r.bits(n); int to = r.coin(), from = r.coin();
    using S = ed::AsciiString<9, true, 2, true>;
    using One = ed::AsciiString<9, true, 2, false>;
    auto up = [](std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; };
    onWorld(w, [&](int me, sched::IScheduler&) {
      std::vector<std::string> none(n, "xyz"); // the other party's strings are not looked at
      S x(me == from ? a : none, from), y(me == 1 - from ? b : none, 1 - from);
      fbpcf::frontend::Bit<true, 2, true> c(me == 0 ? pick : std::vector<bool>(n), 0);
      auto u = x.toUpperCase(); auto m = x.mux(c, y);
      auto len = x.template privateSize<8>();
      auto back = w.s == SchedKind::NetPlain ? S(x) : S(x.extractAsciiStringShare());
      auto ox = x.openToParty(to), ou = u.openToParty(to), om = m.openToParty(to), ob = back.openToParty(to);
      auto ol = len.openToParty(to).getValue();
      auto vx = ox.getValue(), vu = ou.getValue(), vm = om.getValue(), vb = ob.getValue(); auto sx = ox.size(), sm = om.size();
      One s1(me == from ? a[0] : "q", from);
      auto os = s1.openToParty(to), osu = s1.toUpperCase().openToParty(to);
      auto ls = s1.template privateSize<8>().openToParty(to).getValue();
      auto vs = os.getValue(), vsu = osu.getValue();
      bool threw = false;
      try { S z({std::string(10, 'a')}, from); } catch (const std::exception&) { threw = true; }
      if (!threw) violation("long-string-accepted", nm);
      threw = false;
      try { One z(std::string(10, 'a'), from); } catch (const std::exception&) { threw = true; }
      if (!threw) violation("long-string-accepted", nm);
      if (x.getBatchSize() != n) violation("batch-size", nm);
      ed::AsciiString<9, false, 2, true> pub(b);
      if (pub.getValue() != b) violation("public-string", nm);
      auto puv = pub.toUpperCase().getValue();
      for (size_t i = 0; i < n; i++) if (puv[i] != up(b[i])) violation("public-uppercase", cat(nm, " '", b[i], "' '", puv[i], "'"));
      if (me != to) return;
      for (size_t i = 0; i < n; i++) {
        count("strings_compared");
        auto at = [&] { return cat(nm, " ", w.str(), " '", a[i], "' '", b[i], "' row ", i, ": "); };
        if (vx[i] != a[i] || sx[i] != a[i].size()) violation("string-opened", cat(at(), vx[i], " ", sx[i]));
        if (vb[i] != a[i]) violation("string-recovered", cat(at(), vb[i]));
        if (vu[i] != up(a[i])) violation("uppercase", cat(at(), vu[i]));
        if (vm[i] != (pick[i] ? b[i] : a[i]) || sm[i] != vm[i].size()) violation("mux", cat(at(), vm[i], " by ", (int)pick[i]));
        if (ol[i] != a[i].size()) violation("private-size", cat(at(), ol[i]));
      }
      if (vs != a[0] || os.size() != a[0].size() || vsu != up(a[0]) || ls != a[0].size()) violation("single-string", cat(nm, " '", a[0], "' '", vs, "' '", vsu, "' ", ls));
    });
    distinct(nm);
  });
}
void vfMain() {
  Switch::install<2>();
  for (size_t i = 0; i < n(VF_SLOW ? 12 : 42, 800); i++) richer(i);
  for (size_t i = 0; i < n(VF_SLOW ? 3 : 16, 300); i++) strings(i);
  for (size_t i = 0; i < (VF_SLOW ? 2 : n(12, 200)); i++) editDistance(i, 0);
  for (size_t i = 0; i < n(VF_SLOW ? 6 : 12, 100); i++) refusing(i);
  if (!VF_SLOW) for (size_t i = 0; i < n(1, 3); i++) { editDistance(i, 1); editDistance(i, 2); } // with the real engine
}
