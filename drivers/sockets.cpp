// C13: real sockets, plain and TLS.
#include <array>
#include <filesystem>
#include "sockets.h"
using namespace socks;

static std::unique_ptr<Pki> pki;
static Tls good;

struct Captures {
  std::mutex m;
  std::vector<std::pair<int, std::shared_ptr<Relay>>> all;
  void install(uint64_t seed, size_t chunk, uint32_t delay, bool on) {
    if (!on) { setRelayHook(nullptr); return; }
    setRelayHook([=](int port) {
      auto r = std::make_shared<Relay>();
      r->plan.maxChunk = chunk; r->plan.delayUs = delay; r->plan.seed = seed + port;
      std::lock_guard<std::mutex> g(m);
      all.push_back({port, r});
      return r;
    });
  }
};

// no 12 bytes of any message sent may be visible
static void notInClear(Captures& c, const std::vector<std::string>& secrets, const std::string& where) {
  std::unordered_set<std::string> grams;
  for (auto& s : secrets) for (size_t i = 0; i + 12 <= s.size(); i += 12) grams.insert(s.substr(i, 12));
  for (auto& [port, r] : c.all)
    for (auto& b : r->bytes) {
      for (size_t i = 0; i + 12 <= b.size(); i++)
        if (grams.count(b.substr(i, 12))) { violation("payload-in-clear", cat(where, ": byte ", i, " of a connection to a TLS server shows what was sent")); return; }
      count("captured_bytes_searched", b.size());
    }
}

static void networks() {
  auto r = rng("networks");
  for (size_t k = 0; k < n(24, 400); k++) {
    int np = (int)r.range(2, 4), chans = (int)r.range(1, 3);
    bool tls = r.coin(), relay = r.coin(), squat = r.oneIn(3);
    size_t chunk = r.coin() ? 65536 : 1 + r.below(3000);
    uint32_t delay = r.coin() ? 0 : 200;
    auto seed = r.next();
    // the older ways to make a factory stay in use
    int form = r.oneIn(2) ? 0 : (int)r.range(1, tls ? 2 : 5);
    auto shape = cat(tls ? "TLS" : "plain", " network of ", np, ", ", chans, " channels per pair", relay ? ", relayed in pieces of up to " : "", relay ? str(chunk) : "", squat ? ", ports taken" : "", ", constructor ", form, ", case ", k);
    runCase(shape, [&] {
      Captures cap;
      cap.install(seed, chunk, delay, relay);
      std::map<std::pair<int, int>, int> port;
      std::vector<int> squatters;
      for (int i = 0; i < np; i++) for (int j = i + 1; j < np; j++) {
        int p = freePort(6);
        port[{i, j}] = p;
        // someone else sits on the port the next connection would use
        if (squat) squatters.push_back(listenOn(p + 1 + (int)(seed % 2)));
      }
      std::map<std::tuple<int, int, int>, AgentPtr> ag;
      std::vector<std::unique_ptr<Factory>> f(np);
      std::mutex m;
      auto metrics = std::make_shared<fbpcf::util::MetricCollector>("sockets");
      parties(np, "connect", [&](int me) {
        std::map<int, Factory::PartyInfo> info;
        for (int p = 0; p < np; p++) if (p != me) info[p] = {"127.0.0.1", port[{std::min(me, p), std::max(me, p)}]};
        auto collector = std::make_shared<fbpcf::util::MetricCollector>(cat("party", me));
        auto who = tls ? good : noTls();
        auto fac = form == 0 ? std::make_unique<Factory>(me, info, who, collector, 20)
          : form == 1 ? std::make_unique<Factory>(me, info, who, collector)
          : form == 2 ? std::make_unique<Factory>(me, info, who, cat("party", me))
          : form == 3 ? std::make_unique<Factory>(me, info, collector)
          : form == 4 ? std::make_unique<Factory>(me, info, cat("party", me))
          : std::make_unique<Factory>(me, info, false, std::string("/nowhere"), cat("party", me));
        count(form ? "older_factories" : "factories");
        for (int c = 0; c < chans; c++)
          for (int p = 0; p < np; p++) if (p != me) {
            auto a = fac->create(p, cat("channel ", c, " to ", p));
            std::lock_guard<std::mutex> g(m);
            ag[{me, p, c}] = std::move(a);
          }
        for (int bad : {me, np, -1}) {
          bool refused = false;
          try { fac->create(bad, "x"); } catch (const std::exception&) { refused = true; }
          check(refused, "unknown-party", [&] { return cat("party ", me, " connected to ", bad); });
          count("refusals");
        }
        std::lock_guard<std::mutex> g(m);
        f[me] = std::move(fac);
      });
      std::vector<streams::Link> links;
      for (int i = 0; i < np; i++) for (int j = i + 1; j < np; j++) for (int c = 0; c < chans; c++)
        links.push_back({{ag[{i, j, c}].get(), ag[{j, i, c}].get()}, cat(tls ? "TLS " : "", "parties ", i, "-", j, " channel ", c)});
      // a marked message over every link, in both directions, for the search of the captures
      std::vector<std::string> marks;
      for (size_t i = 0; i < links.size() * 2; i++) marks.push_back(contentStr(seed + i * 1000003, 12 * 20));
      parties((int)links.size() * 2, "network-channel", [&](int t) {
        auto& a = *links[t / 2].end[t & 1];
        auto& mine = marks[t];
        a.send({mine.begin(), mine.end()});
        auto got = a.receive(marks[t ^ 1].size());
        check(std::string(got.begin(), got.end()) == marks[t ^ 1], "mixed-connections", [&] { return links[t / 2].name; });
      });
      dialogue(links, Rng(seed), 25, k % 6 == 0 && chunk > 10000 ? 3000000 : 20000, "network-channel");
      if (!tls) {
        streams::Opt o;
        o.bytes = 3000; o.typed = 15; o.maxItems = 200; o.delayUs = delay;
        streams::exercise(links, o, seed, "network-channel");
      }
      // totals as reported by both ends, as in-process channels report them
      for (auto& l : links) {
        auto x = l.end[0]->getTrafficStatistics(), y = l.end[1]->getTrafficStatistics();
        check(x.first == y.second && x.second == y.first, "traffic-totals", [&] { return cat(l.name, " ", x.first, "/", x.second, " against ", y.first, "/", y.second); });
      }
      count("channels", links.size());
      ag.clear();
      f.clear();
      setRelayHook(nullptr);
      joinRelays();
      if (tls) notInClear(cap, marks, shape);
      if (relay) {
        check(cap.all.size() == links.size() + np * (np - 1) / 2, "connections", [&] { return cat(cap.all.size(), " connections for ", links.size(), " channels"); });
        count("connections_captured", cap.all.size());
      }
      for (int s : squatters) close(s);
      distinct(shape);
    });
  }
}

// who is accepted
static void certificates() {
  auto r = rng("certificates");
  struct Case { std::string name; Tls server, client; bool ok; };
  std::vector<Case> cs;
  auto with = [&](Tls t, const std::string& ca) { t.rootCaCertPath = ca; return t; };
  auto byOther = pki->make("byother", "127.0.0.1", pki->other, "pw");
  auto wrongName = pki->make("wrongname", "10.1.2.3", pki->good, "pw");
  auto nearName = pki->make("nearname", "127.0.0.10", pki->good, "pw");
  auto expired = pki->make("expired", "127.0.0.1", pki->good, "pw", -7200, -3600);
  auto future = pki->make("future", "127.0.0.1", pki->good, "pw", 3600, 7200);
  Tls self = good;
  { auto* k = newKey(); auto* c = newCert(k, "127.0.0.1", k, nullptr, false); writeCert(pki->dir + "/self.cert", c); writeKey(pki->dir + "/self.key", k, ""); writeText(pki->dir + "/self.pass", ""); self.certPath = pki->dir + "/self.cert"; self.keyPath = pki->dir + "/self.key"; self.passphrasePath = pki->dir + "/self.pass"; }
  // issued by something that merely carries the root's name
  Ca fake = newCa("good root");
  auto byFake = pki->make("byfake", "127.0.0.1", fake, "pw");
  auto noPass = pki->make("nopass", "127.0.0.1", pki->good, "");
  std::string longPass(200, 'x');
  auto longP = pki->make("longpass", "127.0.0.1", pki->good, longPass);
  auto words = pki->make("words", "127.0.0.1", pki->good, "several words of passphrase");
  auto spelled = [&](Tls t, const std::string& name, const std::string& text) { t.passphrasePath = pki->dir + "/" + name; writeText(t.passphrasePath, text); return t; };
  cs.push_back({"good", good, good, true});
  cs.push_back({"passphrase of several words", words, good, true});
  cs.push_back({"passphrase line with a line break", spelled(words, "lf.pass", "several words of passphrase\n"), good, true});
  cs.push_back({"passphrase line with blanks around it", spelled(good, "blanks.pass", "\n  test_passphrase \r\n"), good, true});
  cs.push_back({"first word of the passphrase", spelled(words, "first.pass", "several\n"), good, false});
  cs.push_back({"passphrase beyond any buffer", spelled(good, "huge.pass", std::string(5000, 'y')), good, false});
  cs.push_back({"key without passphrase", noPass, good, true});
  cs.push_back({"long passphrase", longP, good, true});
  cs.push_back({"self-signed and trusted", self, with(good, self.certPath), true});
  cs.push_back({"other root trusted", byOther, with(good, pki->dir + "/otherca.pem"), true});
  cs.push_back({"issued by another root", byOther, good, false});
  cs.push_back({"client trusts another root", good, with(good, pki->dir + "/otherca.pem"), false});
  cs.push_back({"client trusts no root", good, with(good, ""), false});
  cs.push_back({"root file missing", good, with(good, pki->dir + "/nothing.pem"), false});
  cs.push_back({"self-signed", self, good, false});
  cs.push_back({"issued by an impostor of the root", byFake, good, false});
  cs.push_back({"name of another host", wrongName, good, false});
  cs.push_back({"name that only starts alike", nearName, good, false});
  cs.push_back({"expired", expired, good, false});
  cs.push_back({"not yet valid", future, good, false});
  auto wrongKey = good; wrongKey.keyPath = noPass.keyPath;
  cs.push_back({"key of another certificate", wrongKey, good, false});
  auto wrongPass = good; wrongPass.passphrasePath = longP.passphrasePath;
  cs.push_back({"wrong passphrase", wrongPass, good, false});
  for (size_t rep = 0; rep < n(1, 10); rep++)
    for (auto& c : cs)
      runCase(cat("certificate: ", c.name, " ", rep), [&] {
        // a server that cannot read its own key never answers: short wait
        auto p = connectPair(c.server, c.client, "127.0.0.1", 2);
        count("handshakes");
        if (c.ok) {
          check(p.end[0] && p.end[1], "good-certificate-refused", [&] { return cat(c.name, ": ", p.error[0], " / ", p.error[1]); });
          if (p.end[0] && p.end[1]) dialogue({{{p.end[0].get(), p.end[1].get()}, c.name}}, Rng(r.next()), 6, 20000, "dialogue");
        } else {
          check(!p.end[1], "certificate-accepted", [&] { return c.name; });
          count("bad_certificates_refused");
        }
        distinct(c.name);
      });
}

// connections that take their certificate from a folder
static void folders() {
  auto r = rng("folders");
  auto dir = scratchDir();
  auto fill = [&](const std::string& d, const Tls& t) {
    std::filesystem::create_directories(d);
    std::filesystem::copy_file(t.certPath, d + "/cert.pem");
    std::filesystem::copy_file(t.keyPath, d + "/key.pem");
    std::filesystem::copy_file(t.passphrasePath, d + "/passphrase.pem");
  };
  fill(dir + "/plainkey", pki->make("inplain", "127.0.0.1", pki->good, ""));
  fill(dir + "/locked", good);
  fill(dir + "/words", pki->make("inwords", "127.0.0.1", pki->good, "some  words"));
  fill(dir + "/mixed", [&] { auto t = good; t.keyPath = pki->make("another", "127.0.0.1", pki->good, "").keyPath; return t; }());
  fill(dir + "/wrongpass", [&] { auto t = good; t.passphrasePath = pki->make("third", "127.0.0.1", pki->good, "other words").passphrasePath; return t; }());
  std::filesystem::create_directories(dir + "/empty");
  for (size_t k = 0; k < n(12, 96); k++) {
    const char* where[] = {"plainkey", "locked", "words", "mixed", "wrongpass", "empty"};
    std::string d = where[k % 6];
    bool ok = k % 6 < 3, tls = k % 12 != 1;
    auto seed = r.next();
    runCase(cat("folder ", d, tls ? "" : " (plain)", " ", k), [&] {
      Captures cap;
      cap.install(seed, 1 + seed % 3000, 0, true);
      Pair p;
      int port = freePort(1), ls = listenOn(port);
      for (int i = 0; i < 2; i++) p.rec[i] = std::make_shared<Recorder>();
      auto err = partiesCatch(2, [&](int i) {
        if (i == 0) {
          try { p.end[0] = std::make_unique<Agent>(ls, port, tls, dir + "/" + d, p.rec[0]); }
          catch (...) { close(ls); throw; }
        } else if (ok) p.end[1] = std::make_unique<Agent>("127.0.0.1", port, tls, dir + "/" + d, p.rec[1]);
      });
      if (!ok) {
        check(!p.end[0], "unusable-folder", [&] { return d; });
        count("unusable_folders_refused");
      } else if (check(p.end[0] && p.end[1], "good-folder-refused", [&] { return cat(d, ": ", err[0], " / ", err[1]); }); p.end[0] && p.end[1]) {
        std::string mark = contentStr(seed, 12 * 30);
        parties(2, "folder-channel", [&](int i) {
          auto m = contentStr(seed + i, 12 * 30), o = contentStr(seed + 1 - i, 12 * 30);
          p.end[i]->send({m.begin(), m.end()});
          auto got = p.end[i]->receive(o.size());
          check(std::string(got.begin(), got.end()) == o, "stream-content", [&] { return d; });
        });
        dialogue({{{p.end[0].get(), p.end[1].get()}, d}}, Rng(seed), 12, 20000, "dialogue");
        auto x = p.rec[0]->getTrafficStatistics(), y = p.rec[1]->getTrafficStatistics();
        check(x.first == y.second && x.second == y.first, "traffic-totals", [&] { return d; });
        for (auto& e : p.end) e.reset();
        setRelayHook(nullptr);
        joinRelays();
        if (tls) notInClear(cap, {contentStr(seed, 360), contentStr(seed + 1, 360)}, d);
        count("folder_connections");
      }
      setRelayHook(nullptr);
      joinRelays();
      distinct(cat("folder ", d, tls));
    });
  }
  // a network given a folder has no root to trust: its clients accept nobody
  for (size_t k = 0; k < n(1, 4); k++)
    runCase(cat("folder network ", k), [&] {
      int port = freePort(6);
      std::unique_ptr<Factory> f[2];
      partiesCatch(2, [&](int me) {
        std::map<int, Factory::PartyInfo> info{{1 - me, {"127.0.0.1", port}}};
        f[me] = std::make_unique<Factory>(me, info, true, dir + "/locked", cat("party", me));
      });
      check(!f[1], "certificate-accepted", [&] { return "a client given no root"; });
      count("rootless_clients_refused");
    });
}

static void mismatch() {
  // the paths built from command line arguments
  runCase("arguments", [&] {
    auto old = getenv("HOME") ? std::string(getenv("HOME")) : "";
    setenv("HOME", "/some/home", 1);
    auto t = comm::getTlsInfoFromArgs(true, "ca", "cert", "key", "pass");
    check(t.useTls && t.rootCaCertPath == "/some/home/ca" && t.certPath == "/some/home/cert" && t.keyPath == "/some/home/key" && t.passphrasePath == "/some/home/pass", "argument-paths", [&] { return t.rootCaCertPath + " " + t.certPath + " " + t.keyPath + " " + t.passphrasePath; });
    t = comm::getTlsInfoFromArgs(false, "ca", "cert", "key", "pass");
    check(!t.useTls, "argument-paths", [&] { return "TLS on without being asked for"; });
    setenv("HOME", old.c_str(), 1);
  });
}

void vfMain() {
  signal(SIGPIPE, SIG_IGN);
  pki = std::make_unique<Pki>(scratchDir());
  good = pki->make("server", "127.0.0.1", pki->good, "test_passphrase");
  networks();
  certificates();
  folders();
  mismatch();
}
