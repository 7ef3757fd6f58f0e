// Networks of socket agents for C13 and C14.
#pragma once
#include "fbpcf/engine/communication/SocketPartyCommunicationAgent.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"
#include <signal.h>
#include "certs.h"
#include "proxy.h"
#include "streams.h"

namespace socks {
using namespace vf;
using Agent = comm::SocketPartyCommunicationAgent;
using Factory = comm::SocketPartyCommunicationAgentFactory;
using Tls = Agent::TlsInfo;
using Recorder = comm::PartyCommunicationAgentTrafficRecorder;

struct Pki {
  std::string dir;
  Ca good, other;
  explicit Pki(const std::string& d) : dir(d), good(newCa("good root")), other(newCa("other root")) {
    writeCert(dir + "/ca.pem", good.cert);
    writeCert(dir + "/otherca.pem", other.cert);
  }
  // a server identity: name of the files
  Tls make(const std::string& name, const std::string& cn, const Ca& by, const std::string& pass, long from = -60, long to = 86400) {
    auto* k = newKey();
    auto* c = newCert(k, cn, by.key, by.cert, false, from, to);
    writeCert(dir + "/" + name + ".cert", c);
    writeKey(dir + "/" + name + ".key", k, pass);
    writeText(dir + "/" + name + ".pass", pass);
    return Tls{true, dir + "/" + name + ".cert", dir + "/" + name + ".key", dir + "/" + name + ".pass", dir + "/ca.pem"};
  }
};
inline Tls noTls() { return Tls{false, "", "", "", ""}; }

// both ends of one direct connection; an end that failed is null and `error` says why
struct Pair { std::unique_ptr<Agent> end[2]; std::shared_ptr<Recorder> rec[2]; std::string error[2]; };
inline Pair connectPair(Tls server, Tls client, const std::string& host = "127.0.0.1", int timeout = 20) {
  Pair p;
  int port = freePort(1);
  int ls = listenOn(port);
  for (int i = 0; i < 2; i++) p.rec[i] = std::make_shared<Recorder>();
  auto err = partiesCatch(2, [&](int i) {
    if (i == 0) {
      try {
        p.end[0] = std::make_unique<Agent>(ls, port, server, p.rec[0], timeout);
      } catch (...) {
        // what the end of the failed process would do
        int on = 0; socklen_t l = sizeof on;
        if (!getsockopt(ls, SOL_SOCKET, SO_ACCEPTCONN, &on, &l) && on) close(ls);
        throw;
      }
    }
    else p.end[1] = std::make_unique<Agent>(host, port, client, p.rec[1], timeout);
  });
  for (int i = 0; i < 2; i++) p.error[i] = err[i];
  return p;
}

// A dialogue: both ends follow the same list of steps in one thread each, with
// splits of their own.
struct Talk { std::vector<std::pair<int, size_t>> steps; uint64_t key; };
inline Talk makeTalk(Rng& r, size_t steps, size_t big) {
  Talk t;
  t.key = r.next();
  for (size_t i = 0; i < steps; i++) {
    size_t n;
    switch (r.below(6)) {
      case 0: n = 0; break;
      case 1: n = 1 + r.below(16); break;
      case 2: n = 16384 * (1 + r.below(4)) + r.below(5) - 2; break;
      case 3: n = big ? r.below(big) : r.below(5000); break;
      default: n = r.below(3000);
    }
    t.steps.push_back({(int)r.below(2), n});
  }
  return t;
}
inline std::string contentStr(uint64_t key, size_t n) { auto v = streams::content(key, 0, n); return std::string(v.begin(), v.end()); }
inline void speak(streams::Agent& a, int me, const Talk& t, Rng r, const std::string& who) {
  for (size_t i = 0; i < t.steps.size(); i++) {
    auto [from, n] = t.steps[i];
    auto all = streams::content(t.key + i * 0x100000000ull, 0, n);
    size_t at = 0;
    do {
      size_t k = r.coin() ? n - at : r.below(n - at + 1);
      if (from == me) {
        a.send({all.begin() + at, all.begin() + at + k});
        count("messages_sent");
      } else {
        auto got = a.receive(k);
        count("messages_received");
        count("bytes_compared", k);
        if (got.size() != k || !std::equal(got.begin(), got.end(), all.begin() + at)) {
          violation("stream-content", cat(who, ": step ", i, " of ", n, " bytes, piece at ", at, " of ", k, " bytes"));
          throw std::runtime_error("stream broken");
        }
      }
      at += k;
      progress();
    } while (at < n);
  }
}
inline void dialogue(std::vector<streams::Link> links, Rng r, size_t steps, size_t big, const std::string& key) {
  std::vector<Talk> talks;
  for (size_t i = 0; i < links.size(); i++) talks.push_back(makeTalk(r, steps, big));
  auto s = r.next();
  parties((int)links.size() * 2, key, [&](int t) {
    auto& l = links[t / 2];
    speak(*l.end[t & 1], t & 1, talks[t / 2], Rng(s + t), l.name);
  });
  for (size_t i = 0; i < links.size(); i++) {
    uint64_t sum[2] = {0, 0};
    for (auto& [from, n] : talks[i].steps) sum[from] += n;
    for (int e = 0; e < 2; e++) count("links_compared");
  }
}
} // namespace socks
