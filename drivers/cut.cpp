// C14: connections lost at every kind of place. Built with NDEBUG, as release
// builds are, so that only real error handling counts.
#include <array>
#include "sockets.h"
using namespace socks;

static std::unique_ptr<Pki> pki;
static Tls good;
using Clock = std::chrono::steady_clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

// Keeps sending until it fails; the amount a lost peer can swallow is bounded by the buffers.
static void sendUntilError(Agent& a, const std::string& who, bool small) {
  if (small) { // a few bytes now and then: nothing fills up, the loss still has to show
    std::vector<unsigned char> bit(1 + who.size() % 40, 7);
    auto t = Clock::now();
    while (since(t) < 15) {
      try { a.send(bit); } catch (const std::exception&) { count("sends_refused"); count("small_sends_refused"); return; }
      progress();
      std::this_thread::sleep_for(std::chrono::milliseconds(2));
    }
    violation("send-to-lost-peer", cat(who, ": 15 s of small sends after the loss all reported as done"));
    return;
  }
  std::vector<unsigned char> block(1 << 16, 7);
  auto t = Clock::now();
  for (size_t sent = 0; sent < (64u << 20) && since(t) < 20; sent += block.size()) {
    try { a.send(block); } catch (const std::exception&) { count("sends_refused"); return; }
    progress();
    if (sent > (8u << 20)) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
  violation("send-to-lost-peer", cat(who, ": 64 MB or 20 s of sends after the loss all reported as done"));
}

// Receives pieces of the stream; returns how many bytes came before the error
// (or all of them). Every piece returned is compared.
static uint64_t recvUntilError(Agent& a, uint64_t key, uint64_t total, Rng r, const std::string& who, bool& failed) {
  uint64_t at = 0;
  failed = false;
  while (at < total) {
    size_t k = std::min<uint64_t>(1 + r.below(r.coin() ? 40 : 5000), total - at);
    std::vector<unsigned char> got;
    try {
      switch (r.below(3)) {
        case 0: {
          size_t w = std::max<size_t>(1, k / 8);
          if (w * 8 > total - at) { got = a.receive(k); break; }
          auto v = a.receiveInt64(w);
          got.resize(v.size() * 8);
          memcpy(got.data(), v.data(), got.size());
          k = w * 8;
          break;
        }
        case 1: got = a.receiveT<unsigned char>((int)k); break;
        default: got = a.receive(k);
      }
    } catch (const std::exception&) { failed = true; break; }
    progress();
    count("receives_compared");
    if (got.size() != k || got != streams::content(key, at, k)) {
      violation("invented-data", cat(who, ": receive of ", k, " bytes at ", at, " returned something the peer did not send"));
      break;
    }
    at += k;
  }
  if (failed) {
    // it stays failed
    for (int i = 0; i < 2; i++) {
      bool again = false;
      try { a.receive(1 + r.below(20)); } catch (const std::exception&) { again = true; }
      check(again, "receive-after-loss", [&] { return cat(who, ": a receive after the failed one succeeded"); });
    }
    count("receives_refused");
  }
  return at;
}

static void cuts() {
  auto r = rng("cuts");
  for (size_t k = 0; k < n(140, 4000); k++) {
    bool tls = r.coin();
    int dir = (int)r.below(2); // 0: the server receives, 1: the client receives
    bool reset = r.oneIn(3), half = r.oneIn(4);
    uint64_t total = r.oneIn(3) ? 1 + r.below(40) : 1 + r.below(60000);
    uint64_t extra = tls ? 600 + r.below(total + total / 50 + 2000) : 0;
    uint64_t cutAt = tls ? (r.oneIn(6) ? r.below(1200) : extra) : r.oneIn(6) ? total : r.below(total);
    bool backlog = r.coin(); // everything is sent before the receiver starts
    auto seed = r.next();
    auto shape = cat(tls ? "TLS" : "plain", " towards ", dir ? "client" : "server", ", ", total, " bytes, cut after ", cutAt, reset ? " by reset" : half ? " one way" : " by close", backlog ? ", sent ahead" : "", ", case ", k);
    runCase(shape, [&] {
      auto relay = std::make_shared<Relay>();
      relay->plan.cutDir = dir; relay->plan.cutAt = cutAt; relay->plan.reset = reset; relay->plan.halfOnly = half; relay->plan.seed = seed; relay->plan.record = false;
      relay->plan.maxChunk = 1 + Rng(seed).below(9000);
      setRelayHook([&](int) { return relay; });
      auto p = connectPair(tls ? good : noTls(), tls ? good : noTls(), "127.0.0.1", 5);
      setRelayHook(nullptr);
      auto* rx = p.end[dir == 0 ? 0 : 1].get();
      auto* tx = p.end[dir == 0 ? 1 : 0].get();
      if (!tls) check(rx && tx, "connect", [&] { return p.error[0] + " / " + p.error[1]; });
      if (!rx || !tx) count("lost_during_handshake");
      std::atomic<bool> ahead{false};
      uint64_t got = 0;
      bool failed = false;
      auto t0 = Clock::now();
      double took = 0;
      parties(2, "cut", [&](int who) {
        if (who == 0 && tx) {
          Rng d(seed + 1);
          uint64_t at = 0;
          bool err = false;
          while (at < total && !err) {
            size_t n = std::min<uint64_t>(1 + d.below(4000), total - at);
            try { tx->send(streams::content(seed, at, n)); } catch (const std::exception&) { err = true; count("sends_refused"); }
            at += n;
          }
          ahead = true;
          if (relay->cut && !err && !half) sendUntilError(*tx, shape, Rng(seed + 9).coin());
        } else if (who == 0) ahead = true;
        if (who == 1 && rx) {
          auto until = Clock::now();
          if (backlog) while (!ahead && since(until) < 5) std::this_thread::sleep_for(std::chrono::milliseconds(1));
          // the receive that cannot be served may ask for more than was ever sent
          got = recvUntilError(*rx, seed, total, Rng(seed + 2), shape, failed);
          took = since(t0);
        }
      });
      if (rx && tx) {
        count(failed ? "cut_streams" : "served_streams");
        if (!tls && cutAt < total) check(failed, "invented-data", [&] { return shape + ": all of it received although part of it was never forwarded"; });
        if (!tls) check(got <= cutAt, "invented-data", [&] { return cat(shape, ": ", got, " bytes received"); });
        // what arrived before an orderly end is delivered: the next piece would have been at most 5000 bytes
        if (!tls && !reset && !failed) check(got == total, "arrived-data-lost", [&] { return cat(shape, ": only ", got); });
        if (!tls && !reset && failed) check(got + 5000 > cutAt || cutAt > total, "arrived-data-lost", [&] { return cat(shape, ": only ", got); });
        check(took < 30, "late-error", [&] { return cat(shape, ": ", took, " s"); });
      }
      p = Pair();
      relay->severNow = true;
      joinRelays();
      distinct(shape);
    });
  }
}

// the peer itself goes away: the channel object is destroyed
static void departures() {
  auto r = rng("departures");
  for (size_t k = 0; k < n(40, 800); k++) {
    bool tls = r.coin();
    int who = (int)r.below(2);
    uint64_t sent = r.oneIn(4) ? 0 : r.below(50000), ask = sent + 1 + r.below(100);
    auto seed = r.next();
    auto shape = cat(tls ? "TLS " : "plain ", who ? "client" : "server", " leaves after ", sent, " bytes, case ", k);
    runCase(shape, [&] {
      auto p = connectPair(tls ? good : noTls(), tls ? good : noTls(), "127.0.0.1", 5);
      if (!check(p.end[0] && p.end[1], "connect", [&] { return p.error[0] + " / " + p.error[1]; })) return;
      auto t0 = Clock::now();
      double took = 0;
      uint64_t got = 0;
      bool failed = false;
      parties(2, "departure", [&](int t) {
        if (t == 0) {
          Rng d(seed);
          for (uint64_t at = 0; at < sent;) {
            size_t n = std::min<uint64_t>(1 + d.below(4000), sent - at);
            p.end[who]->send(streams::content(seed, at, n));
            at += n;
          }
          if (d.coin()) std::this_thread::sleep_for(std::chrono::milliseconds(d.below(20)));
          p.end[who].reset();
        } else {
          got = recvUntilError(*p.end[1 - who], seed, ask, Rng(seed + 2), shape, failed);
          took = since(t0);
          check(failed, "invented-data", [&] { return cat(shape, ": ", ask, " bytes received"); });
          check(got <= sent && got + 5000 > sent, "arrived-data-lost", [&] { return cat(shape, ": ", got, " bytes received"); });
          check(took < 30, "late-error", [&] { return cat(shape, ": ", took, " s"); });
          sendUntilError(*p.end[1 - who], shape, Rng(seed + 9).coin());
        }
      });
      count("departures");
      distinct(shape);
    });
  }
}

// the connection over which further channels are arranged
static void arrangement() {
  auto r = rng("arrangement");
  for (size_t k = 0; k < n(10, 100); k++) {
    bool tls = k & 1;
    uint64_t cutAt = tls ? 500 + r.below(2500) : k / 2 % 4;
    auto seed = r.next();
    auto shape = cat(tls ? "TLS" : "plain", " first connection cut after ", cutAt, " bytes, case ", k);
    runCase(shape, [&] {
      int base = freePort(6);
      std::shared_ptr<Relay> first;
      setRelayHook([&](int port) {
        auto q = std::make_shared<Relay>();
        q->plan.record = false; q->plan.seed = seed;
        if (port == base) { q->plan.cutDir = 1; q->plan.cutAt = cutAt; q->plan.reset = seed & 1; first = q; }
        return q;
      });
      auto err = partiesCatch(2, [&](int me) {
        std::map<int, Factory::PartyInfo> info;
        info[1 - me] = {"127.0.0.1", base};
        Factory f(me, info, tls ? good : noTls(), std::make_shared<fbpcf::util::MetricCollector>(cat("p", me)), 1);
        std::vector<AgentPtr> as;
        for (int c = 0; c < 3; c++) {
          auto a = f.create(1 - me, cat("c", c));
          a->sendSingleT<uint64_t>(seed + me * 10 + c);
          auto got = a->receiveSingleT<uint64_t>();
          check(got == seed + (1 - me) * 10 + c, "invented-data", [&] { return shape; });
          as.push_back(std::move(a));
        }
      });
      setRelayHook(nullptr);
      if (!tls) check(!err[1].empty(), "arranged-without-answer", [&] { return shape + ": the client opened channels on a port it was never told"; });
      if (first && first->cut) count("arrangements_cut");
      { std::lock_guard<std::mutex> g(first->m); first->severNow = true; }
      joinRelays();
      distinct(shape);
    });
  }
}

void vfMain() {
  signal(SIGPIPE, SIG_IGN);
  pki = std::make_unique<Pki>(scratchDir());
  good = pki->make("server", "127.0.0.1", pki->good, "test_passphrase");
  cuts();
  departures();
  arrangement();
}
