// C12: in-memory channels.
#include <array>
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
#include "streams.h"
using namespace vf;

static void hosts() {
  auto r = rng("hosts");
  for (size_t k = 0; k < n(72, 800); k++) {
    auto seed = r.next();
    runCase(cat("one host ", k), [&] {
      comm::InMemoryPartyCommunicationAgentHost host;
      auto a = host.getAgent(0), b = host.getAgent(1);
      for (int i = 0; i < 2; i++) {
        bool refused = false;
        try { host.getAgent(i); } catch (const std::exception&) { refused = true; }
        check(refused, "second-agent", [&] { return cat("agent ", i, " handed out twice"); });
      }
      streams::Opt o;
      o.delayUs = (uint32_t)(k % 3) * 150;
      o.bytes = 1 + seed % 30000;
      o.maxPiece = 1 + (seed >> 20) % 4000;
      if (k % 16 == 15) { o.bytes = 2000000 + seed % 1000000; o.maxPiece = 500000; o.maxItems = 70000; o.typed = 15; } // larger than any buffer
      streams::exercise({{{a.get(), b.get()}, "host"}}, o, seed, "host-channel");
      distinct(cat("host", o.delayUs, o.bytes, o.maxPiece));
    });
  }
}

static void networks() {
  auto r = rng("networks");
  for (size_t k = 0; k < n(48, 500); k++) {
    int np = (int)r.range(2, 5), chans = (int)r.range(1, np > 3 ? 2 : 4);
    auto seed = r.next();
    runCase(cat("network of ", np, " with ", chans, " channels per pair, case ", k), [&] {
      auto f = memNet(np);
      std::map<std::tuple<int, int, int>, AgentPtr> ag;
      std::mutex m;
      parties(np, "create-channel", [&](int me) {
        Rng d(seed + me);
        // peers in an order of each party's own
        std::vector<int> todo;
        for (int c = 0; c < chans; c++) for (int p = 0; p < np; p++) if (p != me) todo.push_back(p);
        d.shuffle(todo);
        std::map<int, int> cnt;
        for (int p : todo) {
          auto a = f[me]->create(p, cat("channel", cnt[p]));
          std::lock_guard<std::mutex> g(m);
          ag[{me, p, cnt[p]++}] = std::move(a);
        }
        for (int bad : {me, np, -1, 1000}) {
          bool refused = false;
          try { f[me]->create(bad, "x"); } catch (const std::exception&) { refused = true; }
          check(refused, "unknown-party", [&] { return cat("party ", me, " connected to ", bad); });
          count("refusals");
        }
      });
      std::vector<streams::Link> links;
      for (int i = 0; i < np; i++) for (int j = i + 1; j < np; j++) for (int c = 0; c < chans; c++)
        links.push_back({{ag[{i, j, c}].get(), ag[{j, i, c}].get()}, cat("parties ", i, "-", j, " channel ", c)});
      streams::Opt o;
      o.bytes = 3000; o.typed = 20; o.maxItems = 200; o.delayUs = (uint32_t)(k % 3) * 100;
      streams::exercise(links, o, seed, "network-channel");
      count("channels", links.size());
      distinct(cat("net", np, chans, k));
    });
  }
}

// opening values between 2..5 parties
static void openings() {
  auto r = rng("openings");
  for (size_t k = 0; k < n(48, 500); k++) {
    int np = (int)r.range(2, 5);
    auto seed = r.next();
    runCase(cat("openings between ", np, " parties, case ", k), [&] {
      auto f = memNet(np);
      struct Op { int kind; int to; size_t n; uint64_t s; };
      std::vector<Op> ops;
      Rng q(seed);
      for (int i = 0; i < 25; i++) ops.push_back({(int)q.below(5), (int)q.below(np), q.oneIn(6) ? 0 : q.below(q.oneIn(60) ? 140000 : q.oneIn(4) ? 900 : 40), q.next()});
      std::vector<std::pair<uint64_t, uint64_t>> traffic(np);
      parties(np, "opening", [&](int me) {
        auto map = comm::getAgentMap(np, me, *f[me]);
        check((int)map.size() == np - 1 && !map.count(me), "agent-map", [&] { return cat(map.size(), " agents at party ", me); });
        comm::SecretShareEngineCommunicationAgent agent(me, std::move(map));
        Rng d(seed * 3 + me);
        for (auto& o : ops) {
          if (d.oneIn(3)) std::this_thread::sleep_for(std::chrono::microseconds(d.below(300)));
          progress();
          if (o.kind == 4) {
            // pairwise keys
            std::map<int, __m128i> mine;
            for (int p = 0; p < np; p++) if (p != me) mine.emplace(p, _mm_set_epi64x(o.s + me, p));
            auto got = agent.exchangeKeys(mine);
            bool ok = (int)got.size() == np - 1;
            for (auto& [p, key] : got) { auto want = _mm_set_epi64x(o.s + p, me); ok = ok && !memcmp(&key, &want, 16); }
            check(ok, "keys", [&] { return cat("party ", me, " of ", np); });
            count("keys_compared", got.size());
            continue;
          }
          bool all = o.kind < 2;
          if (o.kind & 1) {
            std::vector<std::vector<bool>> sh(np);
            std::vector<bool> sum(o.n);
            for (int p = 0; p < np; p++) { sh[p] = Rng(o.s + p).bits(o.n); for (size_t i = 0; i < o.n; i++) sum[i] = sum[i] ^ sh[p][i]; }
            auto got = all ? agent.openSecretsToAll(sh[me]) : agent.openSecretsToParty(o.to, sh[me]);
            bool mine = all || o.to == me;
            check(got.size() == o.n, "opening-size", [&] { return cat(o.n, " bits"); });
            if (mine) { check(got == sum, "opened-bits", [&] { return cat(o.n, " bits at party ", me, " of ", np, all ? " to all" : " to one"); }); count("values_opened", o.n); }
            else { bool z = true; for (bool b : got) z = z && !b; check(z, "other-party-sees", [&] { return cat(o.n, " bits"); }); }
          } else {
            std::vector<std::vector<uint64_t>> sh(np);
            std::vector<uint64_t> sum(o.n);
            for (int p = 0; p < np; p++) { sh[p] = streams::items<uint64_t>(o.n, o.s + p); for (size_t i = 0; i < o.n; i++) sum[i] += sh[p][i]; }
            auto got = all ? agent.openSecretsToAll(sh[me]) : agent.openSecretsToParty(o.to, sh[me]);
            bool mine = all || o.to == me;
            check(got.size() == o.n, "opening-size", [&] { return cat(o.n, " integers"); });
            if (mine) { check(got == sum, "opened-integers", [&] { return cat(o.n, " integers at party ", me, " of ", np, all ? " to all" : " to one"); }); count("values_opened", o.n); }
            else { bool z = true; for (auto b : got) z = z && !b; check(z, "other-party-sees", [&] { return cat(o.n, " integers"); }); }
          }
        }
        traffic[me] = agent.getTrafficStatistics();
      });
      uint64_t s = 0, v = 0;
      for (auto& t : traffic) { s += t.first; v += t.second; }
      check(s == v, "traffic-totals", [&] { return cat("sent ", s, " received ", v); });
      distinct(cat("open", np, k));
    });
  }
}

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define UNDER_TSAN 1
#endif
#endif
#ifdef __SANITIZE_THREAD__
#define UNDER_TSAN 1
#endif

// Messages longer than an int can count. A transport that only checks that it is asked for
// consecutive bytes of one message, then the real channel.
struct Measuring final : comm::IPartyCommunicationAgent {
  const unsigned char *from = nullptr, *next = nullptr;
  uint64_t total = 0, pieces = 0, negative = 0, jumps = 0;
  void reset() { from = next = nullptr; total = pieces = negative = jumps = 0; }
  void note(const void* d, int n) {
    auto p = static_cast<const unsigned char*>(d);
    if (n < 0) { negative++; return; }
    if (pieces++ && p != next) jumps++;
    if (!from) from = p;
    next = p + n;
    total += n;
  }
  void sendImpl(const void* d, int n) override { note(d, n); }
  void recvImpl(void* d, int n) override {
    note(d, n);
    if (n > 0) static_cast<unsigned char*>(d)[0] = static_cast<unsigned char*>(d)[n - 1] = 0xa5;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};

static void large() {
#ifndef UNDER_TSAN
  auto r = rng("large");
  for (size_t k = 0; k < n(3, 12); k++) {
    auto seed = r.next();
    runCase(cat("large messages ", k), [&] {
      Rng q(seed);
      const uint64_t g = 1ull << 30;
      auto length = [&](uint64_t unit) { return (q.oneIn(3) ? 2 * g : 4 * g) / unit + q.below(1000); };
      Measuring m;
      auto judge = [&](const char* what, uint64_t bytes, const void* from) {
        check(!m.negative && !m.jumps && m.total == bytes && (!from || m.from == from), "large-message",
              [&] { return cat(what, " of ", bytes, " bytes became ", m.total, " in ", m.pieces, " pieces, ", m.negative, " negative, ", m.jumps, " not adjoining"); });
        count("large_messages");
        count("large_bytes", bytes);
        m.reset();
      };
      switch (k % 3) {
        case 0: {
          auto b = length(1);
          { std::vector<unsigned char> v(b); m.send(v); judge("send", b, v.data()); }
          { auto v = m.receive(b); judge("receive", b, v.data()); check(v.size() == b && v.back() == 0xa5, "large-message", [&] { return cat("received ", v.size(), " for ", b); }); }
          break;
        }
        case 1: {
          auto w = length(8);
          { std::vector<uint64_t> v(w); if (q.coin()) m.sendInt64(v); else m.sendT(v); judge("words", w * 8, v.data()); }
          { auto v = q.coin() ? m.receiveInt64(w) : m.receiveT<uint64_t>(w); judge("words", w * 8, v.data()); check(v.size() == w && (v.back() >> 56) == 0xa5, "large-message", [&] { return cat("received ", v.size(), " for ", w); }); }
          break;
        }
        default: {
          comm::InMemoryPartyCommunicationAgentHost host;
          auto a = host.getAgent(0), b = host.getAgent(1);
          uint64_t bytes = 2 * g + 1 + q.below(1000), stride = 4099, salt = q.next();
          auto at = [&](uint64_t i) { return (unsigned char)((i * 0x9e3779b97f4a7c15ull + salt) >> 56); };
          {
            std::vector<unsigned char> v(bytes);
            for (uint64_t i = 0; i < bytes; i += stride) v[i] = at(i);
            v.back() = 0x5a;
            a->send(v);
          }
          auto v = b->receive(bytes);
          uint64_t wrong = 0;
          for (uint64_t i = 0; i < bytes; i += stride) wrong += i + 1 < bytes && v[i] != at(i);
          check(v.size() == bytes && !wrong && v.back() == 0x5a, "large-message", [&] { return cat(v.size(), " of ", bytes, " bytes, ", wrong, " wrong"); });
          check(a->getTrafficStatistics().first == bytes && b->getTrafficStatistics().second == bytes, "large-traffic", [&] { return cat("reported ", a->getTrafficStatistics().first, " for ", bytes); });
          count("large_messages");
          count("large_bytes", bytes);
        }
      }
      distinct(cat("large", k));
    });
  }
#endif
}

void vfMain() {
  large();
  hosts();
  networks();
  openings();
}
