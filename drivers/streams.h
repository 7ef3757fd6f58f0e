// Exercise a set of two-ended channels: both directions at once, independent
// splits at the two ends or matching typed messages, every byte compared.
#pragma once
#include <emmintrin.h>
#include <cstring>
#include "net.h"

namespace streams {
using Agent = vf::comm::IPartyCommunicationAgent;
struct Link { Agent* end[2]; std::string name; };

struct Rec { uint64_t a; uint32_t b; uint16_t c; uint8_t d[3]; bool e; };

inline std::vector<unsigned char> content(uint64_t key, size_t from, size_t len) {
  std::vector<unsigned char> v(len);
  for (size_t i = 0; i < len; i++) v[i] = (unsigned char)((vf::Rng(key + ((from + i) >> 3)).next() >> (8 * ((from + i) & 7))));
  return v;
}
struct Opt { size_t bytes = 20000, maxPiece = 3000, typed = 60, maxItems = 700; uint32_t delayUs = 300; };

// one direction, raw: the two sides cut the stream independently
inline void sendRaw(Agent& a, uint64_t key, Opt o, vf::Rng r) {
  size_t at = 0;
  while (at < o.bytes) {
    if (o.delayUs && r.oneIn(4)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(o.delayUs)));
    size_t n = r.oneIn(6) ? 0 : r.oneIn(3) ? r.below(9) : r.below(o.maxPiece);
    n = std::min(n, o.bytes - at);
    auto v = content(key, at, n);
    if (n % 8 == 0 && r.coin()) {
      std::vector<uint64_t> w(n / 8);
      if (n) memcpy(w.data(), v.data(), n);
      if (r.coin()) a.sendInt64(w); else a.sendT(w);
    } else if (r.coin()) a.sendT(v);
    else a.send(v);
    at += n;
    vf::count("messages_sent");
    vf::progress();
  }
}
inline void recvRaw(Agent& a, uint64_t key, Opt o, vf::Rng r, const std::string& who) {
  size_t at = 0;
  while (at < o.bytes) {
    if (o.delayUs && r.oneIn(4)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(o.delayUs)));
    size_t n = r.oneIn(6) ? 0 : r.oneIn(3) ? r.below(9) : r.below(o.maxPiece);
    n = std::min(n, o.bytes - at);
    std::vector<unsigned char> got;
    if (n % 8 == 0 && r.coin()) {
      auto w = r.coin() ? a.receiveInt64(n / 8) : a.receiveT<uint64_t>((int)(n / 8));
      got.resize(w.size() * 8);
      if (!w.empty()) memcpy(got.data(), w.data(), got.size());
    } else if (r.coin()) got = a.receiveT<unsigned char>((int)n);
    else got = a.receive(n);
    auto want = content(key, at, n);
    vf::count("bytes_compared", n);
    vf::count("messages_received");
    vf::progress();
    if (got.size() != n) { vf::violation("stream-size", vf::cat(who, ": asked ", n, " at ", at, ", got ", got.size())); throw std::runtime_error("stream broken"); }
    if (got != want) {
      size_t i = 0;
      while (got[i] == want[i]) i++;
      vf::violation("stream-content", vf::cat(who, ": byte ", at + i, " of the stream is not the one sent"));
      throw std::runtime_error("stream broken");
    }
    at += n;
  }
}
// one direction, typed messages
template <class Put> inline void typedScript(Opt o, vf::Rng r, Put put) {
  for (size_t k = 0; k < o.typed; k++) {
    uint64_t s = r.next();
    int kind = (int)r.below(9);
    size_t n = r.oneIn(8) ? 0 : r.oneIn(3) ? r.below(20) : r.below(o.maxItems);
    put(kind, n, s, k);
  }
}
template <class T> inline std::vector<T> items(size_t n, uint64_t s) {
  std::vector<T> v(n);
  vf::Rng r(s);
  for (auto& x : v) { auto w = r.next(); auto z = r.next(); unsigned char b[16]; memcpy(b, &w, 8); memcpy(b + 8, &z, 8); memcpy((void*)&x, b, sizeof(T)); }
  return v;
}
inline void sendTyped(Agent& a, Opt o, vf::Rng r, vf::Rng d) {
  typedScript(o, r, [&](int kind, size_t n, uint64_t s, size_t) {
    if (o.delayUs && d.oneIn(4)) std::this_thread::sleep_for(std::chrono::microseconds(d.below(o.delayUs)));
    switch (kind) {
      case 0: a.sendBool(vf::Rng(s).bits(n)); break;
      case 1: a.sendT<bool>(vf::Rng(s).bits(n)); break;
      case 2: a.sendT<uint32_t>(items<uint32_t>(n, s)); break;
      case 3: a.sendT<uint16_t>(items<uint16_t>(n, s)); break;
      case 4: a.sendT<__m128i>(items<__m128i>(n, s)); break;
      case 5: a.sendInt64(items<uint64_t>(n, s)); break;
      case 6: a.sendSingleT<__m128i>(items<__m128i>(1, s)[0]); break;
      case 7: a.sendSingleT<uint32_t>((uint32_t)s); break;
      default: a.sendT<std::pair<uint64_t, uint32_t>>([&] { auto v = items<uint64_t>(n, s); std::vector<std::pair<uint64_t, uint32_t>> p; for (auto x : v) p.push_back({x, (uint32_t)(x >> 7)}); return p; }());
    }
    vf::count("messages_sent");
    vf::progress();
  });
}
inline void recvTyped(Agent& a, Opt o, vf::Rng r, vf::Rng d, const std::string& who) {
  typedScript(o, r, [&](int kind, size_t n, uint64_t s, size_t k) {
    if (o.delayUs && d.oneIn(4)) std::this_thread::sleep_for(std::chrono::microseconds(d.below(o.delayUs)));
    bool ok = true;
    auto same = [&](auto got, auto want) { ok = got.size() == want.size() && (got.empty() || !memcmp(got.data(), want.data(), got.size() * sizeof(got[0]))); };
    switch (kind) {
      case 0: ok = a.receiveBool(n) == vf::Rng(s).bits(n); break;
      case 1: ok = a.receiveT<bool>((int)n) == vf::Rng(s).bits(n); break;
      case 2: same(a.receiveT<uint32_t>((int)n), items<uint32_t>(n, s)); break;
      case 3: same(a.receiveT<uint16_t>((int)n), items<uint16_t>(n, s)); break;
      case 4: same(a.receiveT<__m128i>((int)n), items<__m128i>(n, s)); break;
      case 5: same(a.receiveInt64(n), items<uint64_t>(n, s)); break;
      case 6: { auto g = a.receiveSingleT<__m128i>(); auto w = items<__m128i>(1, s)[0]; ok = !memcmp(&g, &w, 16); break; }
      case 7: ok = a.receiveSingleT<uint32_t>() == (uint32_t)s; break;
      default: {
        auto g = a.receiveT<std::pair<uint64_t, uint32_t>>((int)n);
        auto w = items<uint64_t>(n, s);
        ok = g.size() == n;
        for (size_t i = 0; ok && i < n; i++) ok = g[i].first == w[i] && g[i].second == (uint32_t)(w[i] >> 7);
      }
    }
    vf::count("typed_messages_compared");
    vf::progress();
    if (!ok) {
      vf::violation("typed-message", vf::cat(who, ": message ", k, " of kind ", kind, " with ", n, " items"));
      throw std::runtime_error("stream broken");
    }
  });
}
// all links, both directions at once
inline void exercise(std::vector<Link> links, Opt o, uint64_t seed, const std::string& key) {
  int n = (int)links.size() * 4;
  std::vector<std::array<std::pair<uint64_t, uint64_t>, 2>> before;
  for (auto& l : links) before.push_back({l.end[0]->getTrafficStatistics(), l.end[1]->getTrafficStatistics()});
  // each link has, per direction, a sender and a receiver
  vf::parties(n, key, [&](int t) {
    auto& l = links[t / 4];
    int from = t & 1;
    bool sender = t & 2;
    uint64_t k = seed * 1000003 + (t / 4) * 2 + from;
    vf::Rng mode(k * 31 + 7);
    bool typedFirst = mode.coin();
    std::string who = vf::cat(l.name, " direction ", from);
    for (int p = 0; p < 2; p++) {
      if ((p == 0) == typedFirst) {
        vf::Rng s(k * 77 + 5);
        if (sender) sendTyped(*l.end[from], o, s, vf::Rng(k * 3 + 1)); else recvTyped(*l.end[1 - from], o, s, vf::Rng(k * 3 + 2), who);
      } else {
        if (sender) sendRaw(*l.end[from], k << 20, o, vf::Rng(k * 5 + 1)); else recvRaw(*l.end[1 - from], k << 20, o, vf::Rng(k * 5 + 2), who);
      }
    }
  });
  // what one end says it sent, the other says it received
  for (size_t i = 0; i < links.size(); i++) {
    auto a = links[i].end[0]->getTrafficStatistics(), b = links[i].end[1]->getTrafficStatistics();
    vf::check(a.first == b.second && b.first == a.second, "traffic-totals", [&] { return vf::cat(links[i].name, " ", a.first, "/", a.second, " against ", b.first, "/", b.second); });
    vf::check(a.first - before[i][0].first >= o.bytes && a.second - before[i][0].second >= o.bytes, "traffic-totals", [&] { return links[i].name + ": fewer bytes counted than sent"; });
    vf::count("links_compared");
  }
}
} // namespace streams
