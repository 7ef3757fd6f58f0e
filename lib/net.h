// In-memory networks for n parties, with a recording / perturbing tap.
#pragma once
#include <map>
#include <memory>
#include <mutex>
#include <vector>
#include "fbpcf/engine/communication/IPartyCommunicationAgent.h"
#include "fbpcf/engine/communication/IPartyCommunicationAgentFactory.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
#include "vf.h"

namespace vf {
namespace comm = fbpcf::engine::communication;
using AgentPtr = std::unique_ptr<comm::IPartyCommunicationAgent>;

// What one party saw on one channel.
struct Msg { bool sent; std::vector<unsigned char> data; };
struct Channel {
  int me, peer, index; // index = order of creation at this party for this peer
  std::string name;
  std::mutex m;
  std::vector<Msg> log;
  uint64_t sent = 0, received = 0, nsent = 0, nrecv = 0;
  comm::IPartyCommunicationAgent* agent = nullptr; // valid while the agent lives
};
struct Tape {
  bool keepData = false;
  uint32_t delayUs = 0; // maximal random delay before an operation
  uint64_t delaySeed = 0;
  std::mutex m;
  std::vector<std::shared_ptr<Channel>> channels;
  // order of exchanges over all channels of one party: (peer, sent?, size)
  std::vector<std::tuple<int, int, bool, uint64_t>> order;
};

class TapAgent final : public comm::IPartyCommunicationAgent {
 public:
  TapAgent(AgentPtr in, std::shared_ptr<Channel> c, std::shared_ptr<Tape> t)
      : in_(std::move(in)), c_(c), t_(t), r_(t->delaySeed * 7919 + c->me * 131 + c->peer * 17 + c->index) { c_->agent = in_.get(); }
  ~TapAgent() override { std::lock_guard<std::mutex> g(c_->m); c_->agent = nullptr; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return in_->getTrafficStatistics(); }

 private:
  void delay() {
    if (t_->delayUs && r_.oneIn(3)) std::this_thread::sleep_for(std::chrono::microseconds(r_.below(t_->delayUs)));
  }
  void recvImpl(void* data, int n) override {
    delay();
    auto v = in_->receive(n);
    if ((int)v.size() != n) violation("receive-size", cat("asked ", n, " got ", v.size()));
    if (n) memcpy(data, v.data(), n);
    note(false, std::move(v));
  }
  void sendImpl(const void* data, int n) override {
    delay();
    std::vector<unsigned char> v((const unsigned char*)data, (const unsigned char*)data + n);
    in_->send(v);
    note(true, std::move(v));
  }
  void note(bool sent, std::vector<unsigned char> v) {
    count(sent ? "messages_sent" : "messages_received");
    { std::lock_guard<std::mutex> g(t_->m); t_->order.emplace_back(c_->peer, c_->index, sent, v.size()); }
    std::lock_guard<std::mutex> g(c_->m);
    (sent ? c_->sent : c_->received) += v.size();
    (sent ? c_->nsent : c_->nrecv)++;
    if (t_->keepData) c_->log.push_back({sent, std::move(v)});
  }
  AgentPtr in_;
  std::shared_ptr<Channel> c_;
  std::shared_ptr<Tape> t_;
  Rng r_;
};

class TapFactory final : public comm::IPartyCommunicationAgentFactory {
 public:
  TapFactory(int me, std::unique_ptr<comm::IPartyCommunicationAgentFactory> in, std::shared_ptr<Tape> t)
      : comm::IPartyCommunicationAgentFactory(in->getMetricsCollector()), me_(me), in_(std::move(in)), t_(t) {}
  AgentPtr create(int id, std::string name) override {
    auto c = std::make_shared<Channel>();
    c->me = me_; c->peer = id; c->name = name;
    { std::lock_guard<std::mutex> g(t_->m); c->index = (int)count_[id]++; }
    auto a = in_->create(id, name);
    if (!a) return a;
    { std::lock_guard<std::mutex> g(t_->m); t_->channels.push_back(c); }
    return std::make_unique<TapAgent>(std::move(a), c, t_);
  }

 private:
  int me_;
  std::unique_ptr<comm::IPartyCommunicationAgentFactory> in_;
  std::shared_ptr<Tape> t_;
  std::map<int, int> count_;
};

// factories for a fully connected in-memory network of n parties
inline std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> memNet(
    int n, std::vector<std::shared_ptr<Tape>> tapes = {}) {
  using F = comm::InMemoryPartyCommunicationAgentFactory;
  std::vector<std::map<int, std::shared_ptr<F::HostInfo>>> maps(n);
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      auto h = std::make_shared<F::HostInfo>();
      h->mutex = std::make_unique<std::mutex>();
      maps[i].emplace(j, h);
      maps[j].emplace(i, h);
    }
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> r;
  for (int i = 0; i < n; i++) {
    std::unique_ptr<comm::IPartyCommunicationAgentFactory> f = std::make_unique<F>(i, std::move(maps[i]));
    if (i < (int)tapes.size() && tapes[i]) f = std::make_unique<TapFactory>(i, std::move(f), tapes[i]);
    r.push_back(std::move(f));
  }
  return r;
}
inline std::vector<std::shared_ptr<Tape>> newTapes(int n, bool keep, uint32_t delayUs = 0, uint64_t seed = 0) {
  std::vector<std::shared_ptr<Tape>> t;
  for (int i = 0; i < n; i++) {
    t.push_back(std::make_shared<Tape>());
    t[i]->keepData = keep; t[i]->delayUs = delayUs; t[i]->delaySeed = seed + i;
  }
  return t;
}
// what an observer of the sizes and order of one party's messages sees, channel by channel
inline std::string wireShape(Tape& t) {
  std::map<std::tuple<int, int>, std::vector<std::pair<bool, uint64_t>>> by;
  std::lock_guard<std::mutex> g(t.m);
  for (auto& [peer, idx, sent, size] : t.order) by[{peer, idx}].push_back({sent, size});
  std::string r;
  for (auto& [k, v] : by) {
    r += cat("peer ", std::get<0>(k), " channel ", std::get<1>(k), ":");
    for (auto& [sent, size] : v) r += cat(sent ? " >" : " <", size);
    r += "\n";
  }
  return r;
}
inline std::vector<std::string> wireShapes(const std::vector<std::shared_ptr<Tape>>& ts) {
  std::vector<std::string> r;
  for (auto& t : ts) r.push_back(wireShape(*t));
  return r;
}
} // namespace vf
