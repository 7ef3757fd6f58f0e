// One scheduler object for SchedulerKeeper<id> that forwards to the scheduler
// of the calling thread: the parties of a computation run the same template
// instantiation, each on its own thread with its own scheduler.
#pragma once
#include <stdexcept>
#include "fbpcf/scheduler/IScheduler.h"
#include "mpc.h"

namespace vf {
class Switch final : public sched::IScheduler {
 public:
  static sched::IScheduler*& slot() {
    static thread_local sched::IScheduler* s = nullptr;
    return s;
  }
  static sched::IScheduler& cur() {
    if (!slot()) throw std::logic_error("harness: no scheduler on this thread");
    return *slot();
  }
  template <int id> static void install() { sched::SchedulerKeeper<id>::setScheduler(std::make_unique<Switch>()); }
  WireId<Boolean> privateBooleanInput(bool v, int partyId) override { return cur().privateBooleanInput(v, partyId); }
  WireId<Boolean> privateBooleanInputBatch(const std::vector<bool>& v, int partyId) override { return cur().privateBooleanInputBatch(v, partyId); }
  WireId<Boolean> publicBooleanInput(bool v) override { return cur().publicBooleanInput(v); }
  WireId<Boolean> publicBooleanInputBatch(const std::vector<bool>& v) override { return cur().publicBooleanInputBatch(v); }
  WireId<Boolean> recoverBooleanWire(bool v) override { return cur().recoverBooleanWire(v); }
  WireId<Boolean> recoverBooleanWireBatch(const std::vector<bool>& v) override { return cur().recoverBooleanWireBatch(v); }
  WireId<Boolean> openBooleanValueToParty(WireId<Boolean> src, int partyId) override { return cur().openBooleanValueToParty(src, partyId); }
  WireId<Boolean> openBooleanValueToPartyBatch(WireId<Boolean> src, int partyId) override { return cur().openBooleanValueToPartyBatch(src, partyId); }
  bool extractBooleanSecretShare(WireId<Boolean> id) override { return cur().extractBooleanSecretShare(id); }
  std::vector<bool> extractBooleanSecretShareBatch(WireId<Boolean> id) override { return cur().extractBooleanSecretShareBatch(id); }
  bool getBooleanValue(WireId<Boolean> id) override { return cur().getBooleanValue(id); }
  std::vector<bool> getBooleanValueBatch(WireId<Boolean> id) override { return cur().getBooleanValueBatch(id); }
  WireId<Boolean> privateAndPrivate(WireId<Boolean> left, WireId<Boolean> right) override { return cur().privateAndPrivate(left, right); }
  WireId<Boolean> privateAndPrivateBatch(WireId<Boolean> left, WireId<Boolean> right) override { return cur().privateAndPrivateBatch(left, right); }
  WireId<Boolean> privateAndPublic(WireId<Boolean> left, WireId<Boolean> right) override { return cur().privateAndPublic(left, right); }
  WireId<Boolean> privateAndPublicBatch(WireId<Boolean> left, WireId<Boolean> right) override { return cur().privateAndPublicBatch(left, right); }
  WireId<Boolean> publicAndPublic(WireId<Boolean> left, WireId<Boolean> right) override { return cur().publicAndPublic(left, right); }
  WireId<Boolean> publicAndPublicBatch(WireId<Boolean> left, WireId<Boolean> right) override { return cur().publicAndPublicBatch(left, right); }
  std::vector<WireId<Boolean>> privateAndPrivateComposite(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return cur().privateAndPrivateComposite(left, std::move(rights)); }
  std::vector<WireId<Boolean>> privateAndPrivateCompositeBatch(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return cur().privateAndPrivateCompositeBatch(left, std::move(rights)); }
  std::vector<WireId<Boolean>> privateAndPublicComposite(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return cur().privateAndPublicComposite(left, std::move(rights)); }
  std::vector<WireId<Boolean>> privateAndPublicCompositeBatch(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return cur().privateAndPublicCompositeBatch(left, std::move(rights)); }
  std::vector<WireId<Boolean>> publicAndPublicComposite(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return cur().publicAndPublicComposite(left, std::move(rights)); }
  std::vector<WireId<Boolean>> publicAndPublicCompositeBatch(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return cur().publicAndPublicCompositeBatch(left, std::move(rights)); }
  WireId<Boolean> privateXorPrivate(WireId<Boolean> left, WireId<Boolean> right) override { return cur().privateXorPrivate(left, right); }
  WireId<Boolean> privateXorPrivateBatch(WireId<Boolean> left, WireId<Boolean> right) override { return cur().privateXorPrivateBatch(left, right); }
  WireId<Boolean> privateXorPublic(WireId<Boolean> left, WireId<Boolean> right) override { return cur().privateXorPublic(left, right); }
  WireId<Boolean> privateXorPublicBatch(WireId<Boolean> left, WireId<Boolean> right) override { return cur().privateXorPublicBatch(left, right); }
  WireId<Boolean> publicXorPublic(WireId<Boolean> left, WireId<Boolean> right) override { return cur().publicXorPublic(left, right); }
  WireId<Boolean> publicXorPublicBatch(WireId<Boolean> left, WireId<Boolean> right) override { return cur().publicXorPublicBatch(left, right); }
  WireId<Boolean> notPrivate(WireId<Boolean> src) override { return cur().notPrivate(src); }
  WireId<Boolean> notPrivateBatch(WireId<Boolean> src) override { return cur().notPrivateBatch(src); }
  WireId<Boolean> notPublic(WireId<Boolean> src) override { return cur().notPublic(src); }
  WireId<Boolean> notPublicBatch(WireId<Boolean> src) override { return cur().notPublicBatch(src); }
  void increaseReferenceCount(WireId<Boolean> src) override { return cur().increaseReferenceCount(src); }
  void increaseReferenceCountBatch(WireId<Boolean> src) override { return cur().increaseReferenceCountBatch(src); }
  void decreaseReferenceCount(WireId<Boolean> id) override { return cur().decreaseReferenceCount(id); }
  void decreaseReferenceCountBatch(WireId<Boolean> id) override { return cur().decreaseReferenceCountBatch(id); }
  WireId<Boolean> batchingUp(std::vector<WireId<Boolean>> src) override { return cur().batchingUp(std::move(src)); }
  std::vector<WireId<Boolean>> unbatching(WireId<Boolean> src, std::shared_ptr<std::vector<uint32_t>> unbatchingStrategy) override { return cur().unbatching(src, std::move(unbatchingStrategy)); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return cur().getTrafficStatistics(); }
  std::pair<uint64_t, uint64_t> getWireStatistics() const override { return cur().getWireStatistics(); }
  size_t getBatchSize(IScheduler::WireId<IScheduler::Boolean> id) const override { return cur().getBatchSize(id); }
  size_t getBatchSize(IScheduler::WireId<IScheduler::Arithmetic> id) const override { return cur().getBatchSize(id); }
  void deleteEngine() override { return cur().deleteEngine(); }
};

// runs f(me) for every party of w, with its scheduler in place; returns false if a party died
inline bool onWorld(const World& w, const std::function<void(int, sched::IScheduler&)>& f,
                    std::vector<std::shared_ptr<Tape>> tapes = {}, uint64_t seed = 0) {
  int n = w.s == SchedKind::Plain ? 1 : w.n;
  if (tapes.empty() && w.delayUs) tapes = newTapes(n, false, w.delayUs, seed);
  auto net = memNet(n, tapes);
  return parties(n, "party-died", [&](int i) {
    auto s = scheduler(w.s, w.e, w.a, i, n, *net[i], w.small);
    struct Put { ~Put() { Switch::slot() = nullptr; } } put;
    Switch::slot() = s.get();
    f(i, *s);
  });
}
} // namespace vf
