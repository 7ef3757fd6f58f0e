// An engine that records what is asked of it and passes it on.
#pragma once
#include "mpc.h"
namespace vf {
struct EngineLog {
  struct Exchange { uint64_t ands, mults; };
  struct Event { char k; uint64_t a, b; bool operator==(const Event& o) const { return k == o.k && a == o.a && b == o.b; } };
  uint64_t pendAnd = 0, pendMult = 0;
  uint64_t ands = 0, mults = 0, inputs = 0, revealed = 0; // elements
  std::vector<Exchange> exchanges;            // non-empty ones
  std::map<std::pair<int, bool>, uint64_t> reveals; // (party, integer) -> number of non-empty openings
  std::vector<Event> events;
  bool overlap = false;
  void pend(int k, uint64_t n) { (k ? pendMult : pendAnd) += n; (k ? mults : ands) += n; }
  void exchange() {
    if (!pendAnd && !pendMult) return;
    exchanges.push_back({pendAnd, pendMult});
    events.push_back({'x', pendAnd, pendMult});
    pendAnd = pendMult = 0;
  }
  void reveal(int id, bool isInt, uint64_t n) { if (!n) return; reveals[{id, isInt}]++; revealed += n; events.push_back({isInt ? 'R' : 'r', (uint64_t)id, n}); }
  void input(int id, uint64_t n) { inputs += n; events.push_back({'i', (uint64_t)id, n}); }
};
class TapEngine final : public eng::ISecretShareEngine {
 public:
  std::unique_ptr<eng::ISecretShareEngine> in;
  std::shared_ptr<EngineLog> log;
  TapEngine(std::unique_ptr<eng::ISecretShareEngine> e, std::shared_ptr<EngineLog> l) : in(std::move(e)), log(std::move(l)) {}
  bool setInput(int id, std::optional<bool> v = std::nullopt) override { log->input(id, 1); return in->setInput(id, v); }
  uint64_t setIntegerInput(int id, std::optional<uint64_t> v = std::nullopt) override { log->input(id, 1); return in->setIntegerInput(id, v); }
  std::vector<bool> setBatchInput(int id, const std::vector<bool>& v) override { log->input(id, v.size()); return in->setBatchInput(id, v); }
  std::vector<uint64_t> setBatchIntegerInput(int id, const std::vector<uint64_t>& v) override { log->input(id, v.size()); return in->setBatchIntegerInput(id, v); }
  bool computeSymmetricXOR(bool left, bool right) const override {  return in->computeSymmetricXOR(left, right); }
  std::vector<bool> computeBatchSymmetricXOR(const std::vector<bool>& left, const std::vector<bool>& right) const override {  return in->computeBatchSymmetricXOR(left, right); }
  uint64_t computeSymmetricPlus(uint64_t left, uint64_t right) const override {  return in->computeSymmetricPlus(left, right); }
  std::vector<uint64_t> computeBatchSymmetricPlus(const std::vector<uint64_t>& left, const std::vector<uint64_t>& right) const override {  return in->computeBatchSymmetricPlus(left, right); }
  bool computeAsymmetricXOR(bool left, bool right) const override {  return in->computeAsymmetricXOR(left, right); }
  std::vector<bool> computeBatchAsymmetricXOR(const std::vector<bool>& left, const std::vector<bool>& right) const override {  return in->computeBatchAsymmetricXOR(left, right); }
  uint64_t computeAsymmetricPlus(uint64_t privateValue, uint64_t publicValue) const override {  return in->computeAsymmetricPlus(privateValue, publicValue); }
  std::vector<uint64_t> computeBatchAsymmetricPlus(const std::vector<uint64_t>& privateValue, const std::vector<uint64_t>& publicValue) const override {  return in->computeBatchAsymmetricPlus(privateValue, publicValue); }
  bool computeSymmetricNOT(bool input) const override {  return in->computeSymmetricNOT(input); }
  std::vector<bool> computeBatchSymmetricNOT(const std::vector<bool>& input) const override {  return in->computeBatchSymmetricNOT(input); }
  uint64_t computeSymmetricNeg(uint64_t input) const override {  return in->computeSymmetricNeg(input); }
  std::vector<uint64_t> computeBatchSymmetricNeg(const std::vector<uint64_t>& input) const override {  return in->computeBatchSymmetricNeg(input); }
  bool computeAsymmetricNOT(bool input) const override {  return in->computeAsymmetricNOT(input); }
  std::vector<bool> computeBatchAsymmetricNOT(const std::vector<bool>& input) const override {  return in->computeBatchAsymmetricNOT(input); }
  bool computeFreeAND(bool left, bool right) const override {  return in->computeFreeAND(left, right); }
  std::vector<bool> computeBatchFreeAND(const std::vector<bool>& left, const std::vector<bool>& right) const override {  return in->computeBatchFreeAND(left, right); }
  uint64_t computeFreeMult(uint64_t left, uint64_t right) const override {  return in->computeFreeMult(left, right); }
  std::vector<uint64_t> computeBatchFreeMult(const std::vector<uint64_t>& left, const std::vector<uint64_t>& right) const override {  return in->computeBatchFreeMult(left, right); }
  uint32_t scheduleAND(bool left, bool right) override { log->pend(0, 1); return in->scheduleAND(left, right); }
  uint32_t scheduleBatchAND(const std::vector<bool>& left, const std::vector<bool>& right) override { log->pend(0, left.size()); return in->scheduleBatchAND(left, right); }
  uint32_t scheduleCompositeAND(bool left, std::vector<bool> rights) override { log->pend(0, rights.size()); return in->scheduleCompositeAND(left, rights); }
  uint32_t scheduleBatchCompositeAND(const std::vector<bool>& left, const std::vector<std::vector<bool>>& rights) override { log->pend(0, left.size() * rights.size()); return in->scheduleBatchCompositeAND(left, rights); }
  uint32_t scheduleMult(uint64_t left, uint64_t right) override { log->pend(1, 1); return in->scheduleMult(left, right); }
  uint32_t scheduleBatchMult(const std::vector<uint64_t>& left, const std::vector<uint64_t>& right) override { log->pend(1, left.size()); return in->scheduleBatchMult(left, right); }
  std::vector<bool> computeBatchANDImmediately(const std::vector<bool>& left, const std::vector<bool>& right) override { log->pend(0, left.size()); log->exchange(); return in->computeBatchANDImmediately(left, right); }
  std::vector<uint64_t> computeBatchMultImmediately(const std::vector<uint64_t>& left, const std::vector<uint64_t>& right) override { log->pend(1, left.size()); log->exchange(); return in->computeBatchMultImmediately(left, right); }
  void executeScheduledOperations() override { log->exchange(); return in->executeScheduledOperations(); }
  bool getANDExecutionResult(uint32_t index) const override {  return in->getANDExecutionResult(index); }
  const std::vector<bool>& getBatchANDExecutionResult(uint32_t index) const override {  return in->getBatchANDExecutionResult(index); }
  const std::vector<bool>& getCompositeANDExecutionResult(uint32_t index) const override {  return in->getCompositeANDExecutionResult(index); }
  const std::vector<std::vector<bool>>& getBatchCompositeANDExecutionResult(uint32_t index) const override {  return in->getBatchCompositeANDExecutionResult(index); }
  uint64_t getMultExecutionResult(uint32_t index) const override {  return in->getMultExecutionResult(index); }
  const std::vector<uint64_t>& getBatchMultExecutionResult(uint32_t index) const override {  return in->getBatchMultExecutionResult(index); }
  std::vector<bool> revealToParty(int id, const std::vector<bool>& output) const override { log->reveal(id, false, output.size()); return in->revealToParty(id, output); }
  std::vector<uint64_t> revealToParty(int id, const std::vector<uint64_t>& output) const override { log->reveal(id, true, output.size()); return in->revealToParty(id, output); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {  return in->getTrafficStatistics(); }
};
std::unique_ptr<sched::IArithmeticScheduler> tappedScheduler(
    SchedKind s, std::unique_ptr<eng::ISecretShareEngine> engine, Alloc a);
} // namespace vf
