#include "engine_tap.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
namespace vf {
std::unique_ptr<sched::IArithmeticScheduler> tappedScheduler(SchedKind s, std::unique_ptr<eng::ISecretShareEngine> engine, Alloc a) {
  if (s == SchedKind::Eager) return std::make_unique<sched::EagerScheduler>(std::move(engine), wireKeeper(a));
  std::shared_ptr<sched::IWireKeeper> wk = wireKeeper(a);
  return std::make_unique<sched::LazyScheduler>(std::move(engine), wk, std::make_unique<sched::GateKeeper>(wk));
}
} // namespace vf
