#include "mpc.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
#include "mpc_engine.h"

namespace vf {
std::unique_ptr<sched::IWireKeeper> wireKeeper(Alloc a) {
  switch (a) {
    case Alloc::ArenaSafe: return sched::WireKeeper::createWithVectorArena<false>();
    case Alloc::ArenaUnsafe: return sched::WireKeeper::createWithVectorArena<true>();
    default: return sched::WireKeeper::createWithUnorderedMap();
  }
}
std::unique_ptr<sched::IArithmeticScheduler> scheduler(
    SchedKind s, EngineKind e, Alloc a, int me, int n, comm::IPartyCommunicationAgentFactory& f, size_t small) {
  if (s == SchedKind::Plain) return std::make_unique<sched::PlaintextScheduler>(wireKeeper(a));
  if (s == SchedKind::NetPlain)
    return std::make_unique<sched::NetworkPlaintextScheduler>(me, comm::getAgentMap(n, me, f), wireKeeper(a));
  auto engine = makeEngine(e, me, n, f, small);
  if (s == SchedKind::Eager) return std::make_unique<sched::EagerScheduler>(std::move(engine), wireKeeper(a));
  std::shared_ptr<sched::IWireKeeper> wk = wireKeeper(a);
  return std::make_unique<sched::LazyScheduler>(std::move(engine), wk, std::make_unique<sched::GateKeeper>(wk));
}
} // namespace vf
