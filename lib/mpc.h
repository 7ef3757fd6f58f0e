// Schedulers of every kind over n in-memory parties.
#pragma once
#include "fbpcf/engine/ISecretShareEngine.h"
#include "fbpcf/scheduler/IArithmeticScheduler.h"
#include "fbpcf/scheduler/IWireKeeper.h"
#include "fbpcf/util/MetricCollector.h"
#include "net.h"

namespace vf {
namespace eng = fbpcf::engine;
namespace sched = fbpcf::scheduler;

enum class EngineKind {
  Dummy,      // dummy tuples
  Iknp,       // classic OT, boolean only (two party generator when n==2)
  Ferret,     // ferret OT, boolean only
  IknpBoth,   // classic OT, boolean and integer tuples
  FerretBoth, // ferret OT, boolean and integer tuples
  SmallTwo,   // two-party generator, small buffer: many refills
  SmallMulti, // product share generators (boolean + integer), small buffer
  Dealer,     // random tuples handed out by a trusted dealer: as fast as Dummy, without its zeros
  DealerFlat, // the same, without composite tuples
};
inline const char* name(EngineKind k) {
  switch (k) {
    case EngineKind::Dummy: return "dummy";
    case EngineKind::Iknp: return "iknp";
    case EngineKind::Ferret: return "ferret";
    case EngineKind::IknpBoth: return "iknp+int";
    case EngineKind::FerretBoth: return "ferret+int";
    case EngineKind::SmallTwo: return "small-two";
    case EngineKind::SmallMulti: return "small-multi";
    case EngineKind::Dealer: return "dealer";
    case EngineKind::DealerFlat: return "dealer-flat";
  }
  return "?";
}
inline bool hasIntMult(EngineKind k) {
  return k == EngineKind::Dummy || k == EngineKind::Dealer || k == EngineKind::DealerFlat || k == EngineKind::IknpBoth || k == EngineKind::FerretBoth || k == EngineKind::SmallMulti;
}

std::unique_ptr<eng::ISecretShareEngine> makeEngine(
    EngineKind k, int me, int n, comm::IPartyCommunicationAgentFactory& f, size_t small = 64,
    std::shared_ptr<fbpcf::util::MetricCollector> mc = nullptr);

enum class SchedKind { Plain, NetPlain, Eager, Lazy };
inline const char* name(SchedKind k) {
  switch (k) {
    case SchedKind::Plain: return "plaintext";
    case SchedKind::NetPlain: return "network-plaintext";
    case SchedKind::Eager: return "eager";
    case SchedKind::Lazy: return "lazy";
  }
  return "?";
}
enum class Alloc { ArenaSafe, ArenaUnsafe, Map };
inline const char* name(Alloc a) { return a == Alloc::ArenaSafe ? "arena" : a == Alloc::ArenaUnsafe ? "arena-unsafe" : "map"; }
std::unique_ptr<sched::IWireKeeper> wireKeeper(Alloc a);
std::unique_ptr<sched::IArithmeticScheduler> scheduler(
    SchedKind s, EngineKind e, Alloc a, int me, int n, comm::IPartyCommunicationAgentFactory& f, size_t small = 64);
struct World {
  SchedKind s;
  EngineKind e;
  Alloc a;
  int n;
  size_t small = 64;
  uint32_t delayUs = 0;
  std::string str() const {
    std::string r = name(s);
    if (s == SchedKind::Eager || s == SchedKind::Lazy) r += cat("/", name(e));
    return cat(r, "/", name(a), "/n=", n, e == EngineKind::SmallTwo || e == EngineKind::SmallMulti ? cat("/buf=", small) : std::string(), delayUs ? cat("/delay=", delayUs) : std::string());
  }
};
} // namespace vf
