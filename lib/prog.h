// Random scheduler programs, their plaintext meaning, and an interpreter that
// runs them on any scheduler.
#pragma once
#include "mpc.h"
#include "prog_gen.h"

namespace vf {
using BoolW = sched::IScheduler::WireId<sched::IScheduler::Boolean>;
using IntW = sched::IScheduler::WireId<sched::IScheduler::Arithmetic>;

struct Node {
  bool isInt = false, batch = false, pub = false;
  std::vector<uint64_t> v; // element values; one element when not a batch
  int depth = 0;           // dependent shared exchanges below this value
  bool alive = true;
  int refs = 1;
};
enum class K { In, PubIn, And, Composite, Xor, Not, Mult, Plus, Neg, Batch, Unbatch, Reshare, Open, Ref, Drop, Get };
struct Op {
  K k;
  int a = -1, b = -1;         // operand nodes
  std::vector<int> more;      // composite rights, batch sources
  int party = 0;
  std::vector<uint32_t> sizes;
  std::vector<int> out;
};
struct Prog {
  int n;
  std::vector<Node> nodes;
  std::vector<Op> ops;
  std::vector<int> opens;     // indices of Open ops
  uint64_t freeOps = 0, nonFreeOps = 0; // elements
  std::string shape; // fingerprint of the structure
  int maxDepth = 0;
};
struct ProgCfg {
  int n = 2;
  int steps = 30;
  bool ints = true, intMult = true, batches = true, rebatch = true, composite = true, reshare = true, drops = true;
  int maxBatch = 12;
  bool emptyBatches = true;
  int openEvery = 6;
  bool publicOps = true;
  bool gets = true; // read opened values right away now and then
};

// The structure derives from `shapeRng`, the secret values from `valueRng`.
Prog genProg(const ProgCfg& c, Rng shapeRng, Rng valueRng);

struct RunResult {
  std::map<int, std::vector<uint64_t>> opened;         // Open op -> value this party read
  std::map<int, std::vector<uint64_t>> shares;         // Reshare op -> share extracted
  std::pair<uint64_t, uint64_t> gates{0, 0}, wires{0, 0}, traffic{0, 0};
  std::pair<uint64_t, uint64_t> wiresEnd{0, 0};
  std::vector<std::string> problems;
};

// Runs the program as party `me`; unless `plain`, inputs of others are replaced by noise.
// called after every operation with the number of values that exist
extern thread_local std::function<void(uint64_t live)> progHook;
RunResult runProg(const Prog& p, sched::IArithmeticScheduler& s, int me, bool plain, uint64_t noiseSeed, bool dropAll = false);
// Compare what the parties read with the plaintext meaning.
void checkProg(const Prog& p, const World& w, const std::vector<RunResult>& rs, const std::string& tag);
// whole run over n parties; returns results (empty if a party died)
std::vector<RunResult> runWorld(const World& w, const Prog& p, uint64_t seed, bool dropAll = false,
                                std::vector<std::shared_ptr<Tape>> tapes = {});
} // namespace vf
