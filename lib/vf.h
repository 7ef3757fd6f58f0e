// Small runtime-monitoring harness shared by all drivers.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace vf {

// ---- configuration -------------------------------------------------------
uint64_t seed(); // VERIF_SEED
bool thorough(); // VERIF_TIER=thorough
// quick count or thorough count
inline size_t n(size_t quick, size_t deep) { return thorough() ? deep : quick; }

// ---- randomness: every choice derives from the seed ------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 0) : s(x) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t operator()() { return next(); }
  uint64_t below(uint64_t m) { return m ? next() % m : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool coin() { return next() >> 63; }
  bool oneIn(uint64_t k) { return below(k) == 0; }
  // values with a taste for the edges of w bits
  uint64_t edgy(int w = 64) {
    uint64_t m = w >= 64 ? ~0ull : ((1ull << w) - 1);
    switch (below(8)) {
      case 0: return 0;
      case 1: return m;
      case 2: return (m >> 1);
      case 3: return (m >> 1) + 1;
      case 4: return 1;
      case 5: return below(16) & m;
      default: return next() & m;
    }
  }
  std::vector<bool> bits(size_t k) {
    std::vector<bool> r(k);
    for (size_t i = 0; i < k; i++) r[i] = coin();
    return r;
  }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
  }
};
Rng rng(const std::string& stream); // independent stream named by the caller

// ---- verdicts --------------------------------------------------------------
// A violation: key names the kind of failure (stable, no case data), detail has
// the input or history.
void violation(const std::string& key, const std::string& detail);
void inconclusive(const std::string& what);
size_t violations();
// check(cond, key, lazily built detail)
template <class F>
inline bool check(bool ok, const std::string& key, F&& detail) {
  if (!ok) violation(key, detail());
  return ok;
}

// ---- what was observed -----------------------------------------------------
void count(const std::string& name, uint64_t k = 1); // monitored events
void evaluated(uint64_t k = 1); // one case evaluated
void distinct(const std::string& fingerprint); // non-trivial case fingerprint
void sample(const std::string& text); // a few are kept
void progress(); // feeds the watchdog
void current(const std::string& what); // current case, printed when it crashes

// Run one case: sets current, counts it, reports an unexpected exception.
void runCase(const std::string& name, const std::function<void()>& f);

// Run f(i) for i<n on n threads. An exception in any thread is a violation with
// key `key`; if the others do not end soon after, the process reports what it
// has and ends (they may be blocked on the dead party).
bool parties(int n, const std::string& key, const std::function<void(int)>& f);

// Like parties() but an exception of type std::exception is handed to the
// caller as text ("" = ended normally) instead of being a violation.
std::vector<std::string> partiesCatch(int n, const std::function<void(int)>& f);

int finish(); // writes results, returns exit code
[[noreturn]] void finishNow();

std::string scratchDir(); // created per process, removed at finish

template <class T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }
template <class T> std::string str(const std::vector<T>& v) {
  std::ostringstream o; o << "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; if (i > 40) { o << "...(" << v.size() << ")"; break; } o << v[i]; }
  o << "]"; return o.str();
}
inline std::string cat() { return ""; }
template <class A, class... R> std::string cat(const A& a, const R&... r) { return str(a) + cat(r...); }
} // namespace vf

// Every driver defines this.
void vfMain();
