#include "vf.h"
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>
#include <typeinfo>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VF_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(undefined_behavior_sanitizer)
#define VF_SAN 1
#endif
#endif
#ifdef VF_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vf {
namespace {
struct State {
  std::mutex m;
  std::vector<std::pair<std::string, std::string>> viol;
  std::map<std::string, int> violCount;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples, inconclusive;
  uint64_t samplesSeen = 0;
  uint64_t evals = 0;
  std::string scratch;
};
State& st() { static State* s = new State; return *s; }
std::atomic<uint64_t> ticks{0};
char curBuf[8192];
std::atomic<bool> dead{false};
std::atomic<bool> finished{false};

uint64_t fnv(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
void dump(bool complete) {
  const char* p = getenv("VF_OUT");
  std::string path = p ? p : "/dev/stdout";
  FILE* f = fopen(path.c_str(), "w");
  if (!f) return;
  auto& s = st();
  std::lock_guard<std::mutex> l(s.m);
  fprintf(f, "{\"complete\":%s,\"evaluations\":%llu,\"distinct\":%zu,\"current\":%s,\n\"counters\":{", complete ? "true" : "false",
      (unsigned long long)s.evals, s.distinct.size(), jesc(curBuf).c_str());
  bool first = true;
  for (auto& [k, v] : s.counters) { fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
  fprintf(f, "},\n\"violations\":[");
  first = true;
  for (auto& [k, d] : s.viol) { fprintf(f, "%s{\"key\":%s,\"detail\":%s}", first ? "" : ",\n", jesc(k).c_str(), jesc(d).c_str()); first = false; }
  fprintf(f, "],\n\"inconclusive\":[");
  first = true;
  for (auto& d : s.inconclusive) { fprintf(f, "%s%s", first ? "" : ",", jesc(d).c_str()); first = false; }
  fprintf(f, "],\n\"samples\":[");
  first = true;
  for (auto& d : s.samples) { fprintf(f, "%s%s", first ? "" : ",\n", jesc(d).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
}
void onDeath() {
  if (dead.exchange(true)) return;
  char msg[] = "\nVF-CURRENT-CASE: ";
  (void)!write(2, msg, sizeof msg - 1);
  (void)!write(2, curBuf, strnlen(curBuf, sizeof curBuf));
  (void)!write(2, "\n", 1);
}
void onSignal(int sig) {
  onDeath();
  char b[64];
  int k = snprintf(b, sizeof b, "VF-SIGNAL: %d\n", sig);
  (void)!write(2, b, k);
  _exit(70);
}
std::string what(std::exception_ptr e) {
  try { std::rethrow_exception(e); }
  catch (const std::exception& x) {
    int s = 0;
    char* d = abi::__cxa_demangle(typeid(x).name(), nullptr, nullptr, &s);
    std::string r = std::string(d ? d : typeid(x).name()) + ": " + x.what();
    free(d);
    return r;
  } catch (...) { return "unknown exception"; }
}
} // namespace

uint64_t seed() { static uint64_t s = [] { const char* e = getenv("VERIF_SEED"); return e && *e ? strtoull(e, nullptr, 10) : 1ull; }(); return s; }
bool thorough() { static bool t = [] { const char* e = getenv("VERIF_TIER"); return e && std::string(e) == "thorough"; }(); return t; }
Rng rng(const std::string& stream) { Rng r(seed() * 0x9E3779B97F4A7C15ull ^ fnv(stream)); r.next(); return r; }

void violation(const std::string& key, const std::string& detail) {
  auto& s = st();
  std::lock_guard<std::mutex> l(s.m);
  int& c = s.violCount[key];
  if (++c <= 3) {
    s.viol.emplace_back(key, std::string(curBuf) + " :: " + detail);
    fprintf(stderr, "VF-FAIL key=%s case=%s detail=%s\n", key.c_str(), curBuf, detail.substr(0, 1500).c_str());
  }
}
void inconclusive(const std::string& w) { auto& s = st(); std::lock_guard<std::mutex> l(s.m); s.inconclusive.push_back(w); }
size_t violations() { auto& s = st(); std::lock_guard<std::mutex> l(s.m); return s.viol.size(); }
void count(const std::string& name, uint64_t k) { auto& s = st(); std::lock_guard<std::mutex> l(s.m); s.counters[name] += k; ticks++; }
void evaluated(uint64_t k) { auto& s = st(); std::lock_guard<std::mutex> l(s.m); s.evals += k; ticks++; }
void distinct(const std::string& f) { auto& s = st(); std::lock_guard<std::mutex> l(s.m); s.distinct.insert(fnv(f)); ticks++; }
void sample(const std::string& t) {
  auto& s = st();
  std::lock_guard<std::mutex> l(s.m);
  s.samplesSeen++;
  if (s.samples.size() < 6) s.samples.push_back(t.substr(0, 400));
  else if (s.samplesSeen % 97 == 0) s.samples[(s.samplesSeen / 97) % 6] = t.substr(0, 400);
}
void progress() { ticks++; }
void current(const std::string& w) {
  auto& s = st();
  std::lock_guard<std::mutex> l(s.m);
  size_t k = std::min(w.size(), sizeof curBuf - 1);
  memcpy(curBuf, w.data(), k);
  curBuf[k] = 0;
  ticks++;
}
// "i/n": this process runs every n-th case, starting with the i-th
static bool mine() {
  static unsigned i = 0, n = 1;
  static bool init = [] { if (auto* e = getenv("VF_SHARD")) sscanf(e, "%u/%u", &i, &n); return true; }();
  static std::atomic<unsigned> k{0};
  (void)init;
  return n < 2 || k++ % n == i;
}
void runCase(const std::string& name, const std::function<void()>& f) {
  if (!mine()) return;
  current(name);
  evaluated();
  static bool times = getenv("VF_TIMES");
  auto t0 = std::chrono::steady_clock::now();
  struct Say { std::function<void()> f; ~Say() { if (f) f(); } } say;
  if (times) say.f = [&] { fprintf(stderr, "VF-TIME %8.3f %s\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), name.c_str()); };
  try { f(); }
  catch (...) {
    auto w = what(std::current_exception());
    violation("unexpected-exception:" + name.substr(0, name.find(' ')), w);
  }
}

static std::vector<std::string> runThreads(int n, const std::function<void(int)>& f, const std::string* key) {
  struct Sh { std::mutex m; std::condition_variable cv; int done = 0; bool failed = false; std::vector<std::string> err; };
  auto sh = std::make_shared<Sh>();
  sh->err.resize(n);
  std::vector<std::thread> th;
  for (int i = 0; i < n; i++)
    th.emplace_back([sh, i, &f] {
      std::string e;
      try { f(i); } catch (...) { e = what(std::current_exception()); if (e.empty()) e = "?"; }
      std::lock_guard<std::mutex> l(sh->m);
      sh->err[i] = e;
      if (!e.empty()) sh->failed = true;
      sh->done++;
      sh->cv.notify_all();
    });
  {
    std::unique_lock<std::mutex> l(sh->m);
    sh->cv.wait(l, [&] { return sh->done == n || sh->failed; });
    if (sh->done < n && key) {
      // somebody died: give the rest a moment, then stop the process
      if (!sh->cv.wait_for(l, std::chrono::seconds(10), [&] { return sh->done == n; })) {
        for (int i = 0; i < n; i++) if (!sh->err[i].empty()) violation(*key, cat("party ", i, " ended with ", sh->err[i]));
        l.unlock();
        finishNow();
      }
    } else if (sh->done < n) {
      sh->cv.wait(l, [&] { return sh->done == n; }); // the watchdog covers this wait
    }
  }
  for (auto& t : th) t.join();
  return sh->err;
}
bool parties(int n, const std::string& key, const std::function<void(int)>& f) {
  auto e = runThreads(n, f, &key);
  bool ok = true;
  for (int i = 0; i < n; i++) if (!e[i].empty()) { violation(key, cat("party ", i, " ended with ", e[i])); ok = false; }
  progress();
  return ok;
}
std::vector<std::string> partiesCatch(int n, const std::function<void(int)>& f) { auto r = runThreads(n, f, nullptr); progress(); return r; }

std::string scratchDir() {
  auto& s = st();
  if (s.scratch.empty()) {
    char b[] = "/tmp/vf_scratch_XXXXXX";
    if (!mkdtemp(b)) { perror("mkdtemp"); _exit(3); }
    s.scratch = b;
  }
  return s.scratch;
}
static void cleanup() {
  auto& s = st();
  if (s.scratch.rfind("/tmp/vf_scratch_", 0) == 0) { std::error_code ec; std::filesystem::remove_all(s.scratch, ec); }
}
int finish() {
  finished = true;
  dump(true);
  cleanup();
  return 0;
}
void finishNow() {
  finished = true;
  dump(false);
  cleanup();
  _exit(0);
}
} // namespace vf

int main() {
  using namespace vf;
  st();
#ifdef VF_SAN
  __sanitizer_set_death_callback(onDeath);
#else
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, onSignal);
#endif
  signal(SIGPIPE, SIG_IGN);
  std::set_terminate([] {
    auto e = std::current_exception();
    std::string w = e ? what(e) : "terminate";
    fprintf(stderr, "VF-TERMINATE: %s\n", w.c_str());
    onDeath();
    _exit(71);
  });
  int hangSec = 90;
  if (const char* e = getenv("VF_HANG_S")) hangSec = atoi(e);
  std::thread([hangSec] {
    uint64_t last = ~0ull;
    int idle = 0;
    for (;;) {
      std::this_thread::sleep_for(std::chrono::seconds(1));
      if (finished) return;
      uint64_t t = ticks;
      if (t != last) { last = t; idle = 0; continue; }
      if (++idle >= hangSec) {
        fprintf(stderr, "VF-HANG: no progress for %d s\n", hangSec);
        onDeath();
        dump(false);
        _exit(72);
      }
    }
  }).detach();
  try { vfMain(); }
  catch (...) { violation("unexpected-exception:main", what(std::current_exception())); }
  int r = finish();
  fflush(stderr);
  fflush(stdout);
  // leak detection runs in the atexit handlers
  return r;
}
