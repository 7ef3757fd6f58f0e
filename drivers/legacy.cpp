// C36: the queue channel, the executor and the small game framework of the
// legacy part, over stand-ins for emp and folly's thread pool.
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <future>
#include <mutex>
#include <thread>
#include "vf.h"
#include <emp-sh2pc/emp-sh2pc.h>
using std::endl;
#include "fbpcf/mpc/EmpApp.h"
#include "fbpcf/mpc/EmpGame.h"
#include "fbpcf/mpc/EmpTestUtil.h"
#include "fbpcf/mpc/EmpVector.h"
#include "fbpcf/mpc/IMpcGame.h"
#include "fbpcf/mpc/MpcAppExecutor.h"
#include "fbpcf/mpc/QueueIO.h"
#include "fbpcf/perf/PerfUtil.h"
using namespace vf;
using Queue = folly::Synchronized<std::queue<char>>;

// ---- emp's network channel, within the process ---------------------------------
namespace emp {
struct Rendezvous {
  std::mutex m; std::condition_variable cv;
  std::deque<char> q[2]; // to the server, to the client
  int here = 0;
};
static std::mutex portsM;
static std::map<int, std::shared_ptr<Rendezvous>> ports;
NetIO::NetIO(const char* a, int p, bool) : address(a ? a : ""), server(!a), port(p) {
  { std::lock_guard<std::mutex> l(portsM); auto& x = ports[p]; if (!x) x = std::make_shared<Rendezvous>(); r = x; }
  std::unique_lock<std::mutex> l(r->m);
  r->here++;
  r->cv.notify_all();
  r->cv.wait(l, [&] { return r->here >= 2; });
}
void NetIO::send_data_internal(const void* d, int64_t n) {
  std::lock_guard<std::mutex> l(r->m);
  for (int64_t i = 0; i < n; i++) r->q[server ? 1 : 0].push_back(((const char*)d)[i]);
  r->cv.notify_all();
}
void NetIO::recv_data_internal(void* d, int64_t n) {
  std::unique_lock<std::mutex> l(r->m);
  for (int64_t i = 0; i < n; i++) {
    auto& q = r->q[server ? 0 : 1];
    r->cv.wait(l, [&] { return !q.empty(); });
    ((char*)d)[i] = q.front(); q.pop_front();
  }
}
} // namespace emp

static char at(uint64_t key, uint64_t pos) { uint64_t x = (key + pos / 8) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (char)(x >> (pos % 8 * 8)); }
static void nap(Rng& r) { if (r.oneIn(12)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); else if (r.oneIn(3)) std::this_thread::yield(); }
static size_t piece(Rng& r) { return r.oneIn(8) ? 0 : r.oneIn(3) ? 1 : r.oneIn(10) ? r.below(3000) : r.below(60); }

// ---- the queue channel -----------------------------------------------------------
// several pairs at once, both directions at once, each direction split differently by its two ends
static void channel(size_t id) {
  std::string nm = cat("queue channel #", id);
  runCase(nm, [&] {
    Rng r0 = rng(nm);
    size_t pairs = 1 + r0.below(3), total = r0.oneIn(4) ? r0.below(20000) : r0.below(1500);
    bool oneThread = r0.oneIn(4); // sends and receives of a party alternate on one thread
    struct Pair { std::shared_ptr<Queue> a = std::make_shared<Queue>(), b = std::make_shared<Queue>(); };
    std::vector<Pair> ps(pairs);
    std::vector<std::unique_ptr<fbpcf::QueueIO>> io;
    for (auto& p : ps) {
      io.push_back(std::make_unique<fbpcf::QueueIO>(p.a, p.b));
      io.push_back(std::make_unique<fbpcf::QueueIO>(p.b, p.a));
    }
    std::atomic<size_t> recvs{0}, empties{0}, waits{0};
    std::atomic<bool> bad{false};
    auto sender = [&](size_t e, Rng& r, size_t& pos, size_t n) {
      std::vector<char> buf(n);
      for (size_t i = 0; i < n; i++) buf[i] = at(id * 100 + e, pos + i);
      auto keep = buf;
      io[e]->send_data(buf.data(), (int64_t)n);
      if (buf != keep) violation("sent-data-changed", nm);
      pos += n;
    };
    auto receiver = [&](size_t e, Rng& r, size_t& pos, size_t n) {
      std::vector<char> buf(n + 8, (char)0x5a);
      bool waiting = n && (e % 2 ? ps[e / 2].b : ps[e / 2].a)->rlock()->empty();
      io[e]->recv_data(buf.data() + 4, (int64_t)n);
      for (size_t i = 0; i < n; i++)
        if (buf[4 + i] != at(id * 100 + (e ^ 1), pos + i)) {
          if (!bad.exchange(true)) violation("wrong-byte", cat(nm, " end ", e, " byte ", pos + i, " of ", total));
          break;
        }
      for (size_t i = 0; i < 4; i++) if (buf[i] != 0x5a || buf[4 + n + i] != 0x5a) { if (!bad.exchange(true)) violation("written-outside", nm); }
      pos += n; recvs++; if (!n) empties++; if (waiting) waits++;
      progress();
    };
    size_t ends = 2 * pairs;
    parties((int)(oneThread ? ends : 2 * ends), "channel-failed", [&](int t) {
      Rng r = rng(cat(nm, " thread ", t));
      if (oneThread) {
        // in step: equal totals move in each direction before the next turn
        size_t s = 0, q = 0;
        Rng turns = rng(cat(nm, " turns ", t / 2)); // same at both ends
        while (s < total) {
          size_t n = std::min(total - s, 1 + turns.below(200)), a = 0;
          while (a < n) { size_t k = std::min(n - a, piece(r)); sender(t, r, s, k); a += k; nap(r); }
          a = 0;
          while (a < n) { size_t k = std::min(n - a, piece(r)); receiver(t, r, q, k); a += k; nap(r); }
        }
      } else {
        size_t pos = 0;
        while (pos < total) { size_t k = std::min(total - pos, piece(r)); if (t % 2) sender(t / 2, r, pos, k); else receiver(t / 2, r, pos, k); nap(r); }
      }
    });
    for (auto& p : ps)
      if (!p.a->rlock()->empty() || !p.b->rlock()->empty()) violation("bytes-left", cat(nm, ": ", p.a->rlock()->size(), " and ", p.b->rlock()->size()));
    count("bytes_compared", total * ends); count("receives", recvs); count("empty_receives", empties); count("receives_that_waited", waits);
    distinct(nm);
  });
}
// sent before anyone listens, received after the sender is gone
static void stored(size_t id) {
  std::string nm = cat("stored #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    auto a = std::make_shared<Queue>(), b = std::make_shared<Queue>();
    size_t n = r.below(5000), pos = 0;
    {
      fbpcf::QueueIO s(a, b);
      while (pos < n) { size_t k = std::min(n - pos, piece(r)); std::vector<char> v(k); for (size_t i = 0; i < k; i++) v[i] = at(id, pos + i); s.send_data(v.data(), (int64_t)k); s.flush(); pos += k; }
    }
    if (!a->rlock()->empty()) violation("own-queue-touched", nm);
    fbpcf::QueueIO q(b, a);
    for (pos = 0; pos < n;) { size_t k = std::min(n - pos, piece(r)); std::vector<char> v(k); q.recv_data(v.data(), (int64_t)k); for (size_t i = 0; i < k; i++) if (v[i] != at(id, pos + i)) { violation("wrong-byte", cat(nm, " byte ", pos + i)); return; } pos += k; }
    if (!b->rlock()->empty()) violation("bytes-left", nm);
    count("bytes_compared", n);
    distinct(nm);
  });
}
static void large() {
  runCase("more than 2 GB", [&] {
    auto a = std::make_shared<Queue>(), b = std::make_shared<Queue>();
    fbpcf::QueueIO s(a, b);
    int64_t n = (1ll << 31) + 5;
    std::vector<char> v(n, 'x');
    v[n - 1] = 'y';
    std::atomic<bool> done{false};
    std::thread t([&] { while (!done) { progress(); std::this_thread::sleep_for(std::chrono::seconds(1)); } });
    s.send_data(v.data(), n);
    size_t got = b->rlock()->size();
    if (got != (size_t)n || b->rlock()->back() != 'y') violation("large-message", cat(got, " bytes of ", n));
    done = true;
    t.join();
    distinct("large");
  });
}

// ---- the executor ------------------------------------------------------------------
struct Stage {
  std::mutex m; std::condition_variable cv;
  int running = 0, most = 0, started = 0;
  int gather = 0; // wait until as many run at once
  bool met = false;
};
struct App {
  Stage& s; int runs = 0, fail; uint64_t us; std::atomic<int> ended{0};
  App(Stage& st, int f, uint64_t u) : s(st), fail(f), us(u) {}
  void run() {
    {
      std::unique_lock<std::mutex> l(s.m);
      runs++; s.started++; s.running++; s.most = std::max(s.most, s.running);
      if (s.running >= s.gather) { s.met = true; s.cv.notify_all(); }
      else if (!s.met) s.cv.wait_for(l, std::chrono::seconds(20), [&] { return s.met; });
    }
    if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
    { std::lock_guard<std::mutex> l(s.m); s.running--; }
    ended++;
    if (fail) throw std::runtime_error("an application that fails");
  }
};
static void executor(size_t id) {
  std::string nm = cat("executor #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    int16_t c = (int16_t)(1 + (r.oneIn(5) ? r.below(20) : r.below(5)));
    fbpcf::MpcAppExecutor<App> ex(c);
    size_t rounds = r.oneIn(3) ? 2 + r.below(2) : 1;
    for (size_t k = 0; k < rounds; k++) {
      Stage s;
      size_t n = r.oneIn(8) ? 0 : r.oneIn(3) ? r.below(5) : r.below(60);
      s.gather = (int)std::min<size_t>(n, c);
      bool failing = r.oneIn(4);
      std::vector<std::unique_ptr<App>> apps;
      for (size_t i = 0; i < n; i++) apps.push_back(std::make_unique<App>(s, failing && r.oneIn(3), r.oneIn(3) ? r.below(400) : 0));
      ex.execute(apps);
      for (size_t i = 0; i < n; i++) {
        int e = apps[i]->ended;
        if (!e && !k) violation("application-not-ended", cat(nm, ": ", i, " of ", n, " when execute returned"));
        if (!e && k) violation("application-not-run-again", cat(nm, ": ", i, " of ", n, " in round ", k + 1, " of the same executor"));
        std::lock_guard<std::mutex> l(s.m);
        if (e && apps[i]->runs != 1) violation("application-repeated", cat(nm, ": ", i, " ran ", apps[i]->runs, " times"));
      }
      std::lock_guard<std::mutex> l(s.m);
      if (s.running) violation("application-still-running", nm);
      if (s.most > c) violation("too-many-at-once", cat(nm, ": ", s.most, " of ", c));
      if (!s.met && s.started) violation("concurrency-not-reached", cat(nm, ": ", s.most, " of ", s.gather, " with ", n));
      count("applications_run", s.started); count("executions"); if (k) count("executions_again");
      if (s.most > 1) count("executions_with_overlap");
    }
    distinct(nm);
  });
}

// ---- games, applications, vectors of operands, timing ------------------------------------
struct Input { int64_t v; std::string s; };
struct Output { int64_t sum; std::string s; int party; bool operator==(const Output& o) const { return sum == o.sum && s == o.s && party == o.party; } };
// tells the other its input, adds up
template <class IO> struct Game : public fbpcf::EmpGame<IO, Input, Output> {
  using Base = fbpcf::EmpGame<IO, Input, Output>;
  static thread_local int played;
  IO* io;
  Game(std::unique_ptr<IO> i, fbpcf::Party p) : Base(std::move(i), p), io((IO*)emp::setupIo) {
    if (emp::setupParty != (int)p) violation("wrong-role", cat(emp::setupParty, " for ", (int)p));
  }
  Output play(const Input& in) override {
    played++;
    int64_t n = (int64_t)in.s.size(), m = 0, v = 0;
    io->send_data(&in.v, 8); io->send_data(&n, 8); io->send_data(in.s.data(), n);
    io->recv_data(&v, 8); io->recv_data(&m, 8);
    std::string o((size_t)m, 0);
    io->recv_data(o.data(), m);
    return Output{(int64_t)((uint64_t)in.v + (uint64_t)v), this->party_ == fbpcf::Party::Alice ? in.s + o : o + in.s, (int)this->party_};
  }
};
template <class IO> thread_local int Game<IO>::played = 0;
static Input input(Rng& r) { return Input{(int64_t)r.edgy(64), std::string(r.below(200), (char)r.below(256))}; }

static void games(size_t id) {
  std::string nm = cat("game #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    Input a = input(r), b = input(r);
    auto [oa, ob] = fbpcf::mpc::test<Game<fbpcf::QueueIO>, Input, Output>(a, b);
    int64_t sum = (int64_t)((uint64_t)a.v + (uint64_t)b.v);
    if (!(oa == Output{sum, a.s + b.s, emp::ALICE}) || !(ob == Output{sum, a.s + b.s, emp::BOB})) violation("wrong-game-result", nm);
    count("games");
    distinct(nm);
  });
}
struct NetApp : public fbpcf::EmpApp<Game<emp::NetIO>, Input, Output> {
  using Base = fbpcf::EmpApp<Game<emp::NetIO>, Input, Output>;
  Input in; std::vector<Output> out; int asked = 0, tls = -1; int played = 0; std::string address; int port = 0; bool server = false;
  NetApp(fbpcf::Party p, const std::string& ip, uint16_t port, Input i) : Base(p, ip, port), in(i) {}
  NetApp(fbpcf::Party p, const std::string& ip, uint16_t port, bool tls, const std::string& dir, Input i) : Base(p, ip, port, tls, dir), in(i) {}
  Input getInputData() override { asked++; Game<emp::NetIO>::played = 0; return in; }
  void putOutputData(const Output& o) override {
    out.push_back(o);
    played = Game<emp::NetIO>::played;
    auto io = (emp::NetIO*)emp::setupIo;
    address = io->address; port = io->port; server = io->server;
  }
  bool useTls() const { return useTls_; }
  std::string dir() const { return tlsDir_; }
};
// both sides run their applications by executors of their own
static void applications(size_t id) {
  std::string nm = cat("applications #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    { std::lock_guard<std::mutex> l(emp::portsM); emp::ports.clear(); }
    size_t n = r.below(12);
    int16_t c = (int16_t)(1 + r.below(6));
    std::vector<std::unique_ptr<NetApp>> as, bs;
    std::vector<Input> ia, ib;
    for (size_t i = 0; i < n; i++) {
      ia.push_back(input(r)); ib.push_back(input(r));
      uint16_t port = (uint16_t)(r.oneIn(4) ? 65535 - i : 5000 + i);
      std::string ip = cat("10.0.0.", i);
      if (r.coin()) as.push_back(std::make_unique<NetApp>(fbpcf::Party::Alice, "", port, ia[i])); else as.push_back(std::make_unique<NetApp>(fbpcf::Party::Alice, ip, port, true, "/d", ia[i]));
      if (r.coin()) bs.push_back(std::make_unique<NetApp>(fbpcf::Party::Bob, ip, port, ib[i])); else bs.push_back(std::make_unique<NetApp>(fbpcf::Party::Bob, ip, port, false, "/e", ib[i]));
    }
    parties(2, "applications-failed", [&](int p) {
      fbpcf::MpcAppExecutor<NetApp> ex(c);
      ex.execute(p ? bs : as);
    });
    for (size_t i = 0; i < n; i++) {
      int64_t sum = (int64_t)((uint64_t)ia[i].v + (uint64_t)ib[i].v);
      for (auto* x : {as[i].get(), bs[i].get()}) {
        int party = x == as[i].get() ? emp::ALICE : emp::BOB;
        if (x->out.size() != 1 || !(x->out[0] == Output{sum, ia[i].s + ib[i].s, party})) violation("wrong-application-result", cat(nm, " ", i));
        if (x->asked != 1 || x->played != 1) violation("application-steps", cat(nm, " ", i, ": input asked ", x->asked, " times, played ", x->played));
        if (x->server != (party == emp::ALICE) || (party == emp::BOB && x->address != cat("10.0.0.", i))) violation("wrong-address", cat(nm, " ", i, ": ", x->address));
      }
      if (as[i]->port != bs[i]->port) violation("wrong-port", nm);
    }
    count("network_applications", 2 * n);
    distinct(nm);
  });
}
static void operands(size_t id) {
  std::string nm = cat("operands #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    fbpcf::EmpVector<emp::Integer> iv;
    fbpcf::EmpVector<emp::Bit> bv;
    std::vector<int64_t> want; std::vector<bool> bits;
    for (size_t k = r.below(6); k; k--) {
      std::vector<int64_t> v; for (size_t i = r.below(40); i; i--) v.push_back((int64_t)r.edgy(64));
      iv.add(v); want.insert(want.end(), v.begin(), v.end());
      int64_t one = (int64_t)r.edgy(64); iv.add(one); want.push_back(one);
      bool b = r.coin(); bv.add(b); bits.push_back(b);
    }
    if (iv.size() != (int64_t)want.size() || bv.size() != (int64_t)bits.size()) violation("operand-count", nm);
    size_t i = 0;
    auto res = iv.map([&](emp::Integer a, emp::Integer b) {
      if (a.size != 64 || b.size != 64 || a.party != emp::ALICE || b.party != emp::BOB || a.value != want[i] || b.value != want[i]) violation("wrong-operand", cat(nm, " ", i));
      i++;
      return emp::Integer(64, (int64_t)i, emp::PUBLIC);
    });
    for (size_t j = 0; j < want.size(); j++) if (j >= res.size() || res[j].value != (int64_t)j + 1) { violation("operand-order", nm); break; }
    i = 0;
    auto rb = bv.map([&](emp::Bit a, emp::Bit b) { if (a.bit != bits[i] || b.bit != bits[i] || a.party != emp::ALICE || b.party != emp::BOB) violation("wrong-operand", nm); i++; return emp::Bit(!a.bit); });
    for (size_t j = 0; j < bits.size(); j++) if (rb.size() != bits.size() || rb[j].bit == bits[j]) { violation("operand-order", nm); break; }
    for (int k = 0; k < 2; k++) {
      bool refused = false;
      try { if (k) iv.add(true); else bv.add<int64_t>(1); } catch (const fbpcf::PcfException&) { refused = true; }
      if (!refused) violation("operand-of-wrong-type", nm);
      count("refusals");
    }
    if (iv.size() != (int64_t)want.size() || bv.size() != (int64_t)bits.size()) violation("operand-count", cat(nm, " after refusal"));
    count("operands", want.size() + bits.size());
    distinct(nm);
  });
}
static void timed(size_t id) {
  std::string nm = cat("timed #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    int64_t x = r.range(-1000, 1000); std::string y(r.below(50), 'y');
    int calls = 0;
    std::function<int64_t(int64_t, const std::string&, std::string&)> f = [&](int64_t a, const std::string& b, std::string& c) { calls++; c += b; return a * 2 + (int64_t)b.size(); };
    std::string out = "o";
    auto g = fbpcf::perf::decorate("g", f);
    if (calls) violation("timed-early", nm);
    if (g(x, y, out) != x * 2 + (int64_t)y.size() || calls != 1 || out != "o" + y) violation("timed-result", nm);
    std::function<void(std::vector<int>&)> h = [&](std::vector<int>& v) { calls++; v.push_back(calls); if (r.oneIn(3)) throw std::out_of_range("x"); };
    auto k = fbpcf::perf::decorate("h", h);
    for (int i = 0; i < 4; i++) {
      std::vector<int> v; int before = calls;
      try { k(v); } catch (const std::out_of_range&) { count("refusals"); }
      if (calls != before + 1 || v != std::vector<int>{calls}) violation("timed-result", nm);
    }
    count("timed_calls", 5);
    distinct(nm);
  });
}

void vfMain() {
  for (size_t i = 0; i < n(150, 3000); i++) channel(i);
  for (size_t i = 0; i < n(60, 800); i++) stored(i);
  for (size_t i = 0; i < n(400, 5000); i++) executor(i);
  for (size_t i = 0; i < n(150, 2000); i++) games(i);
  for (size_t i = 0; i < n(150, 2000); i++) applications(i);
  for (size_t i = 0; i < n(30, 500); i++) operands(i);
  for (size_t i = 0; i < n(20, 300); i++) timed(i);
#if defined(__has_feature)
#if !__has_feature(thread_sanitizer)
  if (thorough()) large();
#endif
#endif
}
