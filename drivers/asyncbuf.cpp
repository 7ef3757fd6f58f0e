// C11: prefetching buffer: an exactly-once, in-order stream whatever the
// request sizes, the buffer size and the timing of the generator.
#include <future>
#include <memory>
#include "fbpcf/engine/util/AsyncBuffer.h"
#include "vf.h"
using fbpcf::engine::util::AsyncBuffer;

struct Bomb : std::runtime_error { using std::runtime_error::runtime_error; };

template <class T, class Make>
static void streams(const char* tname, Make make) {
  auto r = vf::rng(std::string("async") + tname);
  for (size_t k = 0; k < vf::n(140, 5000); k++) {
    uint64_t bs = r.oneIn(4) ? 1 : r.range(1, r.oneIn(5) ? 3000 : 33);
    int mode = (int)r.below(5); // how the generator runs
    size_t reqs = r.below(30);
    auto delaySeed = r.next();
    std::string shape = vf::cat("stream<", tname, "> buffer=", bs, " mode=", mode, " requests=", reqs);
    vf::runCase(shape, [&] {
      auto produced = std::make_shared<std::atomic<uint64_t>>(0);
      auto running = std::make_shared<std::atomic<int>>(0);
      auto overlap = std::make_shared<std::atomic<int>>(0);
      auto calls = std::make_shared<std::atomic<int>>(0);
      auto badSize = std::make_shared<std::atomic<int>>(0);
      uint64_t pos = 0;
      // mode 4: the generator hands its work to threads of its own, which nobody but the buffer waits for
      auto threads = std::make_shared<std::vector<std::thread>>();
      auto started = std::make_shared<std::atomic<int>>(0), finished = std::make_shared<std::atomic<int>>(0);
      {
        AsyncBuffer<T> buf(bs, [=](uint64_t size) {
          int call = (*calls)++;
          if (size != bs) (*badSize)++;
          auto gen = [=]() {
            if ((*running)++) (*overlap)++;
            vf::Rng d(delaySeed + call);
            if (d.oneIn(3)) std::this_thread::sleep_for(std::chrono::microseconds(d.below(800)));
            std::vector<T> v(size);
            uint64_t base = produced->fetch_add(size);
            for (uint64_t i = 0; i < size; i++) v[i] = make(base + i);
            (*running)--;
            return v;
          };
          switch (mode) {
            case 0: return std::async(std::launch::async, gen);
            case 1: return std::async(std::launch::deferred, gen);
            case 2: { std::promise<std::vector<T>> p; p.set_value(gen()); return p.get_future(); }
            case 4: {
              auto p = std::make_shared<std::promise<std::vector<T>>>();
              (*started)++;
              threads->emplace_back([=] { auto v = gen(); if (delaySeed % 3 == 0) std::this_thread::sleep_for(std::chrono::milliseconds(8)); (*finished)++; p->set_value(std::move(v)); });
              return p->get_future();
            }
            default: return std::async(gen);
          }
        });
        for (size_t q = 0; q < reqs; q++) {
          uint64_t n = r.oneIn(6) ? 0 : r.oneIn(5) ? r.range(1, bs * 4) : r.oneIn(3) ? bs : r.range(1, 50);
          auto got = buf.getData(n);
          vf::progress();
          if (!vf::check(got.size() == n, "request-size", [&] { return vf::cat("asked ", n, " got ", got.size()); })) break;
          bool ok = true;
          uint64_t i = 0;
          for (; ok && i < n; i++) ok = got[i] == make(pos + i);
          vf::check(ok, "stream-order", [&] { return vf::cat("element ", pos + i - 1, " is not the next one"); });
          pos += n;
          vf::count("elements", n);
          vf::count("requests");
          shape += vf::cat(" ", n);
        }
        uint64_t ahead = produced->load();
        vf::check(mode == 1 || ahead <= pos + 2 * bs, "prefetch-unbounded", [&] { return vf::cat("read ", pos, " produced ", ahead, " buffer ", bs); });
      }
      // what was started uses what the owner of the buffer is about to destroy
      int left = started->load() - finished->load();
      for (auto& t : *threads) t.join();
      if (mode == 4) vf::count("own_threads", threads->size());
      vf::check(left == 0, "generator-still-running-after-destruction", [&] { return vf::cat(left, " of ", started->load()); });
      vf::check(overlap->load() == 0, "generator-runs-overlap", [&] { return ""; });
      vf::check(badSize->load() == 0, "generator-asked-for-another-size", [&] { return ""; });
      vf::check(running->load() == 0, "generator-still-running-after-destruction", [&] { return ""; });
      vf::count("generator_calls", calls->load());
      vf::distinct(shape);
      if (k < 2) vf::sample(shape);
    });
  }
}

// A generator that fails: the consumer sees the failure as an exception at the
// request that needs the data, what came before is delivered, and destruction
// of the buffer afterwards is orderly.
static void failures() {
  auto r = vf::rng("fail");
  for (size_t k = 0; k < vf::n(60, 1500); k++) {
    uint64_t bs = r.range(1, 20);
    int failAt = (int)r.below(5);
    int mode = (int)r.below(3);
    vf::runCase(vf::cat("generator-failure buffer=", bs, " fails-at-call=", failAt, " mode=", mode), [&] {
      auto calls = std::make_shared<std::atomic<int>>(0);
      uint64_t pos = 0;
      bool threw = false;
      {
        AsyncBuffer<uint64_t> buf(bs, [=](uint64_t size) {
          int c = (*calls)++;
          return std::async(mode == 1 ? std::launch::deferred : std::launch::async, [=] {
            if (c == failAt) throw Bomb("generator failed");
            std::vector<uint64_t> v(size);
            for (uint64_t i = 0; i < size; i++) v[i] = c * bs + i;
            return v;
          });
        });
        uint64_t good = bs * failAt;
        // sometimes stop before the failing block is ever needed
        uint64_t want = r.coin() ? good : good + 1 + r.below(bs);
        while (pos < want) {
          uint64_t n = std::min<uint64_t>(want - pos, r.range(1, 7));
          try {
            auto got = buf.getData(n);
            bool ok = got.size() == n;
            for (uint64_t i = 0; ok && i < n; i++) ok = got[i] == pos + i;
            vf::check(ok, "stream-order-before-failure", [&] { return ""; });
            vf::check(pos + n <= good, "failed-data-delivered", [&] { return vf::cat("read ", pos + n, " good ", good); });
            pos += n;
          } catch (const Bomb&) { threw = true; break; }
          vf::progress();
        }
        vf::check(threw == (want > good), "failure-not-reported", [&] { return vf::cat("want ", want, " good ", good, " threw ", threw); });
      }
      vf::count("generator_failures");
      vf::distinct(vf::cat("f", bs, " ", failAt, " ", mode, threw));
    });
  }
}

void vfMain() {
  streams<uint64_t>("u64", [](uint64_t i) { return i; });
  streams<unsigned char>("u8", [](uint64_t i) { return (unsigned char)(i * 131 + (i >> 8)); });
  streams<bool>("bool", [](uint64_t i) { return (bool)(__builtin_popcountll(i * 0x9E3779B97F4A7C15ull) & 1); });
  streams<std::string>("string", [](uint64_t i) { return "item-with-some-length-" + std::to_string(i); });
  failures();
}
