// Stand-in for folly's thread pool (not installed here). Like folly's: threads
// are started on demand up to the number given, tasks that throw do not end
// their thread, join() waits for everything queued and ends all threads, and a
// joined pool keeps what is added later but has nobody to run it.
#pragma once
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "folly/executors/task_queue/UnboundedBlockingQueue.h"
namespace folly {
template <class F> using Function = std::function<F>;
using Func = std::function<void()>;
class Executor {
 public:
  virtual ~Executor() = default;
  virtual void add(Func f) = 0;
};
class CPUThreadPoolExecutor : public Executor {
 public:
  struct CPUTask { Func f; };
  struct ThreadHandle { virtual ~ThreadHandle() = default; };
  class Observer {
   public:
    virtual ~Observer() = default;
    virtual void threadStarted(ThreadHandle*) {}
    virtual void threadStopped(ThreadHandle*) {}
    virtual void threadPreviouslyStarted(ThreadHandle* h) { threadStarted(h); }
    virtual void threadNotYetStopped(ThreadHandle* h) { threadStopped(h); }
  };
  explicit CPUThreadPoolExecutor(size_t n, std::unique_ptr<BlockingQueue<CPUTask>> q = std::make_unique<UnboundedBlockingQueue<CPUTask>>())
      : max_(n), q_(std::move(q)) {}
  ~CPUThreadPoolExecutor() override { stop(); }
  void addObserver(std::shared_ptr<Observer> o) {
    std::lock_guard<std::mutex> l(m_);
    obs_.push_back(o);
    for (size_t i = 0; i < ts_.size(); i++) o->threadPreviouslyStarted(&h_);
  }
  void removeObserver(std::shared_ptr<Observer> o) {
    std::lock_guard<std::mutex> l(m_);
    obs_.erase(std::remove(obs_.begin(), obs_.end(), o), obs_.end());
  }
  void add(Func f) override {
    q_->put(CPUTask{std::move(f)});
    std::lock_guard<std::mutex> l(m_);
    if (ts_.size() < max_) {
      for (auto& o : obs_) o->threadStarted(&h_);
      ts_.emplace_back([this] { run(); });
    }
    cv_.notify_one();
  }
  void join() { end(false); }
  void stop() { end(true); }
  size_t numThreads() const { return max_; }
  size_t getTaskQueueSize() const { return q_->size(); }

 private:
  void run() {
    for (;;) {
      CPUTask t;
      bool got = false;
      {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [&] { return drop_ || (got = q_->get(t)) || ending_; });
        if (!got) {
          for (auto& o : obs_) o->threadStopped(&h_);
          return;
        }
      }
      try { t.f(); } catch (...) {}
    }
  }
  void end(bool drop) {
    std::vector<std::thread> ts;
    {
      std::lock_guard<std::mutex> l(m_);
      ending_ = true;
      drop_ = drop;
      max_ = 0;
      ts.swap(ts_);
      cv_.notify_all();
    }
    for (auto& t : ts) t.join();
  }
  size_t max_;
  std::unique_ptr<BlockingQueue<CPUTask>> q_;
  std::vector<std::shared_ptr<Observer>> obs_;
  std::mutex m_;
  std::condition_variable cv_;
  std::vector<std::thread> ts_;
  ThreadHandle h_;
  bool ending_ = false, drop_ = false;
};
} // namespace folly
