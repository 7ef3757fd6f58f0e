#pragma once
#include <condition_variable>
#include <deque>
#include <mutex>
namespace folly {
template <class T>
class BlockingQueue {
 public:
  virtual ~BlockingQueue() = default;
  virtual void put(T t) = 0;
  virtual bool get(T& t) = 0; // false: nothing there
  virtual size_t size() = 0;
};
template <class T>
class UnboundedBlockingQueue : public BlockingQueue<T> {
 public:
  void put(T t) override { std::lock_guard<std::mutex> l(m_); q_.push_back(std::move(t)); }
  bool get(T& t) override {
    std::lock_guard<std::mutex> l(m_);
    if (q_.empty()) return false;
    t = std::move(q_.front());
    q_.pop_front();
    return true;
  }
  size_t size() override { std::lock_guard<std::mutex> l(m_); return q_.size(); }
 private:
  std::mutex m_;
  std::deque<T> q_;
};
} // namespace folly
