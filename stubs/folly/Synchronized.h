#pragma once
#include <mutex>
#include <shared_mutex>
namespace folly {
template <class T, class M = std::shared_mutex>
class Synchronized {
 public:
  Synchronized() = default;
  explicit Synchronized(T t) : t_(std::move(t)) {}
  template <class Lk, class U>
  struct Locked {
    Lk lk; U* p;
    U* operator->() const { return p; }
    U& operator*() const { return *p; }
  };
  using WL = Locked<std::unique_lock<M>, T>;
  using RL = Locked<std::shared_lock<M>, const T>;
  WL wlock() { return WL{std::unique_lock<M>(m_), &t_}; }
  WL lock() { return wlock(); }
  RL rlock() const { return RL{std::shared_lock<M>(m_), &t_}; }
  template <class F> auto withWLock(F&& f) { auto l = wlock(); return f(*l); }
  template <class F> auto withRLock(F&& f) const { auto l = rlock(); return f(*l); }
 private:
  mutable M m_;
  T t_;
};
} // namespace folly
