#pragma once
#include <functional>
#include <memory>
namespace folly {
template <class T, class Tag = void>
class Singleton {
 public:
  Singleton() { f() = [] { return new T(); }; }
  explicit Singleton(std::function<T*()> c) { f() = std::move(c); }
  static std::shared_ptr<T> try_get() { static std::shared_ptr<T> p(f()()); return p; }
 private:
  static std::function<T*()>& f() { static std::function<T*()> c; return c; }
};
} // namespace folly
