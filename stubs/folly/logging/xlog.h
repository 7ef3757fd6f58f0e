// Stand-in for folly/logging/xlog.h: evaluates the arguments, drops the text.
#pragma once
#include <sstream>
#include "folly/Format.h"
#include "folly/Range.h"
namespace folly_stub {
struct LogSink {
  std::ostringstream os;
  template <class T>
  LogSink& operator<<(const T& t) {
    os << t;
    return *this;
  }
};
template <class... A>
LogSink make(const A&... a) {
  LogSink s;
  ((s.os << a), ...);
  return s;
}
} // namespace folly_stub
#define XLOG(level, ...) ::folly_stub::make(__VA_ARGS__)
#define XLOGF(level, f, ...) ((void)::folly::sformat(f __VA_OPT__(, ) __VA_ARGS__))
#define XLOG_IF(level, cond, ...) ::folly_stub::make(__VA_ARGS__)
#define XLOG_EVERY_MS(level, ms, ...) ::folly_stub::make(__VA_ARGS__)
