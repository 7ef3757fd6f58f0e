// Stand-in for folly/Format.h (folly is not installed in this sandbox).
#pragma once
#include <fmt/format.h>
#include <fmt/ranges.h>
#include <string>
#include <string_view>
namespace folly {
template <class... A>
std::string sformat(std::string_view f, A&&... a) {
  return fmt::format(fmt::runtime(f), std::forward<A>(a)...);
}
} // namespace folly
