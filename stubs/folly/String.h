// Stand-in for folly/String.h
#pragma once
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include "folly/Range.h"
namespace folly {
namespace stub_detail {
template <class T> inline void conv(const std::string& s, T& out) { out = T(s); }
template <class T> inline std::string str(const T& t) { std::ostringstream os; os << t; return os.str(); }
inline std::string str(const std::string& t) { return t; }
inline std::string str(uint8_t t) { return std::to_string(static_cast<unsigned>(t)); }
} // namespace stub_detail
template <class C>
std::string join(const std::string& d, const C& c) {
  std::string r;
  bool first = true;
  for (auto& x : c) {
    if (!first) r += d;
    first = false;
    r += stub_detail::str(x);
  }
  return r;
}
// folly::split converts each piece to the output's value type, and throws on
// a piece that is not a number when that type is one.
template <class V>
void split(char d, const std::string& s, std::vector<V>& out, bool ignoreEmpty = false) {
  size_t b = 0;
  for (;;) {
    size_t e = s.find(d, b);
    std::string p = s.substr(b, e == std::string::npos ? std::string::npos : e - b);
    if (!(ignoreEmpty && p.empty())) {
      if constexpr (std::is_integral_v<V>) {
        size_t used = 0;
        auto v = std::stoll(p, &used);
        if (used != p.size()) throw std::range_error("folly::split conversion");
        if (static_cast<long long>(static_cast<V>(v)) != v) throw std::range_error("folly::split conversion");
        out.push_back(static_cast<V>(v));
      } else {
        out.push_back(V(p));
      }
    }
    if (e == std::string::npos) break;
    b = e + 1;
  }
}
inline std::string errnoStr(int e) { return std::string(strerror(e)); }
} // namespace folly
