// Stand-in for folly/Uri.h: same grammar (RFC 3986 regex), scheme lower-cased.
#pragma once
#include <regex>
#include <stdexcept>
#include <string>
namespace folly {
class Uri {
 public:
  explicit Uri(const std::string& s) {
    static const std::regex re("([a-zA-Z][a-zA-Z0-9+.-]*):([^?#]*)(?:\\?([^#]*))?(?:#(.*))?");
    std::smatch m;
    if (!std::regex_match(s, m, re)) throw std::invalid_argument("invalid URI " + s);
    scheme_ = m[1];
    for (auto& c : scheme_) c = tolower(c);
    std::string ap = m[2];
    if (ap.rfind("//", 0) != 0) { path_ = ap; }
    else {
      auto p = ap.find('/', 2);
      std::string auth = ap.substr(2, p == std::string::npos ? std::string::npos : p - 2);
      path_ = p == std::string::npos ? "" : ap.substr(p);
      auto at = auth.rfind('@');
      if (at != std::string::npos) auth = auth.substr(at + 1);
      auto c = auth.rfind(':');
      if (c != std::string::npos && auth.find(']', c) == std::string::npos) auth = auth.substr(0, c);
      host_ = auth;
    }
    query_ = m[3];
    fragment_ = m[4];
  }
  const std::string& scheme() const { return scheme_; }
  const std::string& host() const { return host_; }
  const std::string& path() const { return path_; }
  const std::string& query() const { return query_; }
  const std::string& fragment() const { return fragment_; }
 private:
  std::string scheme_, host_, path_, query_, fragment_;
};
} // namespace folly
