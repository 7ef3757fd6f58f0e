#include "folly/dynamic.h"
#include <cstdio>
#include <cstdlib>
namespace folly {
namespace {
void esc(const std::string& s, std::string& o) {
  o += '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  o += '"';
}
void dump(const dynamic& d, std::string& o) {
  switch (d.type()) {
    case dynamic::NULLT: o += "null"; break;
    case dynamic::BOOL: o += d.asBool() ? "true" : "false"; break;
    case dynamic::INT64: o += std::to_string(d.asInt()); break;
    case dynamic::DOUBLE: { char b[64]; snprintf(b, sizeof b, "%.17g", d.asDouble()); o += b; break; }
    case dynamic::STRING: esc(d.getString(), o); break;
    case dynamic::ARRAY: { o += '['; bool f = true; for (auto& x : d.rawArray()) { if (!f) o += ','; f = false; dump(x, o); } o += ']'; break; }
    case dynamic::OBJECT: { o += '{'; bool f = true; for (auto& [k, v] : d.rawObject()) { if (!f) o += ','; f = false; esc(k, o); o += ':'; dump(v, o); } o += '}'; break; }
  }
}
struct P {
  std::string_view s; size_t i = 0;
  [[noreturn]] void bad() { throw std::runtime_error("json parse error"); }
  void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
  char peek() { if (i >= s.size()) bad(); return s[i]; }
  void utf8(unsigned c, std::string& o) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  }
  std::string str() {
    std::string o; i++;
    while (peek() != '"') {
      if (s[i] == '\\') {
        i++;
        switch (peek()) {
          case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
          case 'u': { if (i + 4 >= s.size()) bad(); utf8((unsigned)strtoul(std::string(s.substr(i + 1, 4)).c_str(), nullptr, 16), o); i += 4; break; }
          default: o += s[i];
        }
        i++;
      } else o += s[i++];
    }
    i++;
    return o;
  }
  dynamic val() {
    ws();
    char c = peek();
    if (c == '{') {
      dynamic d = dynamic::object; i++; ws();
      if (peek() == '}') { i++; return d; }
      for (;;) { ws(); if (peek() != '"') bad(); auto k = str(); ws(); if (peek() != ':') bad(); i++; d.insert(k, val()); ws(); if (peek() == ',') { i++; continue; } if (peek() == '}') { i++; return d; } bad(); }
    }
    if (c == '[') {
      dynamic d = dynamic::array(); i++; ws();
      if (peek() == ']') { i++; return d; }
      for (;;) { d.push_back(val()); ws(); if (peek() == ',') { i++; continue; } if (peek() == ']') { i++; return d; } bad(); }
    }
    if (c == '"') return dynamic(str());
    if (s.substr(i, 4) == "true") { i += 4; return dynamic(true); }
    if (s.substr(i, 5) == "false") { i += 5; return dynamic(false); }
    if (s.substr(i, 4) == "null") { i += 4; return dynamic(); }
    size_t b = i;
    while (i < s.size() && (isdigit((unsigned char)s[i]) || strchr_(s[i]))) i++;
    std::string n(s.substr(b, i - b));
    if (n.empty()) bad();
    if (n.find_first_of(".eE") != std::string::npos) return dynamic(std::stod(n));
    return dynamic((int64_t)std::stoll(n));
  }
  static bool strchr_(char c) { return c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E'; }
};
} // namespace
std::string toJson(const dynamic& d) { std::string o; dump(d, o); return o; }
std::string toPrettyJson(const dynamic& d) { return toJson(d); }
dynamic parseJson(std::string_view s) { P p{s}; auto v = p.val(); p.ws(); if (p.i != s.size()) p.bad(); return v; }
} // namespace folly
