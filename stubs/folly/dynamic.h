// Stand-in for folly/dynamic.h: the part of its interface this code base uses.
#pragma once
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace folly {
class dynamic;
struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };
class dynamic {
 public:
  enum Type { NULLT, ARRAY, BOOL, DOUBLE, INT64, OBJECT, STRING };
  using Array = std::vector<dynamic>;
  using Object = std::map<std::string, dynamic>;
  class ObjectMaker;
  dynamic() = default;
  dynamic(std::nullptr_t) {}
  template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
  dynamic(T v) {
    if constexpr (std::is_same_v<T, bool>) { t_ = BOOL; i_ = v; }
    else if constexpr (std::is_floating_point_v<T>) { t_ = DOUBLE; d_ = v; }
    else { t_ = INT64; i_ = static_cast<int64_t>(v); }
  }
  dynamic(const char* s) : t_(STRING), s_(s) {}
  dynamic(std::string s) : t_(STRING), s_(std::move(s)) {}
  dynamic(std::string_view s) : t_(STRING), s_(s) {}
  dynamic(ObjectMaker (*)());
  dynamic(const ObjectMaker& m);
  dynamic(ObjectMaker&& m);
  static ObjectMaker object();
  template <class K> static ObjectMaker object(K&& k, dynamic v);
  static dynamic array() { dynamic d; d.t_ = ARRAY; return d; }
  template <class R> static dynamic array_range(const R& r) {
    dynamic d; d.t_ = ARRAY;
    for (auto&& x : r) d.a_.emplace_back(x);
    return d;
  }
  Type type() const { return t_; }
  bool isObject() const { return t_ == OBJECT; }
  bool isArray() const { return t_ == ARRAY; }
  bool isString() const { return t_ == STRING; }
  bool isInt() const { return t_ == INT64; }
  bool isDouble() const { return t_ == DOUBLE; }
  bool isBool() const { return t_ == BOOL; }
  bool isNull() const { return t_ == NULLT; }
  bool isNumber() const { return isInt() || isDouble(); }
  bool empty() const { return size() == 0; }
  size_t size() const {
    if (t_ == ARRAY) return a_.size();
    if (t_ == OBJECT) return o_.size();
    if (t_ == STRING) return s_.size();
    throw TypeError("size of a scalar");
  }
  int64_t asInt() const {
    switch (t_) { case INT64: case BOOL: return i_; case DOUBLE: return (int64_t)d_;
      case STRING: { size_t u = 0; auto v = std::stoll(s_, &u); if (u != s_.size()) throw std::range_error("asInt"); return v; }
      default: throw TypeError("asInt"); }
  }
  int64_t getInt() const { if (t_ != INT64) throw TypeError("getInt"); return i_; }
  double asDouble() const { return t_ == DOUBLE ? d_ : (double)asInt(); }
  bool asBool() const { return asInt() != 0; }
  std::string asString() const {
    switch (t_) { case STRING: return s_; case INT64: return std::to_string(i_); case BOOL: return i_ ? "true" : "false";
      case DOUBLE: return std::to_string(d_); default: throw TypeError("asString"); }
  }
  const std::string& getString() const { if (t_ != STRING) throw TypeError("getString"); return s_; }
  const dynamic& at(const std::string& k) const { need(OBJECT); auto i = o_.find(k); if (i == o_.end()) throw std::out_of_range("dynamic key " + k); return i->second; }
  dynamic& operator[](const std::string& k) & { need(OBJECT); return o_[k]; }
  dynamic& operator[](const char* k) & { return (*this)[std::string(k)]; }
  const dynamic& operator[](const std::string& k) const& { return at(k); }
  const dynamic& operator[](const char* k) const& { return at(k); }
  dynamic operator[](const char* k) && { return at(k); }
  dynamic operator[](const std::string& k) && { return at(k); }
  template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0> const dynamic& operator[](I i) const { need(ARRAY); return a_.at((size_t)i); }
  template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0> const dynamic& at(I i) const { need(ARRAY); return a_.at((size_t)i); }
  size_t count(const std::string& k) const { need(OBJECT); return o_.count(k); }
  template <class V> void insert(const std::string& k, V&& v) { need(OBJECT); o_[k] = dynamic(std::forward<V>(v)); }
  void push_back(dynamic d) { need(ARRAY); a_.push_back(std::move(d)); }
  size_t erase(const std::string& k) { need(OBJECT); return o_.erase(k); }
  struct Items {
    std::vector<std::pair<dynamic, dynamic>> v;
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
  };
  Items items() const { need(OBJECT); Items r; for (auto& [k, v] : o_) r.v.emplace_back(dynamic(k), v); return r; }
  Array::const_iterator begin() const { need(ARRAY); return a_.begin(); }
  Array::const_iterator end() const { need(ARRAY); return a_.end(); }
  dynamic& operator+=(const dynamic& o) {
    if (t_ == INT64 && o.t_ == INT64) { if (__builtin_add_overflow(i_, o.i_, &i_)) {} }
    else if (isNumber() && o.isNumber()) { double x = asDouble() + o.asDouble(); t_ = DOUBLE; d_ = x; }
    else if (t_ == STRING && o.t_ == STRING) s_ += o.s_;
    else throw TypeError("+=");
    return *this;
  }
  bool operator==(const dynamic& o) const {
    if (isNumber() && o.isNumber() && t_ != o.t_) return asDouble() == o.asDouble();
    if (t_ != o.t_) return false;
    switch (t_) { case NULLT: return true; case ARRAY: return a_ == o.a_; case OBJECT: return o_ == o.o_; case STRING: return s_ == o.s_; case DOUBLE: return d_ == o.d_; default: return i_ == o.i_; }
  }
  bool operator!=(const dynamic& o) const { return !(*this == o); }
  const Object& rawObject() const { return o_; }
  const Array& rawArray() const { return a_; }
 private:
  void need(Type t) const { if (t_ != t) throw TypeError("dynamic: wrong type"); }
  Type t_ = NULLT;
  int64_t i_ = 0;
  double d_ = 0;
  std::string s_;
  Array a_;
  Object o_;
  friend class ObjectMaker;
};
class dynamic::ObjectMaker {
 public:
  ObjectMaker() { v_.t_ = OBJECT; }
  template <class K> ObjectMaker& operator()(K&& k, dynamic v) { v_.o_[std::string(std::forward<K>(k))] = std::move(v); return *this; }
  dynamic v_;
};
inline dynamic::ObjectMaker dynamic::object() { return ObjectMaker(); }
template <class K> dynamic::ObjectMaker dynamic::object(K&& k, dynamic v) { ObjectMaker m; m(std::forward<K>(k), std::move(v)); return m; }
inline dynamic::dynamic(ObjectMaker (*)()) : t_(OBJECT) {}
inline dynamic::dynamic(const ObjectMaker& m) : dynamic(m.v_) {}
inline dynamic::dynamic(ObjectMaker&& m) : dynamic(std::move(m.v_)) {}
std::string toJson(const dynamic& d);
std::string toPrettyJson(const dynamic& d);
dynamic parseJson(std::string_view s);
} // namespace folly
