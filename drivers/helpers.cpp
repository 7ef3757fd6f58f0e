// C34: vector, functional and parsing helpers against their definitions.
#include <array>
#include <memory>
#include <cpuid.h>
#include <cstring>
#include <numeric>
#include "vf.h"
#include "fbpcf/common/FunctionalUtil.h"
#include "fbpcf/common/VectorUtil.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMatrixMultiplier.h"
#include "fbpcf/frontend/util.h"
#include "fbpcf/io/api/IOUtils.h"
#include "fbpcf/mpc_std_lib/util/util.h"
#include "fbpcf/system/CpuUtil.h"
using namespace vf;
namespace fn = fbpcf::functional;
namespace fv = fbpcf::vector;
using IO = fbpcf::io::IOUtils;

// a value that cannot be made from nothing, has no cheap moves and knows its history
struct Tag {
  std::string s;
  explicit Tag(std::string x) : s(std::move(x)) {}
  bool operator==(const Tag& o) const { return s == o.s; }
  Tag operator+(const Tag& o) const { return Tag("(" + s + "+" + o.s + ")"); }
  Tag operator^(const Tag& o) const { return Tag("(" + s + "^" + o.s + ")"); }
};
static std::ostream& operator<<(std::ostream& o, const Tag& t) { return o << t.s; }
template <class T> struct Make;
template <> struct Make<int64_t> { static int64_t of(Rng& r) { return (int64_t)(r.edgy(60)) - (int64_t)r.edgy(60); } };
template <> struct Make<uint64_t> { static uint64_t of(Rng& r) { return r.edgy(64); } };
template <> struct Make<uint8_t> { static uint8_t of(Rng& r) { return r.edgy(8); } };
template <> struct Make<int> { static int of(Rng& r) { return (int)r.edgy(29) - (int)r.edgy(29); } };
template <> struct Make<bool> { static bool of(Rng& r) { return r.coin(); } };
template <> struct Make<double> { static double of(Rng& r) { return (double)r.range(-1000, 1000) / 8; } };
template <> struct Make<std::string> { static std::string of(Rng& r) { return std::string(r.below(30), (char)('a' + r.below(26))); } };
template <> struct Make<Tag> { static Tag of(Rng& r) { return Tag(cat(r.below(1000))); } };
template <class T> static std::vector<T> vec(Rng& r, size_t n) { std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(Make<T>::of(r)); return v; }
static size_t len(Rng& r) { return r.oneIn(6) ? 0 : r.oneIn(4) ? 1 : r.oneIn(5) ? (r.oneIn(8) ? 65000 + r.below(3000) : r.below(3000)) : r.below(20); }

template <class F> static bool refuses(F f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; }
template <class T, class F, class G> static void binary(const std::string& nm, const std::vector<T>& a, const std::vector<T>& b, F lib, G def) {
  auto a0 = a, b0 = b;
  if (a.size() != b.size()) {
    count("refusals");
    if (!refuses([&] { lib(a, b); })) violation("sizes-accepted", cat(nm, " ", a.size(), " and ", b.size()));
  } else {
    auto got = lib(a, b);
    std::vector<T> want;
    for (size_t i = 0; i < a.size(); i++) want.push_back(def(a[i], b[i]));
    count("elements_compared", want.size());
    if (!(got == want)) violation("element-wise", cat(nm, " of ", a.size(), " elements"));
  }
  if (!(a == a0) || !(b == b0)) violation("argument-changed", nm);
}
template <class T> static void vectors(const char* type, size_t id) {
  std::string nm = cat("vectors of ", type, " #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    size_t n = len(r), m = r.oneIn(4) ? len(r) : n;
    if (r.oneIn(6)) m = n + 1;
    auto a = vec<T>(r, n), b = vec<T>(r, m);
    constexpr bool real = std::is_same_v<T, double>, text = std::is_same_v<T, std::string>;
    if constexpr (!std::is_same_v<T, bool>) binary<T>(cat(nm, " sum"), a, b, [](auto& x, auto& y) { return fv::Add<T>(x, y); }, [](const T& x, const T& y) -> T { return x + y; });
    if constexpr (!real && !text) binary<T>(cat(nm, " xor"), a, b, [](auto& x, auto& y) { return fv::Xor<T>(x, y); }, [](const T& x, const T& y) -> T { return x ^ y; });
    // order of the operands, number and order of the calls
    std::vector<std::pair<T, T>> calls;
    binary<T>(cat(nm, " apply"), a, b, [&](auto& x, auto& y) { calls.clear(); return fv::apply<T>(x, y, [&](T p, T q) { calls.emplace_back(p, q); return p; }); }, [](const T& x, const T&) -> T { return x; });
    binary<T>(cat(nm, " apply second"), a, b, [&](auto& x, auto& y) { return fv::apply<T>(x, y, [&](T p, T q) { return q; }); }, [](const T&, const T& y) -> T { return y; });
    if (n == m) {
      if (calls.size() != n) violation("calls", cat(nm, " ", calls.size(), " calls for ", n));
      else for (size_t i = 0; i < n; i++) if (!(calls[i].first == a[i] && calls[i].second == b[i])) { violation("calls", nm); break; }
    } else if (!calls.empty()) violation("calls", cat(nm, " before refusing"));
    // both arguments the same object
    if constexpr (!std::is_same_v<T, bool>) binary<T>(cat(nm, " with itself"), a, a, [](auto& x, auto& y) { return fv::Add<T>(x, y); }, [](const T& x, const T& y) -> T { return x + y; });
    // map to another type
    auto a0 = a;
    size_t k = 0;
    auto mapped = fn::map<T, std::string>(a, [&](const T& x) { k++; return cat(k, ":", x); });
    bool ok = mapped.size() == n && k == n;
    for (size_t i = 0; ok && i < n; i++) ok = mapped[i] == cat(i + 1, ":", T(a[i]));
    count("elements_compared", n);
    if (!ok) violation("map", nm);
    auto self = fn::map<T, T>(a, [](const T& x) { return x; });
    if (!(self == a)) violation("map", cat(nm, " identity"));
    // reduce: from the left, neither associative nor commutative
    if (n == 0) { count("refusals"); if (!refuses([&] { fn::reduce<T>(a, [](const T& x, const T&) { return x; }); })) violation("empty-reduced", nm); }
    else {
      size_t steps = 0;
      T last = fn::reduce<T>(a, [&](const T& x, const T& y) { steps++; return y; });
      T first = fn::reduce<T>(a, [&](const T& x, const T&) { return x; });
      if (!(last == T(a[n - 1])) || !(first == T(a[0])) || steps != n - 1) violation("reduce", cat(nm, " ends, ", steps, " steps for ", n));
      if constexpr (std::is_same_v<T, Tag>) {
        Tag w = a[0];
        for (size_t i = 1; i < n && i < 300; i++) w = w + a[i];
        std::vector<Tag> s(a.begin(), a.begin() + std::min<size_t>(n, 300));
        if (!(fn::reduce<Tag>(s, [](const Tag& x, const Tag& y) { return x + y; }) == w)) violation("reduce", cat(nm, " order"));
      } else if constexpr (!text) {
        double w = (double)a[0];
        for (size_t i = 1; i < n; i++) w = 0.5 * w - (double)a[i];
        std::vector<double> d;
        for (size_t i = 0; i < n; i++) d.push_back((double)a[i]);
        if (fn::reduce<double>(d, [](const double& x, const double& y) { return 0.5 * x - y; }) != w) violation("reduce", cat(nm, " value"));
      }
      count("reductions");
    }
    if (!(a == a0)) violation("argument-changed", nm);
    distinct(nm);
  });
}
// what throws inside gets out, and nothing is left behind
static void throwing(size_t id) {
  std::string nm = cat("throwing #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    size_t n = 1 + r.below(30), at = r.below(n), k = 0;
    auto a = vec<Tag>(r, n);
    auto boom = [&] { if (k++ == at) throw std::domain_error("x"); };
    int got = 0;
    try { fn::map<Tag, int>(a, [&](const Tag&) { boom(); return 1; }); } catch (const std::domain_error&) { got++; }
    k = 0;
    try { fv::apply<Tag>(a, a, [&](Tag x, Tag) { boom(); return x; }); } catch (const std::domain_error&) { got++; }
    k = 0;
    if (at < n - 1) try { fn::reduce<Tag>(a, [&](const Tag& x, const Tag&) { boom(); return x; }); } catch (const std::domain_error&) { got++; }
    count("refusals", 3);
    if (got != (at < n - 1 ? 3 : 2)) violation("exception-lost", nm);
  });
}
// ---- lines -------------------------------------------------------------------------
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string trimmed(const std::string& s) {
  size_t b = 0, e = s.size();
  while (b < e && space(s[b])) b++;
  while (e > b && space(s[e - 1])) e--;
  return s.substr(b, e - b);
}
static void line(const std::string& s) {
  std::vector<std::string> want;
  std::string t = trimmed(s), f;
  for (char c : t) if (c == ',') { want.push_back(trimmed(f)); f.clear(); } else f += c;
  want.push_back(trimmed(f));
  std::string in = s;
  auto got = IO::splitByComma(in);
  count("lines_compared");
  auto hex = [](const std::string& x) { std::string r; for (unsigned char c : x) { if (c < 33 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; } return r; };
  if (got != want) { std::string g; for (auto& x : got) g += "[" + hex(x) + "]"; violation("fields", cat("'", hex(s), "' split into ", g)); }
  if (in != s && in != t) violation("line-changed", cat("'", hex(s), "' became '", hex(in), "'"));
}
static void lines(size_t id) {
  std::string nm = cat("lines #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    for (int k = 0; k < 60; k++) {
      std::string s;
      int style = r.below(5);
      size_t n = r.oneIn(10) ? r.below(5000) : r.below(40);
      for (size_t i = 0; i < n; i++) {
        static const char few[] = ", \t\na\r\v\f", more[] = ",,x \"';0\0\n";
        s += style == 0 ? (char)r() : style == 1 ? few[r.below(8)] : style == 2 ? more[r.below(10)] : style == 3 ? (r.oneIn(6) ? ',' : (char)(33 + r.below(94))) : (char)(r.oneIn(3) ? ',' : r.oneIn(3) ? ' ' : 128 + r.below(128));
      }
      line(s);
    }
    // fields that were joined come back
    std::vector<std::string> fs;
    for (size_t i = 0, n = 1 + r.below(12); i < n; i++) { std::string f; for (size_t j = r.below(8); j--;) f += (char)("abcXYZ019-_.;"[r.below(13)]); fs.push_back(f); }
    std::string joined;
    for (size_t i = 0; i < fs.size(); i++) joined += cat(i ? "," : "", std::string(r.below(3), " \t"[r.below(2)]), fs[i], std::string(r.below(3), ' '));
    auto back = IO::splitByComma(joined);
    if (back != fs) violation("fields", cat("joined ", fs.size(), " split ", back.size()));
    distinct(nm);
  });
}
static void everyShortLine() {
  runCase("every short line", [&] {
    static const char al[] = {',', ' ', 'a', '\n', '\0', '\xff'};
    for (size_t len = 0; len <= 6; len++) {
      size_t total = 1;
      for (size_t i = 0; i < len; i++) total *= 6;
      for (size_t x = 0; x < total; x++) { std::string s; for (size_t i = 0, y = x; i < len; i++, y /= 6) s += al[y % 6]; line(s); }
    }
    distinct("every short line");
  });
}
static void paths(size_t id) {
  std::string nm = cat("paths #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    for (int k = 0; k < 40; k++) {
      std::string s;
      static const char* starts[] = {"https://", "http://", "/", "", "https:/", "HTTPS://", " https://", "x/https://", "s3://", "https//", "https://https://", "gs://", "gs:/", "s3:/", "S3://"};
      s = starts[r.below(15)];
      for (size_t i = r.below(20); i--;) s += (char)("abc./-:%"[r.below(8)]);
      auto is = [&](std::string p) { return s.substr(0, p.size()) == p; };
      bool cloud = is("https://") || is("s3://") || is("gs://"); // the addresses the cloud readers and writers take
      count("paths_compared");
      if (IO::isCloudFile(s) != cloud) violation("cloud-path", s);
      // a chunk of a multi-part upload has at least 5 MiB
      size_t w = IO::getDefaultWriterChunkSizeForFile(s), rd = IO::getDefaultReaderChunkSizeForFile(s);
      if (cloud ? w < 5u * 1024 * 1024 || rd < 1024 * 1024 : !w || !rd || w > 64u * 1024 * 1024 || rd > 64u * 1024 * 1024) violation("chunk-size", cat(s, " ", w, " ", rd));
    }
  });
}
// ---- equality of bit vectors ------------------------------------------------------------
template <size_t W> static void equality(size_t id) {
  std::string nm = cat("equality of ", W, " bits #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    struct Bit { // counts its gates; only what the check needs
      bool v = false;
      Bit operator!() const { return {!v}; }
      Bit operator^(const Bit& o) const { return {v != o.v}; }
      Bit operator&(const Bit& o) const { count("and_gates"); return {v && o.v}; }
    };
    auto one = [&](uint64_t a, uint64_t b) {
      std::array<Bit, W> x, y, z;
      for (size_t i = 0; i < W; i++) { x[i].v = a >> i & 1; y[i].v = b >> i & 1; z[i].v = r.coin(); }
      fbpcf::frontend::equalityCheck(z, x, y);
      count("equalities");
      if (z[0].v != (a == b)) violation("equality", cat(W, " bits ", a, " ", b));
    };
    uint64_t m = W == 64 ? ~0ull : (1ull << W) - 1;
    if (W <= 5) for (uint64_t a = 0; a <= m; a++) for (uint64_t b = 0; b <= m; b++) one(a, b);
    else for (int k = 0; k < 50; k++) { uint64_t a = r.edgy(W); one(a, a); one(a, r() & m); one(a, a ^ (1ull << r.below(W))); one(a, a ^ (1ull << r.below(W)) ^ (1ull << r.below(W))); one(a, ~a & m); }
    if (W > 5) for (size_t i = 0; i < W; i++) one(r() & m & ~(1ull << i), (r.s & 0) | 0); // zeros
    if (W > 5) for (size_t i = 0; i < W; i++) { uint64_t a = r() & m; one(a, a ^ (1ull << i)); } // every single bit counts
    distinct(nm);
  });
}
template <size_t... I> static void equalities(size_t id, std::index_sequence<I...>) { (equality<I + 1>(id), ...); }
template <int W> static void kinds() {
  using namespace fbpcf::frontend;
  bool ok = Signed<W>::width == W && Unsigned<W>::width == W && IsSigned<Signed<W>>::value && !IsSigned<Unsigned<W>>::value && IsBatch<Batch<Signed<W>>>::value && IsBatch<Batch<Unsigned<W>>>::value && !IsBatch<Signed<W>>::value && !IsBatch<Unsigned<W>>::value &&
            std::is_same_v<typename Batch<Signed<W>>::BasicType, Signed<W>> && std::is_same_v<typename Batch<Unsigned<W>>::BasicType, Unsigned<W>> && IsSecret<Secret<Batch<Signed<W>>>>::value && !IsSecret<Public<Unsigned<W>>>::value && std::is_same_v<typename Secret<Signed<W>>::type, Signed<W>> && std::is_same_v<typename Public<Unsigned<W>>::type, Unsigned<W>>;
  count("type_kinds");
  if (!ok) violation("type-kind", cat("width ", W));
}
template <int... I> static void allKinds(std::integer_sequence<int, I...>) { (kinds<I + 1>(), ...); }
// ---- the rest ----------------------------------------------------------------------------
static void multiplier(size_t id) {
  std::string nm = cat("stand-in matrix #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    fbpcf::engine::tuple_generator::oblivious_transfer::ferret::insecure::DummyMatrixMultiplier m;
    size_t k = 1 + r.below(50), n = r.below(200);
    std::vector<__m128i> s;
    for (size_t i = 0; i < k; i++) s.push_back(_mm_set_epi64x(r(), r()));
    auto s0 = s;
    auto got = m.multiplyWithRandomMatrix(_mm_set_epi64x(r(), r()), n, s);
    if (got.size() != n) { violation("matrix-size", nm); return; }
    for (size_t i = 0; i < n; i++) if (memcmp(&got[i], &s[i % k], 16)) { violation("matrix-row", nm); break; }
    if (memcmp(s.data(), s0.data(), 16 * k)) violation("argument-changed", nm);
    count("elements_compared", n);
    distinct(nm);
  });
}
static void cpu() {
  runCase("processor", [&] {
    unsigned a, b, c, d;
    __cpuid_count(0, 0, a, b, c, d);
    char v[13] = {0};
    memcpy(v, &b, 4); memcpy(v + 4, &d, 4); memcpy(v + 8, &c, 4);
    bool intel = !strcmp(v, "GenuineIntel");
    auto i = fbpcf::system::getCpuId(0);
    if (i.eax != a || i.ebx != b || i.ecx != c || i.edx != d) violation("processor", "identification");
    if (fbpcf::system::isIntelCpu() != intel) violation("processor", cat("vendor ", v));
    __cpuid_count(1, 0, a, b, c, d);
    bool rdrand = c >> 30 & 1;
    __cpuid_count(7, 0, a, b, c, d);
    bool rdseed = b >> 18 & 1;
    count("processor_facts", 3);
    if (fbpcf::system::isDrngSupported() != (intel && rdrand && rdseed)) violation("processor", "random numbers");
  });
}
// blocks to bits and back
static void blocks(size_t id) {
  std::string nm = cat("blocks #", id);
  runCase(nm, [&] {
    namespace ut = fbpcf::mpc_std_lib::util;
    Rng r = rng(nm);
    size_t n = r.below(id % 5 == 0 ? 300 : 6);
    std::vector<__m128i> v;
    for (size_t i = 0; i < n; i++) v.push_back(_mm_set_epi64x(r.edgy(64), r.edgy(64)));
    std::vector<std::vector<bool>> want(128, std::vector<bool>(n));
    for (size_t i = 0; i < n; i++) {
      uint64_t w[2]; memcpy(w, &v[i], 16);
      for (size_t b = 0; b < 128; b++) want[b][i] = w[b / 64] >> (b % 64) & 1;
    }
    if (ut::convertToBits(v) != want) violation("blocks-to-bits", cat(n, " blocks"));
    auto back = ut::convertFromBits(want);
    if (back.size() != n) violation("bits-to-blocks", cat(n, " blocks became ", back.size()));
    for (size_t i = 0; i < n; i++) if (memcmp(&back[i], &v[i], 16)) violation("bits-to-blocks", cat("block ", i, " of ", n));
    for (size_t k : {0, 1, 64, 127, 129, 200}) {
      bool refused = false;
      try { ut::convertFromBits(std::vector<std::vector<bool>>(k, std::vector<bool>(n))); } catch (const std::runtime_error&) { refused = true; }
      if (!refused) violation("misfit-accepted", cat(k, " bits for a block"));
      count("refusals");
    }
    count("blocks_converted", n);
  });
}

void vfMain() {
  for (size_t i = 0; i < n(400, 6000); i++) {
    vectors<int64_t>("int64", i); vectors<uint64_t>("uint64", i); vectors<uint8_t>("uint8", i); vectors<int>("int", i);
    vectors<bool>("bool", i); vectors<double>("double", i); vectors<std::string>("text", i); vectors<Tag>("tags", i);
  }
  for (size_t i = 0; i < n(100, 1000); i++) throwing(i);
  for (size_t i = 0; i < n(300, 5000); i++) lines(i);
  everyShortLine();
  for (size_t i = 0; i < n(50, 500); i++) paths(i);
  for (size_t i = 0; i < n(3, 40); i++) equalities(i, std::make_index_sequence<64>{});
  runCase("types", [&] { allKinds(std::make_integer_sequence<int, 64>{}); });
  for (size_t i = 0; i < n(100, 1000); i++) multiplier(i);
  for (size_t i = 0; i < n(100, 1000); i++) blocks(i);
  cpu();
}
