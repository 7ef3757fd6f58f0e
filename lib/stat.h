#pragma once
#include <cmath>
#include "vf.h"
namespace vf {
// ---- statistics on bit streams ---------------------------------------------
struct Bits {
  std::vector<uint64_t> w; size_t n = 0;
  void add(bool b) { if (n % 64 == 0) w.push_back(0); w.back() |= (uint64_t)b << (n % 64); n++; }
  uint64_t at(size_t pos) const { // 64 bits from pos, zero beyond the end
    size_t i = pos / 64, s = pos % 64;
    uint64_t r = i < w.size() ? w[i] >> s : 0;
    if (s && i + 1 < w.size()) r |= w[i + 1] << (64 - s);
    return r;
  }
};
inline constexpr double kSigmas = 7.5; // never by chance over all tests of a run
inline bool off(long ones, long len) { return std::fabs(2.0 * ones - len) > kSigmas * std::sqrt((double)len) ; }
inline long ones(const Bits& b, size_t from, size_t len) {
  long o = 0;
  for (size_t i = 0; i < len; i += 64) { uint64_t x = b.at(from + i); if (len - i < 64) x &= (1ull << (len - i)) - 1; o += __builtin_popcountll(x); }
  return o;
}
inline long diff(const Bits& a, size_t fa, const Bits& b, size_t fb, size_t len) {
  long o = 0;
  for (size_t i = 0; i < len; i += 64) { uint64_t x = a.at(fa + i) ^ b.at(fb + i); if (len - i < 64) x &= (1ull << (len - i)) - 1; o += __builtin_popcountll(x); }
  return o;
}
inline constexpr size_t kMin = 400;
struct Named { std::string name; Bits b; };
// a stream must look uniform on its own; false = violation reported
inline bool uniform(const std::string& key, const std::string& nm, const Bits& b) {
  if (b.n < kMin) return true;
  count("streams_tested"); count("stream_bits", b.n);
  if (off(ones(b, 0, b.n), b.n)) { violation(key, cat(nm, ": ", ones(b, 0, b.n), " ones of ", b.n, " bits")); return false; }
  for (size_t i = 0; i + 512 <= b.n; i += 512)
    if (off(ones(b, i, 512), 512)) { violation(key, cat(nm, ": ", ones(b, i, 512), " ones of 512 from bit ", i)); return false; }
  for (size_t m = 2; m <= 64; m *= 2) // every residue on its own
    for (size_t j = 0; j < m; j++) {
      long o = 0, l = 0;
      for (size_t i = j; i < b.n; i += m, l++) o += b.w[i / 64] >> (i % 64) & 1;
      if (l >= 60 && off(o, l)) { violation(key, cat(nm, ": bits ", j, " mod ", m, " have ", o, " ones of ", l)); return false; }
    }
  for (size_t lag = 1; lag + kMin <= b.n; lag++) {
    count("correlations_tested");
    long d = diff(b, 0, b, lag, b.n - lag);
    if (off(d, b.n - lag)) { violation(cat(key, "-repeats"), cat(nm, ": shifted by ", lag, " agrees with itself in ", b.n - lag - d, " of ", b.n - lag)); return false; }
    // windows: a part of it used again
    if (lag % 8 == 0) for (size_t i = 0; i + lag + 512 <= b.n; i += 512) if (long e = diff(b, i, b, i + lag, 512); off(e, 512)) { violation(cat(key, "-repeats"), cat(nm, ": bits from ", i, " come again ", lag, " later")); return false; }
  }
  return true;
}
inline bool unrelated(const std::string& key, const Named& x, const Named& y, bool lags = true) {
  if (x.b.n < kMin || y.b.n < kMin) return true;
  auto at = [&](size_t fx, size_t fy) {
    size_t l = std::min(x.b.n - fx, y.b.n - fy);
    if (l < kMin) return true;
    count("correlations_tested");
    long d = diff(x.b, fx, y.b, fy, l);
    if (off(d, l)) { violation(key, cat(x.name, " from ", fx, " and ", y.name, " from ", fy, " agree in ", l - d, " of ", l)); return false; }
    return true;
  };
  if (!at(0, 0)) return false;
  if (lags) for (size_t s = 1; s < std::max(x.b.n, y.b.n); s++) { if (s < x.b.n && !at(s, 0)) return false; if (s < y.b.n && !at(0, s)) return false; }
  return true;
}
} // namespace vf
