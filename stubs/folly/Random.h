#pragma once
#include <cstdint>
#include <random>
namespace folly {
struct Random {
  static std::mt19937_64& eng() { static thread_local std::mt19937_64 e(0x5eed); return e; }
  static uint32_t rand32() { return static_cast<uint32_t>(eng()()); }
  static uint32_t rand32(uint32_t max) { return max == 0 ? 0 : rand32() % max; }
  static uint32_t rand32(uint32_t min, uint32_t max) { return max <= min ? 0 : min + rand32() % (max - min); }
  static uint64_t rand64() { return eng()(); }
  static uint64_t rand64(uint64_t max) { return max == 0 ? 0 : rand64() % max; }
  static bool oneIn(uint32_t n) { return n == 0 ? false : rand32(n) == 0; }
  template <class T> static void secureRandom(void* p, size_t n) { for (size_t i = 0; i < n; i++) ((char*)p)[i] = rand32(); }
  static uint32_t secureRand32() { return rand32(); }
};
} // namespace folly
