#pragma once
#include <cstdint>
#include <cstddef>
// The only source of randomness of the simulator (splitmix64 / xoshiro-free, trivially portable).
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  template <typename T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};
inline uint64_t mix64(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull)); r.next(); return r.next(); }
