// A std::mt19937_64 whose next outputs are chosen by the simulator.
#pragma once
#include <cstdint>
#include <cstring>
#include <random>
#include <vector>

namespace simrng {
inline std::uint64_t untemper(std::uint64_t z) {
  // inverse of the tempering of mt19937_64 (29,0x5555..., 17,0x71d6..., 37,
  // 0xfff7..., 43)
  z ^= z >> 43;
  z ^= (z << 37) & 0xfff7eee000000000ULL;
  // x ^= (x << 17) & b
  std::uint64_t x = z;
  for (int i = 0; i < 4; i++) {
    x = z ^ ((x << 17) & 0x71d67fffeda60000ULL);
  }
  z = x;
  for (int i = 0; i < 3; i++) {
    x = z ^ ((x >> 29) & 0x5555555555555555ULL);
  }
  return x;
}
// engine whose next outputs are `out` (up to 300), followed by others that
// depend on `tail` only
inline std::mt19937_64 engine(const std::vector<std::uint64_t>& out,
                              std::uint64_t tail = 815) {
  std::mt19937_64 e;
  static_assert(sizeof(e) == 313 * 8, "libstdc++ layout of mt19937_64");
  std::uint64_t st[313];
  for (std::size_t i = 0; i < 312; i++) {
    std::uint64_t z = (tail + i) * 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    st[i] = i < out.size() ? untemper(out[i]) : z ^ (z >> 31);
  }
  st[312] = 0; // position
  std::memcpy(&e, st, sizeof(e));
  return e;
}
} // namespace simrng
