#pragma once
#include <cstdint>
#include <type_traits>
#include "seal/util/defines.h"
namespace seal::util {
template <class T> inline T reverse_bits(T x) {
  T r = 0;
  for (size_t i = 0; i < sizeof(T) * 8; i++) { r = static_cast<T>((r << 1) | (x & 1)); x = static_cast<T>(x >> 1); }
  return r;
}
template <class T> inline T reverse_bits(T x, int bits) {
  if (bits == 0) return 0;
  return static_cast<T>(reverse_bits<T>(x) >> (sizeof(T) * 8 - static_cast<size_t>(bits)));
}
inline int get_significant_bit_count(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }
inline int get_power_of_two(uint64_t v) { return v == 0 || (v & (v - 1)) ? -1 : __builtin_ctzll(v); }
}  // namespace seal::util
