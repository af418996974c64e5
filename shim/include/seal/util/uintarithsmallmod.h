#pragma once
#include "seal/util/uintarith.h"
namespace seal::util {
inline uint64_t add_uint_mod(uint64_t a, uint64_t b, const Modulus& m) {
  return static_cast<uint64_t>((static_cast<unsigned __int128>(a) + b) % m.value());
}
inline uint64_t sub_uint_mod(uint64_t a, uint64_t b, const Modulus& m) {
  return a >= b ? a - b : a + m.value() - b;
}
inline uint64_t negate_uint_mod(uint64_t a, const Modulus& m) { return a ? m.value() - a : 0; }
inline uint64_t multiply_uint_mod(uint64_t a, uint64_t b, const Modulus& m) {
  return static_cast<uint64_t>(static_cast<unsigned __int128>(a) * b % m.value());
}
inline uint64_t div2_uint_mod(uint64_t a, const Modulus& m) {
  return a & 1 ? static_cast<uint64_t>((static_cast<unsigned __int128>(a) + m.value()) >> 1) : a >> 1;
}
template <class T> inline uint64_t barrett_reduce_64(T x, const Modulus& m) { return static_cast<uint64_t>(x) % m.value(); }
template <class T> inline uint64_t barrett_reduce_128(const T* x, const Modulus& m) {
  return static_cast<uint64_t>(((static_cast<unsigned __int128>(x[1]) << 64) | x[0]) % m.value());
}
uint64_t exponentiate_uint_mod(uint64_t a, uint64_t e, const Modulus& m);
bool try_invert_uint_mod(uint64_t a, const Modulus& m, uint64_t& r);
bool try_invert_uint_mod(uint64_t a, uint64_t m, uint64_t& r);
}  // namespace seal::util
