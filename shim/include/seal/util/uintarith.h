#pragma once
#include "seal/util/common.h"
namespace seal::util {
template <class T, class S, class U>
inline unsigned char add_uint64(T a, S b, U* r) {
  *r = static_cast<U>(a + b);
  return static_cast<unsigned char>(*r < a);
}
template <class T, class S, class U>
inline unsigned char sub_uint64(T a, S b, U* r) {
  *r = static_cast<U>(a - b);
  return static_cast<unsigned char>(static_cast<uint64_t>(b) > static_cast<uint64_t>(a));
}
template <class T, class S, class U>
inline void multiply_uint64(T a, S b, U* r) {
  unsigned __int128 p = static_cast<unsigned __int128>(a) * b;
  r[0] = static_cast<uint64_t>(p);
  r[1] = static_cast<uint64_t>(p >> 64);
}
template <class T, class S, class U>
inline void multiply_uint64_hw64(T a, S b, U* hw) {
  *hw = static_cast<U>(static_cast<uint64_t>((static_cast<unsigned __int128>(a) * b) >> 64));
}
// numerator (3 words) becomes the remainder, quotient the quotient
inline void divide_uint192_inplace(uint64_t* num, uint64_t den, uint64_t* quo) {
  unsigned __int128 rem = 0;
  uint64_t q[3] = {0, 0, 0};
  for (int i = 191; i >= 0; i--) {
    rem = (rem << 1) | ((num[i / 64] >> (i % 64)) & 1);
    if (rem >= den) { rem -= den; q[i / 64] |= uint64_t{1} << (i % 64); }
  }
  for (int i = 0; i < 3; i++) quo[i] = q[i];
  num[0] = static_cast<uint64_t>(rem); num[1] = num[2] = 0;
}
inline void divide_uint128_inplace(uint64_t* num, uint64_t den, uint64_t* quo) {
  unsigned __int128 n = (static_cast<unsigned __int128>(num[1]) << 64) | num[0];
  unsigned __int128 q = n / den;
  quo[0] = static_cast<uint64_t>(q); quo[1] = static_cast<uint64_t>(q >> 64);
  num[0] = static_cast<uint64_t>(n % den); num[1] = 0;
}
}  // namespace seal::util
