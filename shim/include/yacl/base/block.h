#pragma once
#include <immintrin.h>
#include <cstdint>
#include <array>
#include <cstring>
#include "yacl/base/int128.h"
namespace yacl {
// 128-bit SIMD block
struct alignas(16) block {
  __m128i mData;
  block() = default;
  block(const block&) = default;
  block& operator=(const block&) = default;
  block(uint64_t x1, uint64_t x0) { mData = _mm_set_epi64x(static_cast<long long>(x1), static_cast<long long>(x0)); }
  explicit block(uint64_t x) { mData = _mm_set_epi64x(0, static_cast<long long>(x)); }
  block(const __m128i& x) { mData = x; }  // NOLINT
  operator __m128i() const { return mData; }  // NOLINT
  __m128i& m128i() { return mData; }
  const __m128i& m128i() const { return mData; }
  template <class T> T get(size_t i) const { T t; std::memcpy(&t, reinterpret_cast<const uint8_t*>(this) + i * sizeof(T), sizeof(T)); return t; }
  template <class T> std::array<T, 16 / sizeof(T)> get() const { std::array<T, 16 / sizeof(T)> a; std::memcpy(a.data(), this, 16); return a; }
  block operator^(const block& r) const { return _mm_xor_si128(mData, r.mData); }
  block operator^(uint128_t r) const { return *this ^ block(static_cast<uint64_t>(r >> 64), static_cast<uint64_t>(r)); }
  block& operator^=(const block& r) { mData = _mm_xor_si128(mData, r.mData); return *this; }
  block operator&(const block& r) const { return _mm_and_si128(mData, r.mData); }
  block& operator&=(const block& r) { mData = _mm_and_si128(mData, r.mData); return *this; }
  block operator|(const block& r) const { return _mm_or_si128(mData, r.mData); }
  block operator~() const { return *this ^ block(~0ull, ~0ull); }
  block operator+(const block& r) const { return _mm_add_epi64(mData, r.mData); }
  block& operator+=(const block& r) { mData = _mm_add_epi64(mData, r.mData); return *this; }
  block operator-(const block& r) const { return _mm_sub_epi64(mData, r.mData); }
  block cmov(const block& r, const block& m) const { return *this ^ (m & (*this ^ r)); }
  block mm_andnot_si128(const block& r) const { return _mm_andnot_si128(mData, r.mData); }
  block cc_slli_epi64(int s) const { return _mm_slli_epi64(mData, s); }
  block mm_slli_epi64(int s) const { return _mm_slli_epi64(mData, s); }
  template <int s> block slli_epi64() const { return _mm_slli_epi64(mData, s); }
  block mm_srli_epi64(int s) const { return _mm_srli_epi64(mData, s); }
  template <int s> block mm_srai_epi16() const { return _mm_srai_epi16(mData, s); }
  int movemask_epi8() const { return _mm_movemask_epi8(mData); }
  int testc(const block& b) const { return _mm_testc_si128(mData, b.mData); }
  bool operator==(const block& r) const { auto n = _mm_xor_si128(mData, r.mData); return _mm_test_all_zeros(n, n) != 0; }
  bool operator!=(const block& r) const { return !(*this == r); }
  bool operator<(const block& r) const {
    auto x = get<uint64_t>(), y = r.get<uint64_t>();
    return x[1] < y[1] || (x[1] == y[1] && x[0] < y[0]);
  }
};
inline block toBlock(uint64_t high, uint64_t low) { return block(high, low); }
inline block toBlock(uint64_t low) { return block(0, low); }
inline const block ZeroBlock = block(0, 0);
inline const block OneBlock = block(0, 1);
inline const block AllOneBlock = block(~0ull, ~0ull);
}  // namespace yacl
