#pragma once
#include <cstdint>
#include <algorithm>
#include <limits>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/secparam.h"
namespace yacl::crypto {
void FillRand(char* buf, size_t len, bool fast_mode = false);
inline uint32_t RandU32(bool = false) { uint32_t r; FillRand(reinterpret_cast<char*>(&r), sizeof r); return r; }
inline uint64_t RandU64(bool = false) { uint64_t r; FillRand(reinterpret_cast<char*>(&r), sizeof r); return r; }
inline uint128_t RandU128(bool = false) { uint128_t r; FillRand(reinterpret_cast<char*>(&r), sizeof r); return r; }
inline uint128_t RandSeed(bool = false) { return RandU128(); }
inline uint32_t FastRandU32() { return RandU32(); }
inline uint64_t FastRandU64() { return RandU64(); }
inline uint128_t FastRandU128() { return RandU128(); }
inline uint128_t FastRandSeed() { return RandU128(); }
inline uint32_t SecureRandU32() { return RandU32(); }
inline uint64_t SecureRandU64() { return RandU64(); }
inline uint128_t SecureRandU128() { return RandU128(); }
inline uint128_t SecureRandSeed() { return RandU128(); }
template <class T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
inline void FillRand(absl::Span<T> out, bool = false) { FillRand(reinterpret_cast<char*>(out.data()), out.size() * sizeof(T)); }
inline std::vector<uint8_t> RandBytes(uint64_t len, bool = false) {
  std::vector<uint8_t> r(len);
  if (len) FillRand(reinterpret_cast<char*>(r.data()), len);
  return r;
}
inline std::vector<uint8_t> SecureRandBytes(uint64_t len) { return RandBytes(len); }
inline std::vector<uint8_t> FastRandBytes(uint64_t len) { return RandBytes(len); }
template <class T> std::vector<T> RandVec(uint64_t len, bool = false) {
  std::vector<T> r(len);
  if (len) FillRand(reinterpret_cast<char*>(r.data()), len * sizeof(T));
  return r;
}
template <class BT = dynamic_bitset<uint128_t>> BT RandBits(uint64_t len, bool = false) {
  BT b;
  b.resize(len);
  auto v = RandBytes((len + 7) / 8);
  for (uint64_t i = 0; i < len; ++i) b.set(i, (v[i / 8] >> (i % 8)) & 1);
  return b;
}
template <class T = dynamic_bitset<uint128_t>> T SecureRandBits(uint64_t len) { return RandBits<T>(len); }
template <class T = dynamic_bitset<uint128_t>> T FastRandBits(uint64_t len) { return RandBits<T>(len); }
uint64_t FillAesRandom(uint128_t seed, uint128_t iv, uint64_t count, absl::Span<uint8_t> out);

template <class T> class YaclReplayUrbg {
 public:
  using result_type = T;
  explicit YaclReplayUrbg(uint128_t seed, uint64_t ctr = 0) : seed_(seed), ctr_(ctr) {}
  static constexpr T min() { return std::numeric_limits<T>::min(); }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  T operator()() {
    T r;
    ctr_ = FillAesRandom(seed_, 0, ctr_, absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(&r), sizeof r));
    return r;
  }
  uint128_t Seed() const { return seed_; }
  uint64_t Counter() const { return ctr_; }
 private:
  uint128_t seed_;
  uint64_t ctr_;
};
template <class T> class YaclStdUrbg {
 public:
  using result_type = T;
  static constexpr T min() { return std::numeric_limits<T>::min(); }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  T operator()() { T r; FillRand(reinterpret_cast<char*>(&r), sizeof r); return r; }
};
template <class RandomIt> void ReplayShuffle(RandomIt f, RandomIt l, uint128_t seed, uint64_t* ctr) {
  YaclReplayUrbg<uint32_t> g(seed, *ctr);
  std::shuffle(f, l, g);
  *ctr = g.Counter();
}
}  // namespace yacl::crypto
