#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl::crypto {
enum class PRG_MODE { kNistAesCtrDrbg, kSm4Drbg, kAesEcb, kSm4Ecb };
template <class T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
inline uint64_t FillPRand(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) {
  return FillAesRandom(seed, iv, count, absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(out.data()), out.size() * sizeof(T)));
}
template <class Y, class T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
inline uint64_t FillPRandWithMersennePrime(SymmetricCrypto::CryptoType, uint128_t, uint64_t, uint64_t, absl::Span<T>);
template <class T>
inline uint64_t PrgAesCtr(uint128_t seed, absl::Span<T> out) {
  return FillAesRandom(seed, 0, 0, absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(out.data()), out.size() * sizeof(T)));
}
template <class T>
inline std::vector<T> PrgAesCtr(uint128_t seed, size_t num) {
  std::vector<T> r(num);
  PrgAesCtr<T>(seed, absl::MakeSpan(r));
  return r;
}
template <class T, size_t BATCH = 128>
class Prg {
 public:
  using result_type = T;
  explicit Prg(uint128_t seed = 0, PRG_MODE = PRG_MODE::kAesEcb) : seed_(seed) {}
  void Reset(uint128_t seed = 0) { seed_ = seed; ctr_ = 0; n_ = BATCH; }
  void SetSeed(uint128_t seed) { Reset(seed); }
  uint128_t Seed() const { return seed_; }
  uint64_t Counter() const { return ctr_; }
  void SetCounter(uint64_t c) { ctr_ = c; }
  T operator()() {
    if (n_ == BATCH) {
      ctr_ = FillAesRandom(seed_, 0, ctr_, absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(buf_.data()), BATCH * sizeof(T)));
      n_ = 0;
    }
    return buf_[n_++];
  }
  static constexpr T min() { return T{0}; }
  static constexpr T max() { return static_cast<T>(~T{0}); }
  template <class Y> void Fill(absl::Span<Y> out) {
    ctr_ = FillAesRandom(seed_, 0, ctr_, absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(out.data()), out.size() * sizeof(Y)));
  }
 private:
  uint128_t seed_;
  uint64_t ctr_ = 0;
  size_t n_ = BATCH;
  std::array<T, BATCH> buf_{};
};
}  // namespace yacl::crypto
