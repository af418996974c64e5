#pragma once
#include <cstdint>
#include "absl/types/span.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/aes/aes_intrinsics.h"
namespace yacl::crypto {
class SymmetricCrypto {
 public:
  enum class CryptoType : int { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType type, uint128_t key, uint128_t iv = 0);
  SymmetricCrypto(CryptoType type, ByteContainerView key, ByteContainerView iv);
  virtual ~SymmetricCrypto() = default;
  uint128_t Encrypt(uint128_t input) const;
  uint128_t Decrypt(uint128_t input) const;
  void Encrypt(absl::Span<const uint8_t> plaintext, absl::Span<uint8_t> ciphertext) const;
  void Decrypt(absl::Span<const uint8_t> ciphertext, absl::Span<uint8_t> plaintext) const;
  void Encrypt(absl::Span<const uint128_t> plaintext, absl::Span<uint128_t> ciphertext) const;
  void Decrypt(absl::Span<const uint128_t> ciphertext, absl::Span<uint128_t> plaintext) const;
  CryptoType GetType() const { return type_; }
  static constexpr int BlockSize() { return 16; }
 protected:
  CryptoType type_;
  AES_KEY ek_, dk_;
};
class AesEcb : public SymmetricCrypto { public: explicit AesEcb(uint128_t k) : SymmetricCrypto(CryptoType::AES128_ECB, k) {} };
uint64_t FillAesRandom(uint128_t seed, uint128_t iv, uint64_t count, absl::Span<uint8_t> out);
}  // namespace yacl::crypto
