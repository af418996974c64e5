#pragma once
#include <memory>
#include "yacl/crypto/hash/hash_interface.h"
namespace yacl::crypto {
class SslHash : public HashInterface {
 public:
  explicit SslHash(HashAlgorithm a);
  ~SslHash() override;
  SslHash(const SslHash&) = delete;
  HashAlgorithm GetHashAlgorithm() const override { return algo_; }
  size_t DigestSize() const override;
  SslHash& Reset() override;
  SslHash& Update(ByteContainerView data) override;
  std::vector<uint8_t> CumulativeHash() const override;
 private:
  HashAlgorithm algo_;
  void* ctx_ = nullptr;
};
class Sha256Hash : public SslHash { public: Sha256Hash() : SslHash(HashAlgorithm::SHA256) {} };
class Sm3Hash : public SslHash { public: Sm3Hash() : SslHash(HashAlgorithm::SM3) {} };
class Blake2Hash : public SslHash { public: Blake2Hash() : SslHash(HashAlgorithm::BLAKE2B) {} };
}  // namespace yacl::crypto
