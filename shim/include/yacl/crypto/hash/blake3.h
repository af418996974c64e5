#pragma once
#include <memory>
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto {
// Stand-in: a SHA-256 based extendable hash with BLAKE3's interface.
class Blake3Hash : public HashInterface {
 public:
  explicit Blake3Hash(uint64_t out_len = 32);
  HashAlgorithm GetHashAlgorithm() const override { return HashAlgorithm::BLAKE3; }
  size_t DigestSize() const override { return len_; }
  Blake3Hash& Reset() override;
  Blake3Hash& Update(ByteContainerView data) override;
  std::vector<uint8_t> CumulativeHash() const override;
 private:
  uint64_t len_;
  std::unique_ptr<SslHash> h_;
};
}  // namespace yacl::crypto
