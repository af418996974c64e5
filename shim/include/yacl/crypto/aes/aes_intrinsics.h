#pragma once
#include <immintrin.h>
#include <cstdint>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
struct AES_KEY { __m128i rd_key[11]; unsigned rounds = 10; };
void AES_set_encrypt_key(uint128_t userkey, AES_KEY* key);
void AES_set_decrypt_key(uint128_t userkey, AES_KEY* key);
inline AES_KEY AES_set_encrypt_key(uint128_t k) { AES_KEY r; AES_set_encrypt_key(k, &r); return r; }
inline AES_KEY AES_set_decrypt_key(uint128_t k) { AES_KEY r; AES_set_decrypt_key(k, &r); return r; }
uint128_t AES_ecb_encrypt_one(const AES_KEY& key, uint128_t blk);
uint128_t AES_ecb_decrypt_one(const AES_KEY& key, uint128_t blk);
void AES_ecb_encrypt_blks(const AES_KEY& key, absl::Span<const uint128_t> plain, absl::Span<uint128_t> cipher);
void AES_ecb_decrypt_blks(const AES_KEY& key, absl::Span<const uint128_t> cipher, absl::Span<uint128_t> plain);
inline uint128_t AES_ecb_encrypt_blk(const AES_KEY& key, uint128_t b) { return AES_ecb_encrypt_one(key, b); }
}  // namespace yacl::crypto
