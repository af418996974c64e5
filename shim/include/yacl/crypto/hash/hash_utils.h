#pragma once
#include <array>
#include <cstdint>
#include <openssl/obj_mac.h>
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/hash/blake3.h"
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto {
std::array<uint8_t, 32> Sha256(ByteContainerView data);
std::array<uint8_t, 64> Sha512(ByteContainerView data);
std::array<uint8_t, 20> Sha1(ByteContainerView data);
std::array<uint8_t, 32> Sm3(ByteContainerView data);
std::array<uint8_t, 64> Blake2(ByteContainerView data);
std::array<uint8_t, 32> Blake3(ByteContainerView data);
uint128_t Blake3_128(ByteContainerView data);
}  // namespace yacl::crypto
