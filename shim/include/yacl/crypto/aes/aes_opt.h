#pragma once
#include <cstddef>
#include "yacl/crypto/aes/aes_intrinsics.h"
namespace yacl::crypto {
template <int NumKeys>
inline void AES_opt_key_schedule(const uint128_t* user_key, AES_KEY* keys) {
  for (int i = 0; i < NumKeys; ++i) AES_set_encrypt_key(user_key[i], &keys[i]);
}
template <int numKeys, int numEncs>
inline void ParaEnc(uint128_t* blks, AES_KEY* keys) {
  for (int i = 0; i < numKeys; ++i)
    for (int j = 0; j < numEncs; ++j)
      blks[i * numEncs + j] = AES_ecb_encrypt_one(keys[i], blks[i * numEncs + j]);
}
template <int numKeys, int numEncs>
inline void ParaEnc(__m128i* blks, AES_KEY* keys) { ParaEnc<numKeys, numEncs>(reinterpret_cast<uint128_t*>(blks), keys); }
}  // namespace yacl::crypto
