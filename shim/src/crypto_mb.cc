#include "crypto_mb/x25519.h"

#include <openssl/evp.h>

mbx_status mbx_x25519_mb8(int8u* const out[8], const int8u* const sk[8], const int8u* const pk[8]) {
  for (int i = 0; i < 8; i++) {
    EVP_PKEY* a = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, sk[i], 32);
    EVP_PKEY* b = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, pk[i], 32);
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(a, nullptr);
    size_t n = 32;
    int8u tmp[32];
    bool ok = EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, b) == 1 &&
              EVP_PKEY_derive(c, tmp, &n) == 1;
    EVP_PKEY_CTX_free(c);
    EVP_PKEY_free(a);
    EVP_PKEY_free(b);
    if (!ok) return 1u << (4 * i);
    for (int k = 0; k < 32; k++) out[i][k] = tmp[k];
  }
  return 0;
}
