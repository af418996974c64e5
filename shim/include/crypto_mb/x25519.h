// Stand-in for ippcp's 8-way X25519: eight scalar multiplications by OpenSSL.
#pragma once
#include <cstdint>
typedef uint8_t int8u;
typedef uint32_t mbx_status;
mbx_status mbx_x25519_mb8(int8u* const pa_shared_key[8], const int8u* const pa_private_key[8],
                          const int8u* const pa_public_key[8]);
