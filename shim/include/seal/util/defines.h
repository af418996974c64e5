#pragma once
#include "seal/modulus.h"
#define SEAL_FORCE_INLINE inline __attribute__((always_inline))
#define SEAL_NODISCARD [[nodiscard]]
