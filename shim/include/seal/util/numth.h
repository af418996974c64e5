#pragma once
#include "seal/util/uintarithsmallmod.h"
namespace seal::util {
bool is_primitive_root(uint64_t root, uint64_t degree, const Modulus& m);
bool try_primitive_root(uint64_t degree, const Modulus& m, uint64_t& r);
bool try_minimal_primitive_root(uint64_t degree, const Modulus& m, uint64_t& r);
}  // namespace seal::util
