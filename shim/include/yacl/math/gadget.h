#pragma once
#include <cstdint>
#include "yacl/base/exception.h"
namespace yacl::math {
// floor(log2(n)) / ceil(log2(n)); like yacl, 0 is mapped to 0.
inline uint64_t Log2Floor(uint64_t n) { return n <= 1 ? 0 : 63 - __builtin_clzll(n); }
inline uint64_t Log2Ceil(uint64_t n) { return n <= 1 ? 0 : 64 - __builtin_clzll(n - 1); }
}  // namespace yacl::math
