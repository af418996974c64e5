#pragma once
#include <cstdint>
#include <functional>
#include <limits>
#include <ostream>
#include <string>
#include <utility>

#include "fmt/format.h"

namespace yacl {
using int128_t = __int128;
using uint128_t = unsigned __int128;
}
using int128_t = __int128;
using uint128_t = unsigned __int128;

namespace yacl {
inline constexpr uint128_t MakeUint128(uint64_t high, uint64_t low) {
  return (static_cast<uint128_t>(high) << 64) | low;
}
inline constexpr int128_t MakeInt128(int64_t high, uint64_t low) {
  return static_cast<int128_t>((static_cast<uint128_t>(static_cast<uint64_t>(high)) << 64) | low);
}
inline constexpr std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) {
  return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)};
}
inline constexpr std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) {
  return {static_cast<int64_t>(v >> 64), static_cast<uint64_t>(v)};
}
inline constexpr uint128_t Uint128Max() { return ~static_cast<uint128_t>(0); }
inline constexpr uint128_t Uint128Min() { return 0; }
inline constexpr int128_t Int128Max() {
  return static_cast<int128_t>(~static_cast<uint128_t>(0) >> 1);
}
inline constexpr int128_t Int128Min() { return -Int128Max() - 1; }
}  // namespace yacl

// yacl ships operator<< at global scope.
std::ostream& operator<<(std::ostream& os, uint128_t x);
std::ostream& operator<<(std::ostream& os, int128_t x);
inline std::ostream& operator<<(std::ostream& os, uint128_t x) {
  return os << fmt::format("{}", x);
}
inline std::ostream& operator<<(std::ostream& os, int128_t x) {
  return os << fmt::format("{}", x);
}
