#include "seal/seal.h"

#include <random>

namespace seal {
bool Modulus::is_prime() const noexcept {
  if (v_ < 2) return false;
  for (uint64_t p : {2ull, 3ull, 5ull, 7ull, 11ull, 13ull, 17ull, 19ull, 23ull, 29ull, 31ull, 37ull}) {
    if (v_ == p) return true;
    if (v_ % p == 0) return false;
  }
  uint64_t d = v_ - 1;
  int s = 0;
  while (!(d & 1)) { d >>= 1; s++; }
  for (uint64_t a : {2ull, 3ull, 5ull, 7ull, 11ull, 13ull, 17ull, 19ull, 23ull, 29ull, 31ull, 37ull}) {
    unsigned __int128 x = 1, b = a % v_;
    for (uint64_t e = d; e; e >>= 1) { if (e & 1) x = x * b % v_; b = b * b % v_; }
    if (x == 1 || x == v_ - 1) continue;
    bool comp = true;
    for (int i = 1; i < s && comp; i++) { x = x * x % v_; if (x == v_ - 1) comp = false; }
    if (comp) return false;
  }
  return true;
}
namespace util {
uint64_t exponentiate_uint_mod(uint64_t a, uint64_t e, const Modulus& m) {
  unsigned __int128 x = 1 % m.value(), b = a % m.value();
  for (; e; e >>= 1) { if (e & 1) x = x * b % m.value(); b = b * b % m.value(); }
  return static_cast<uint64_t>(x);
}
bool try_invert_uint_mod(uint64_t a, uint64_t m, uint64_t& r) {
  __int128 r0 = m, r1 = a % m, t0 = 0, t1 = 1;
  while (r1) {
    __int128 q = r0 / r1, x = r0 - q * r1;
    r0 = r1; r1 = x;
    x = t0 - q * t1; t0 = t1; t1 = x;
  }
  if (r0 != 1) return false;
  r = static_cast<uint64_t>(t0 < 0 ? t0 + m : t0);
  return true;
}
bool try_invert_uint_mod(uint64_t a, const Modulus& m, uint64_t& r) { return try_invert_uint_mod(a, m.value(), r); }
bool is_primitive_root(uint64_t root, uint64_t degree, const Modulus& m) {
  return root && exponentiate_uint_mod(root, degree >> 1, m) == m.value() - 1;
}
bool try_primitive_root(uint64_t degree, const Modulus& m, uint64_t& r) {
  uint64_t g = m.value() - 1;
  if (g % degree) return false;
  std::mt19937_64 rng(12345);
  for (int i = 0; i < 200; i++) {
    r = exponentiate_uint_mod(rng() % m.value(), g / degree, m);
    if (is_primitive_root(r, degree, m)) return true;
  }
  return false;
}
bool try_minimal_primitive_root(uint64_t degree, const Modulus& m, uint64_t& r) {
  uint64_t root;
  if (!try_primitive_root(degree, m, root)) return false;
  uint64_t sq = multiply_uint_mod(root, root, m), cur = root;
  r = root;
  for (uint64_t i = 0; i < degree; i += 2) {
    if (cur < r) r = cur;
    cur = multiply_uint_mod(cur, sq, m);
  }
  return true;
}
}  // namespace util
}  // namespace seal
