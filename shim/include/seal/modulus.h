// Stand-in for the part of SEAL's modular arithmetic that Spiral uses. Values
// agree with SEAL's documented contracts; the algorithms are plain ones.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <stdexcept>

namespace seal {
class Modulus {
 public:
  Modulus(uint64_t v = 0) { set(v); }
  Modulus& operator=(uint64_t v) { set(v); return *this; }
  uint64_t value() const noexcept { return v_; }
  int bit_count() const noexcept { return bits_; }
  bool is_zero() const noexcept { return v_ == 0; }
  bool is_prime() const noexcept;
  size_t uint64_count() const noexcept { return 1; }
  const uint64_t* data() const noexcept { return &v_; }
  // floor(2^128 / value) as two words, then 2^128 mod value
  const std::array<uint64_t, 3>& const_ratio() const noexcept { return ratio_; }
  uint64_t reduce(uint64_t x) const { if (!v_) throw std::logic_error("zero modulus"); return x % v_; }
  bool operator==(const Modulus& o) const noexcept { return v_ == o.v_; }
  bool operator!=(const Modulus& o) const noexcept { return v_ != o.v_; }
  bool operator<(const Modulus& o) const noexcept { return v_ < o.v_; }

 private:
  void set(uint64_t v) {
    if (v >> 61 || v == 1) throw std::invalid_argument("value can be at most 61-bit and cannot be 1");
    v_ = v;
    bits_ = v ? 64 - __builtin_clzll(v) : 0;
    ratio_ = {0, 0, 0};
    if (!v) return;
    unsigned __int128 rem = 1;  // long division of 2^128
    uint64_t q[2] = {0, 0};
    for (int i = 127; i >= 0; i--) {
      rem <<= 1;
      if (rem >= v) { rem -= v; q[i / 64] |= uint64_t{1} << (i % 64); }
    }
    ratio_ = {q[0], q[1], static_cast<uint64_t>(rem)};
  }
  uint64_t v_ = 0;
  int bits_ = 0;
  std::array<uint64_t, 3> ratio_{};
};
}  // namespace seal
