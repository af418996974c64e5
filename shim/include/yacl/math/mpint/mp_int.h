// Functional stand-in for yacl::math::MPInt on top of OpenSSL BIGNUM.
#pragma once
#include <openssl/bn.h>
#include <memory>
#include <string>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
namespace yacl {
#ifndef VERIF_YACL_ENDIAN
#define VERIF_YACL_ENDIAN
enum class Endian { native, little, big };
#endif
}
namespace yacl::math {
class MPInt {
 public:
  MPInt() : b_(BN_new()) {}
  template <class T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
  explicit MPInt(T v) : b_(BN_new()) { Set(static_cast<int64_t>(v)); }
  template <class T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
  MPInt(T v, size_t /*reserved_bits*/) : b_(BN_new()) { Set(static_cast<int64_t>(v)); }
  MPInt(const MPInt& o) : b_(BN_dup(o.b_)) {}
  MPInt(MPInt&& o) noexcept : b_(BN_new()) { BN_swap(b_, o.b_); }
  MPInt& operator=(const MPInt& o) { if (this != &o) BN_copy(b_, o.b_); return *this; }
  MPInt& operator=(MPInt&& o) noexcept { BN_swap(b_, o.b_); return *this; }
  ~MPInt() { BN_clear_free(b_); }
  void Set(int64_t v) {
    BN_set_word(b_, v < 0 ? static_cast<uint64_t>(-(v + 1)) + 1 : static_cast<uint64_t>(v));
    BN_set_negative(b_, v < 0);
  }
  void FromMagBytes(ByteContainerView v, Endian e = Endian::native) {
    if (e == Endian::big) BN_bin2bn(v.data(), v.size(), b_);
    else BN_lebin2bn(v.data(), v.size(), b_);
  }
  Buffer ToMagBytes(Endian e = Endian::native) const {
    Buffer r(static_cast<size_t>(BN_num_bytes(b_)));
    if (r.size() == 0) return r;
    if (e == Endian::big) BN_bn2bin(b_, r.data<uint8_t>());
    else BN_bn2lebinpad(b_, r.data<uint8_t>(), r.size());
    return r;
  }
  bool IsZero() const { return BN_is_zero(b_); }
  bool IsOne() const { return BN_is_one(b_); }
  bool IsNegative() const { return BN_is_negative(b_); }
  bool IsOdd() const { return BN_is_odd(b_); }
  size_t BitCount() const { return BN_num_bits(b_); }
  void NegateInplace() { BN_set_negative(b_, !BN_is_negative(b_)); }
  void Negate(MPInt* z) const { *z = *this; z->NegateInplace(); }
  int Compare(const MPInt& o) const { return BN_cmp(b_, o.b_); }
  bool operator==(const MPInt& o) const { return Compare(o) == 0; }
  bool operator!=(const MPInt& o) const { return Compare(o) != 0; }
  bool operator<(const MPInt& o) const { return Compare(o) < 0; }
  bool operator>=(const MPInt& o) const { return Compare(o) >= 0; }
  static void Add(const MPInt& a, const MPInt& b, MPInt* c) { BN_add(c->b_, a.b_, b.b_); }
  static void Sub(const MPInt& a, const MPInt& b, MPInt* c) { BN_sub(c->b_, a.b_, b.b_); }
  static void Div(const MPInt& a, const MPInt& b, MPInt* q, MPInt* r) {
    MPInt qq, rr;
    YACL_ENFORCE(BN_div(qq.b_, rr.b_, a.b_, b.b_, Ctx()) == 1);
    *q = qq; *r = rr;
  }
  static void AddMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) { YACL_ENFORCE(BN_mod_add(d->b_, a.b_, b.b_, m.b_, Ctx()) == 1); }
  static void SubMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) { YACL_ENFORCE(BN_mod_sub(d->b_, a.b_, b.b_, m.b_, Ctx()) == 1); }
  static void MulMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) { YACL_ENFORCE(BN_mod_mul(d->b_, a.b_, b.b_, m.b_, Ctx()) == 1); }
  static void PowMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) {
    MPInt t = a.Mod(m);
    YACL_ENFORCE(BN_mod_exp(d->b_, t.b_, b.b_, m.b_, Ctx()) == 1);
  }
  static void InvertMod(const MPInt& a, const MPInt& m, MPInt* c) {
    MPInt t = a.Mod(m);
    YACL_ENFORCE(BN_mod_inverse(c->b_, t.b_, m.b_, Ctx()) != nullptr, "no modular inverse");
  }
  MPInt AddMod(const MPInt& b, const MPInt& m) const { MPInt r; AddMod(*this, b, m, &r); return r; }
  MPInt SubMod(const MPInt& b, const MPInt& m) const { MPInt r; SubMod(*this, b, m, &r); return r; }
  MPInt MulMod(const MPInt& b, const MPInt& m) const { MPInt r; MulMod(*this, b, m, &r); return r; }
  MPInt PowMod(const MPInt& b, const MPInt& m) const { MPInt r; PowMod(*this, b, m, &r); return r; }
  MPInt InvertMod(const MPInt& m) const { MPInt r; InvertMod(*this, m, &r); return r; }
  MPInt Mod(const MPInt& m) const { MPInt r; YACL_ENFORCE(BN_nnmod(r.b_, b_, m.b_, Ctx()) == 1); return r; }
  MPInt operator+(const MPInt& o) const { MPInt r; Add(*this, o, &r); return r; }
  MPInt operator-(const MPInt& o) const { MPInt r; Sub(*this, o, &r); return r; }
  MPInt operator*(const MPInt& o) const { MPInt r; BN_mul(r.b_, b_, o.b_, Ctx()); return r; }
  std::string ToString() const { char* p = BN_bn2dec(b_); std::string s(p); OPENSSL_free(p); return s; }
  BIGNUM* bn() { return b_; }
  const BIGNUM* bn() const { return b_; }
 private:
  static BN_CTX* Ctx() {
    thread_local std::unique_ptr<BN_CTX, void (*)(BN_CTX*)> c(BN_CTX_new(), BN_CTX_free);
    return c.get();
  }
  BIGNUM* b_;
};
}  // namespace yacl::math
