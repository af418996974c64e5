// Stand-in for the FourQ library: "points" are integers modulo the prime
// 2^246-107 (written additively), multiplication by a scalar is modular
// multiplication. It keeps the commutation laws the protocols rely on; it is of
// course not a secure group.
#pragma once
#include <openssl/bn.h>
#include <cstdint>
#include <cstring>
#include <memory>
typedef uint64_t digit_t;
typedef digit_t felm_t[2];
typedef felm_t f2elm_t[2];
struct verif_fourq_pt { uint64_t v[4]; };
typedef verif_fourq_pt point_t[1];
typedef enum {
  ECCRYPTO_SUCCESS = 0, ECCRYPTO_ERROR = 1, ECCRYPTO_ERROR_UNKNOWN = 2,
  ECCRYPTO_ERROR_INVALID_PARAMETER = 3
} ECCRYPTO_STATUS;
namespace verif_fourq {
using Bn = std::unique_ptr<BIGNUM, void (*)(BIGNUM*)>;
inline Bn New() { return Bn(BN_new(), BN_free); }
inline Bn Load(const void* p, int n = 32) { Bn b = New(); BN_lebin2bn(static_cast<const unsigned char*>(p), n, b.get()); return b; }
inline void Store(const BIGNUM* b, void* p) { BN_bn2lebinpad(b, static_cast<unsigned char*>(p), 32); }
inline const BIGNUM* Order() {
  static BIGNUM* o = [] { BIGNUM* b = BN_new(); BN_one(b); BN_lshift(b, b, 246); BN_sub_word(b, 107); return b; }();
  return o;
}
struct Ctx { BN_CTX* c = BN_CTX_new(); ~Ctx() { BN_CTX_free(c); } };
}  // namespace verif_fourq
inline bool ecc_mul(point_t p, digit_t* k, point_t q, bool) {
  verif_fourq::Ctx c;
  auto a = verif_fourq::Load(p->v), b = verif_fourq::Load(k), r = verif_fourq::New();
  BN_nnmod(b.get(), b.get(), verif_fourq::Order(), c.c);
  BN_mod_mul(r.get(), a.get(), b.get(), verif_fourq::Order(), c.c);
  verif_fourq::Store(r.get(), q->v);
  return true;
}
inline void encode(point_t p, unsigned char* out) {  // bit 127 is kept clear
  uint64_t hi = p->v[1] >> 63;
  uint64_t w[4] = {p->v[0], p->v[1] & ~(1ull << 63), (p->v[2] << 1) | hi, (p->v[3] << 1) | (p->v[2] >> 63)};
  std::memcpy(out, w, 32);
}
inline ECCRYPTO_STATUS decode(const unsigned char* in, point_t p) {
  uint64_t w[4];
  std::memcpy(w, in, 32);
  p->v[0] = w[0];
  p->v[1] = (w[1] & ~(1ull << 63)) | ((w[2] & 1) << 63);
  p->v[2] = (w[2] >> 1) | (w[3] << 63);
  p->v[3] = w[3] >> 1;
  auto a = verif_fourq::Load(p->v);
  return BN_cmp(a.get(), verif_fourq::Order()) < 0 ? ECCRYPTO_SUCCESS : ECCRYPTO_ERROR;
}
inline void mod1271(felm_t a) { a[1] &= 0x7fffffffffffffffull; }
inline ECCRYPTO_STATUS HashToCurve(f2elm_t r, point_t out) {
  verif_fourq::Ctx c;
  auto a = verif_fourq::Load(r);
  BN_nnmod(a.get(), a.get(), verif_fourq::Order(), c.c);
  verif_fourq::Store(a.get(), out->v);
  return ECCRYPTO_SUCCESS;
}
inline void to_Montgomery(const digit_t* a, digit_t* m) {
  verif_fourq::Ctx c;
  auto x = verif_fourq::Load(a);
  BN_nnmod(x.get(), x.get(), verif_fourq::Order(), c.c);
  verif_fourq::Store(x.get(), m);
}
inline void from_Montgomery(const digit_t* a, digit_t* m) { to_Montgomery(a, m); }
inline void Montgomery_inversion_mod_order(const digit_t* a, digit_t* m) {
  verif_fourq::Ctx c;
  auto x = verif_fourq::Load(a), r = verif_fourq::New();
  BN_mod_inverse(r.get(), x.get(), verif_fourq::Order(), c.c);
  verif_fourq::Store(r.get(), m);
}
