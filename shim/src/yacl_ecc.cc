// EcGroup stand-ins: X25519 through OpenSSL ("Curve25519", clamping like
// libsodium's crypto_scalarmult) and short Weierstrass curves through EC_GROUP.
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/obj_mac.h>
#include <cstring>
#include "yacl/crypto/ecc/ecc_spi.h"
#include "yacl/crypto/hash/hash_utils.h"

namespace yacl::crypto {
namespace {
void KeyBytes(const math::MPInt& k, uint8_t out[32]) {
  YACL_ENFORCE(BN_num_bytes(k.bn()) <= 32, "scalar too long");
  YACL_ENFORCE(BN_bn2lebinpad(k.bn(), out, 32) == 32);
}
class X25519Group : public EcGroup {
 public:
  std::string GetCurveName() const override { return "Curve25519"; }
  EcPoint Mul(const EcPoint& p, const math::MPInt& k) const override {
    const auto& a = std::get<Array32>(p);
    uint8_t sk[32];
    KeyBytes(k, sk);
    EVP_PKEY* me = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, sk, 32);
    EVP_PKEY* peer = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, a.data(), 32);
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(me, nullptr);
    Array32 r{};
    size_t n = 32;
    bool ok = EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, peer) == 1 &&
              EVP_PKEY_derive(c, r.data(), &n) == 1;
    EVP_PKEY_CTX_free(c);
    EVP_PKEY_free(me);
    EVP_PKEY_free(peer);
    YACL_ENFORCE(ok, "x25519 scalar mult failed");
    return r;
  }
  EcPoint MulBase(const math::MPInt& k) const override {
    Array32 base{};
    base[0] = 9;
    return Mul(base, k);
  }
  Buffer SerializePoint(const EcPoint& p) const override { return Buffer(std::get<Array32>(p).data(), 32); }
  EcPoint DeserializePoint(ByteContainerView b) const override {
    YACL_ENFORCE(b.size() == 32, "point must be 32 bytes, got {}", b.size());
    Array32 r;
    std::memcpy(r.data(), b.data(), 32);
    return r;
  }
  uint64_t GetSerializeLength() const override { return 32; }
  EcPoint HashToCurve(HashToCurveStrategy, std::string_view in) const override { return Sha256(in); }
};

class OsslGroup : public EcGroup {
 public:
  OsslGroup(std::string name, int nid) : name_(std::move(name)), g_(EC_GROUP_new_by_curve_name(nid), EC_GROUP_free) {
    YACL_ENFORCE(g_ != nullptr, "curve {} unavailable", name_);
  }
  std::string GetCurveName() const override { return name_; }
  using P = std::shared_ptr<EC_POINT>;
  P New() const { return P(EC_POINT_new(g_.get()), EC_POINT_free); }
  static EcPoint Wrap(P p) { return AnyPtr{std::static_pointer_cast<void>(p)}; }
  static EC_POINT* Get(const EcPoint& p) { return static_cast<EC_POINT*>(std::get<AnyPtr>(p).ptr.get()); }
  EcPoint Mul(const EcPoint& p, const math::MPInt& k) const override {
    auto r = New();
    YACL_ENFORCE(EC_POINT_mul(g_.get(), r.get(), nullptr, Get(p), k.bn(), nullptr) == 1);
    return Wrap(r);
  }
  EcPoint MulBase(const math::MPInt& k) const override {
    auto r = New();
    YACL_ENFORCE(EC_POINT_mul(g_.get(), r.get(), k.bn(), nullptr, nullptr, nullptr) == 1);
    return Wrap(r);
  }
  Buffer SerializePoint(const EcPoint& p) const override {
    Buffer b(static_cast<size_t>(33));
    size_t n = EC_POINT_point2oct(g_.get(), Get(p), POINT_CONVERSION_COMPRESSED, b.data<uint8_t>(), 33, nullptr);
    b.resize(n);
    return b;
  }
  EcPoint DeserializePoint(ByteContainerView b) const override {
    auto r = New();
    YACL_ENFORCE(EC_POINT_oct2point(g_.get(), r.get(), b.data(), b.size(), nullptr) == 1, "invalid point encoding");
    return Wrap(r);
  }
  uint64_t GetSerializeLength() const override { return 33; }
  EcPoint HashToCurve(HashToCurveStrategy, std::string_view in) const override {
    auto r = New();
    auto h = Sm3(in);
    std::unique_ptr<BIGNUM, void (*)(BIGNUM*)> x(BN_new(), BN_free), p(BN_new(), BN_free);
    EC_GROUP_get_curve(g_.get(), p.get(), nullptr, nullptr, nullptr);
    for (int i = 0; i < 256; ++i) {
      BN_bin2bn(h.data(), h.size(), x.get());
      BN_nnmod(x.get(), x.get(), p.get(), Ctx());
      if (EC_POINT_set_compressed_coordinates(g_.get(), r.get(), x.get(), 0, nullptr) == 1) return Wrap(r);
      h = Sm3(ByteContainerView(h.data(), h.size()));
    }
    YACL_THROW("hash to curve failed");
  }
 private:
  static BN_CTX* Ctx() {
    thread_local std::unique_ptr<BN_CTX, void (*)(BN_CTX*)> c(BN_CTX_new(), BN_CTX_free);
    return c.get();
  }
  std::string name_;
  std::shared_ptr<EC_GROUP> g_;
};

// Additive group of integers modulo the FourQ order (same stand-in as FourQ_api.h).
class ToyGroup : public EcGroup {
 public:
  ToyGroup() { n_.FromMagBytes(std::string_view(reinterpret_cast<const char*>(kOrder), 32), Endian::little); }
  std::string GetCurveName() const override { return "FourQ"; }
  EcPoint Mul(const EcPoint& p, const math::MPInt& k) const override { return To(From(p).MulMod(k, n_)); }
  EcPoint MulBase(const math::MPInt& k) const override { return To(k.Mod(n_)); }
  Buffer SerializePoint(const EcPoint& p) const override { return Buffer(std::get<Array32>(p).data(), 32); }
  EcPoint DeserializePoint(ByteContainerView b) const override {
    YACL_ENFORCE(b.size() == 32);
    Array32 r;
    std::memcpy(r.data(), b.data(), 32);
    return r;
  }
  uint64_t GetSerializeLength() const override { return 32; }
  EcPoint HashToCurve(HashToCurveStrategy, std::string_view in) const override {
    math::MPInt x;
    x.FromMagBytes(Sha256(in), Endian::little);
    return To(x.Mod(n_));
  }
  static const uint8_t kOrder[32];
 private:
  EcPoint To(const math::MPInt& x) const {
    Array32 r{};
    BN_bn2lebinpad(x.bn(), r.data(), 32);
    return r;
  }
  math::MPInt From(const EcPoint& p) const {
    math::MPInt x;
    x.FromMagBytes(std::get<Array32>(p), Endian::little);
    return x;
  }
  math::MPInt n_;
};
// 2^246 - 107, a prime.
const uint8_t ToyGroup::kOrder[32] = {0x95, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,
                                      0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,
                                      0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x3F, 0x00};
}  // namespace

EcGroupFactory& EcGroupFactory::Instance() {
  static EcGroupFactory f;
  return f;
}
std::unique_ptr<EcGroup> EcGroupFactory::Create(const std::string& name, const SpiArg&) {
  std::string n;
  for (char c : name) n.push_back(static_cast<char>(tolower(c)));
  if (n == "curve25519") return std::make_unique<X25519Group>();
  if (n == "sm2") return std::make_unique<OsslGroup>(name, NID_sm2);
  if (n == "secp256k1") return std::make_unique<OsslGroup>(name, NID_secp256k1);
  if (n == "secp256r1") return std::make_unique<OsslGroup>(name, NID_X9_62_prime256v1);
  if (n == "fourq") return std::make_unique<ToyGroup>();
  YACL_THROW("shim has no curve {}", name);
}
}  // namespace yacl::crypto
