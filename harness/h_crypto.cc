// Point blinding and hashing to the curve.
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
#include <openssl/sha.h>

#include <cstring>
#include <thread>

#include "psi/cryptor/cryptor_selector.h"
#include "psi/cryptor/fourq_cryptor.h"
#include "psi/cryptor/hash_to_curve_elligator2.h"
#include "psi/cryptor/ipp_ecc_cryptor.h"
#include "psi/cryptor/sm2_cryptor.h"
#include "psi/cryptor/sodium_curve25519_cryptor.h"
#include "world.h"
#include "yacl/utils/platform_utils.h"

namespace {
using yacl::crypto::Array32;
using yacl::crypto::EcPoint;
using Cryptor = std::unique_ptr<psi::IEccCryptor>;

// ---- small big-number layer over OpenSSL (the reference arithmetic) ----
struct Bn {
  BIGNUM* p;
  Bn() : p(BN_new()) {}
  explicit Bn(uint64_t v) : p(BN_new()) { BN_set_word(p, v); }
  Bn(const Bn& o) : p(BN_dup(o.p)) {}
  Bn& operator=(const Bn& o) { BN_copy(p, o.p); return *this; }
  ~Bn() { BN_free(p); }
  bool operator==(const Bn& o) const { return BN_cmp(p, o.p) == 0; }
};
BN_CTX* Ctx() {
  thread_local std::unique_ptr<BN_CTX, void (*)(BN_CTX*)> c(BN_CTX_new(), BN_CTX_free);
  return c.get();
}
const Bn& P() {
  static const Bn p = [] { Bn x; BN_hex2bn(&x.p, "7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFED"); return x; }();
  return p;
}
Bn Mul(const Bn& a, const Bn& b) { Bn r; BN_mod_mul(r.p, a.p, b.p, P().p, Ctx()); return r; }
Bn Add(const Bn& a, const Bn& b) { Bn r; BN_mod_add(r.p, a.p, b.p, P().p, Ctx()); return r; }
Bn Sub(const Bn& a, const Bn& b) { Bn r; BN_mod_sub(r.p, a.p, b.p, P().p, Ctx()); return r; }
Bn Neg(const Bn& a) { return Sub(Bn(0), a); }
Bn Inv(const Bn& a) {  // 0 for 0
  Bn r(0);
  if (!BN_is_zero(a.p)) BN_mod_inverse(r.p, a.p, P().p, Ctx());
  return r;
}
Bn Pow(const Bn& a, const Bn& e) { Bn r; BN_mod_exp(r.p, a.p, e.p, P().p, Ctx()); return r; }
const Bn& J() { static const Bn j(486662); return j; }
// Right side of the curve equation y^2 = x^3 + J x^2 + x.
Bn Rhs(const Bn& x) { return Mul(x, Add(Mul(x, Add(x, J())), Bn(1))); }
bool Square(const Bn& v) {
  static const Bn h = [] { Bn x; BN_sub(x.p, P().p, Bn(1).p); BN_rshift1(x.p, x.p); return x; }();
  Bn t = Pow(v, h);
  return BN_is_zero(v.p) || BN_is_one(t.p);
}
Bn Sqrt(const Bn& v) {
  Bn r;
  BN_mod_sqrt(r.p, v.p, P().p, Ctx());
  return r;
}
struct Pt { Bn x, y; bool inf = false; };
Pt PtAdd(const Pt& a, const Pt& b) {
  if (a.inf) return b;
  if (b.inf) return a;
  Bn l;
  if (a.x == b.x) {
    if (!(a.y == b.y) || BN_is_zero(a.y.p)) return {Bn(0), Bn(0), true};
    Bn num = Add(Add(Mul(Bn(3), Mul(a.x, a.x)), Mul(Mul(Bn(2), J()), a.x)), Bn(1));
    l = Mul(num, Inv(Mul(Bn(2), a.y)));
  } else {
    l = Mul(Sub(b.y, a.y), Inv(Sub(b.x, a.x)));
  }
  Bn x = Sub(Sub(Sub(Mul(l, l), J()), a.x), b.x);
  return {x, Sub(Mul(l, Sub(a.x, x)), a.y)};
}
Pt PtMul(Pt p, const Bn& k) {
  Pt r{Bn(0), Bn(0), true};
  for (int i = BN_num_bits(k.p) - 1; i >= 0; --i) {
    r = PtAdd(r, r);
    if (BN_is_bit_set(k.p, i)) r = PtAdd(r, p);
  }
  return r;
}
const Bn& Order() {  // of the prime-order subgroup
  static const Bn q = [] { Bn x; BN_hex2bn(&x.p, "1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED"); return x; }();
  return q;
}
// RFC 9380 5.3.1 with SHA-512.
std::string Expand(const std::string& msg, const std::string& dst, size_t n) {
  std::string dp = dst + char(dst.size());
  auto h = [](const std::string& s) { uint8_t o[64]; SHA512(reinterpret_cast<const uint8_t*>(s.data()), s.size(), o); return std::string(reinterpret_cast<char*>(o), 64); };
  std::string b0 = h(std::string(128, 0) + msg + char(n >> 8) + char(n) + char(0) + dp);
  std::string b = h(b0 + char(1) + dp), out = b;
  for (int i = 2; out.size() < n; ++i) {
    for (int k = 0; k < 64; ++k) b[k] ^= b0[k];
    b = h(b + char(i) + dp);
    out += b;
  }
  return out.substr(0, n);
}
// RFC 9380 6.7.1, written from the definition.
Pt Map(const Bn& u) {
  Bn t = Mul(Bn(2), Mul(u, u));
  Bn x1 = Neg(Mul(J(), Inv(Add(Bn(1), t))));
  if (BN_is_zero(x1.p)) x1 = Neg(J());
  Bn g1 = Rhs(x1);
  Bn x2 = Sub(Neg(x1), J());
  bool sq = Square(g1);
  Pt p;
  p.x = sq ? x1 : x2;
  p.y = Sqrt(sq ? g1 : Rhs(x2));
  if (BN_is_odd(p.y.p) != int(sq)) p.y = Neg(p.y);  // sgn0(y) == 1 exactly in the first case
  return p;
}
Pt RefHash(const std::string& msg, const std::string& dst) {
  std::string e = Expand(msg, dst, 96);
  Pt q[2];
  for (int i = 0; i < 2; ++i) {
    Bn u;
    BN_bin2bn(reinterpret_cast<const uint8_t*>(e.data()) + 48 * i, 48, u.p);
    BN_nnmod(u.p, u.p, P().p, Ctx());
    q[i] = Map(u);
  }
  return PtMul(PtAdd(q[0], q[1]), Bn(8));
}
std::string Be(const Bn& x) {
  std::string s(32, 0);
  BN_bn2binpad(x.p, reinterpret_cast<uint8_t*>(s.data()), 32);
  return s;
}
std::string Str(const Array32& a) { return std::string(reinterpret_cast<const char*>(a.data()), 32); }
const std::string kDst = "SECRETFLOW-V01-CS02-with-curve25519_XMD:SHA-512_ELL2_RO_";

// x as the affine coordinate of a point in the prime-order subgroup?
bool InSubgroup(const Bn& x) {
  if (BN_cmp(x.p, P().p) >= 0) return false;
  Bn g = Rhs(x);
  if (!Square(g)) return false;
  return PtMul({x, Sqrt(g)}, Order()).inf;
}

std::string GenMsg(vh::Rng& r) {
  switch (r.below(6)) {
    case 0: return "";
    case 1: return r.bytes(r.pick({1, 2, 31, 32, 33, 63, 64, 111, 112, 127, 128, 129, 1000}));
    case 2: return std::to_string(r.below(1000));
    case 3: return std::string(r.below(200), char(r.below(3)));
    default: return r.bytes(r.below(60));
  }
}

void Elligator(vh::Case& c) {
  auto& r = c.rng;
  std::string msg = GenMsg(r);
  std::string dst = r.chance(0.3) ? kDst : r.chance(0.3) ? "QUUX-V01-CS02-with-curve25519_XMD:SHA-512_ELL2_RO_" : r.bytes(r.pick({16, 17, 64, 128, 254, 255, int(r.range(16, 255))}));
  c.describe(fmt::format("msg={} ({} bytes) dst={} ({} bytes)", vh::Hex(msg, 32), msg.size(), vh::Hex(dst, 32), dst.size()));
  std::string got;
  std::string e = vh::Thrown([&] { got = Str(dst == kDst && r.chance(0.5) ? psi::HashToCurveElligator2(msg) : psi::HashToCurveElligator2(msg, dst)); });
  if (!c.check(e.empty(), "elligator:error", "{} [{}]", e, c.desc)) return;
  Pt want = RefHash(msg, dst);
  c.event("points compared with the reference");
  c.check(got == Be(want.x), "elligator:differs-from-standard", "got {} want {} [{}]", vh::Hex(got), vh::Hex(Be(want.x)), c.desc);
  Bn x;
  BN_bin2bn(reinterpret_cast<const uint8_t*>(got.data()), 32, x.p);
  c.check(InSubgroup(x), "elligator:not-in-group", "{} [{}]", vh::Hex(got), c.desc);
  c.event("group membership checked");
  c.check(Str(psi::HashToCurveElligator2(msg, dst)) == got, "elligator:not-deterministic", "[{}]", c.desc);
  // Any change of the message or the tag changes the point.
  std::string m2 = msg;
  switch (r.below(3)) {
    case 0: m2.push_back(char(r.below(2))); break;
    case 1: if (!m2.empty()) { m2.pop_back(); break; } [[fallthrough]];
    default: if (m2.empty()) m2 = "x"; else m2[r.below(m2.size())] ^= char(1 << r.below(8));
  }
  c.check(Str(psi::HashToCurveElligator2(m2, dst)) != got, "elligator:message-ignored", "other message {} [{}]", vh::Hex(m2), c.desc);
  std::string d2 = dst;
  if (d2.size() < 255 && r.chance(0.5)) d2.push_back(char(r.u64())); else d2[r.below(d2.size())] ^= char(1 << r.below(8));
  c.check(Str(psi::HashToCurveElligator2(msg, d2)) != got, "elligator:tag-ignored", "other tag {} [{}]", vh::Hex(d2), c.desc);
  c.event("variations compared", 2);
  std::string bad = r.bytes(r.chance(0.5) ? r.below(16) : r.range(256, 400));
  c.check(!vh::Thrown([&] { psi::HashToCurveElligator2(msg, bad); }).empty(), "elligator:bad-tag-accepted", "tag of {} bytes [{}]", bad.size(), c.desc);
  c.event("tags refused");
  // The cryptors over this map hash items to the point in the encoding their masking uses (little-endian).
  Cryptor cr;
  verif::pretend_ifma = r.chance(0.5);
  cr = psi::CreateEccCryptor(psi::CURVE_25519_ELLIGATOR2);
  std::string key = Str(std::get<Array32>(cr->HashToCurve(msg)));
  BN_lebin2bn(reinterpret_cast<const uint8_t*>(key.data()), 32, x.p);
  c.check(InSubgroup(x), "elligator:cryptor-point-not-in-group", "{} [{}]", vh::Hex(key), c.desc);
  c.event("cryptor points checked");
}

struct Kind { const char* name; psi::CurveType curve; bool ifma; size_t len; };
const Kind kKinds[] = {{"25519", psi::CURVE_25519, false, 32}, {"25519-ipp", psi::CURVE_25519, true, 32},
                       {"elligator2", psi::CURVE_25519_ELLIGATOR2, false, 32}, {"elligator2-ipp", psi::CURVE_25519_ELLIGATOR2, true, 32},
                       {"fourq", psi::CURVE_FOURQ, false, 32}, {"sm2", psi::CURVE_SM2, false, 33}, {"secp256k1", psi::CURVE_SECP256K1, false, 33}};

std::vector<std::string> Ser(const psi::IEccCryptor& c, const std::vector<EcPoint>& p) { return c.SerializeEcPoints(p); }

void Mask(vh::Case& c) {
  auto& r = c.rng;
  const Kind& k = kKinds[r.below(std::size(kKinds))];
  size_t n = r.pick({0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 64, 65, int(r.below(200))});
  bool slow = std::string(k.name).find("elli") == 0;
  if (slow) n = std::min<size_t>(n, 17);
  verif::pretend_ifma = k.ifma;
  auto a = psi::CreateEccCryptor(k.curve), b = psi::CreateEccCryptor(k.curve), a2 = psi::CreateEccCryptor(k.curve);
  c.describe(fmt::format("{} n={} {:x}", k.name, n, r.u64()));
  std::set<std::string> uniq;
  while (uniq.size() < n) uniq.insert(uniq.empty() && r.chance(0.3) ? "" : r.chance(0.5) ? std::to_string(r.below(4 * n + 10)) : r.bytes(r.range(1, 50)));
  std::vector<std::string> items(uniq.begin(), uniq.end());
  r.shuffle(items);
  if (r.chance(0.4)) {  // keys are set from outside (cache files)
    std::string key = r.bytes(32);
    if (k.curve == psi::CURVE_25519 || k.curve == psi::CURVE_25519_ELLIGATOR2) key[0] &= ~7, key[31] = char((key[31] & 127) | 64);
    else key[31] &= 0x1f;
    a->SetPrivateKey(absl::MakeSpan(reinterpret_cast<const uint8_t*>(key.data()), 32));
    auto g = a->GetPrivateKey();
    c.check(std::memcmp(g.data(), key.data(), 32) == 0, "mask:key-not-kept", "[{}]", c.desc);
  }
  auto kb = a->GetPrivateKey();
  a2->SetPrivateKey(kb);
  {
    std::string bad = r.bytes(r.chance(0.5) ? 31 : 33);
    c.check(!vh::Thrown([&] { a2->SetPrivateKey(absl::MakeSpan(reinterpret_cast<const uint8_t*>(bad.data()), bad.size())); }).empty(), "mask:bad-key-accepted", "{} bytes [{}]", bad.size(), c.desc);
    c.check(a2->GetPrivateKey() == kb, "mask:refused-key-kept", "[{}]", c.desc);
  }
  std::string err = vh::Thrown([&] {
    c.check(a->GetCurveType() == k.curve || k.curve == psi::CURVE_25519_ELLIGATOR2, "mask:curve-type", "{} [{}]", int(a->GetCurveType()), c.desc);
    auto pts = a->HashInputs(items);
    if (!c.check(pts.size() == n, "mask:hash-count", "{} [{}]", pts.size(), c.desc)) return;
    auto enc = Ser(*a, pts);
    std::set<std::string> dis(enc.begin(), enc.end());
    c.check(dis.size() == n, "mask:hash-collision", "{} of {} [{}]", dis.size(), n, c.desc);
    auto ma = a->EccMask(pts);
    auto ea = Ser(*a, ma), eb = Ser(*b, b->EccMask(b->DeserializeEcPoints(enc)));
    if (!c.check(ea.size() == n && eb.size() == n, "mask:count", "{} {} [{}]", ea.size(), eb.size(), c.desc)) return;
    c.event("points masked", 2 * n);
    c.check(std::set<std::string>(ea.begin(), ea.end()).size() == n, "mask:collision", "[{}]", c.desc);
    size_t wrong = 0, len = 0, un = 0;
    for (size_t i = 0; i < n; ++i) {
      auto one = a->EccMask(std::vector<EcPoint>{a->HashToCurve(items[i])});
      auto e1 = Ser(*a, one);
      wrong += e1.size() != 1 || e1[0] != ea[i];
      len += ea[i].size() != a->GetMaskLength() || ea[i].size() != k.len || enc[i].size() != k.len;
      un += ea[i] == enc[i];
    }
    c.check(!wrong, "mask:bulk-differs-from-single", "{} of {} [{}]", wrong, n, c.desc);
    c.check(!len, "mask:length", "{} of {} [{}]", len, n, c.desc);
    c.check(!un, "mask:value-unchanged", "{} of {} [{}]", un, n, c.desc);
    c.event("bulk against single", n);
    // Another split of the same batch.
    std::vector<std::string> split;
    for (size_t i = 0; i < n;) {
      size_t m = std::min<size_t>(n - i, r.range(1, 20));
      std::vector<EcPoint> part(pts.begin() + i, pts.begin() + i + m);
      for (auto& s : Ser(*a, a->EccMask(part))) split.push_back(s);
      i += m;
    }
    c.check(split == ea, "mask:split-differs", "[{}]", c.desc);
    // Same key in another object, same values; points survive the wire.
    c.check(Ser(*a2, a2->EccMask(a2->DeserializeEcPoints(enc))) == ea, "mask:same-key-differs", "[{}]", c.desc);
    c.check(Ser(*a, a->DeserializeEcPoints(ea)) == ea, "mask:wire-round-trip", "[{}]", c.desc);
    // Order of the two secrets.
    auto ab = Ser(*b, b->EccMask(b->DeserializeEcPoints(ea))), ba = Ser(*a, a->EccMask(a->DeserializeEcPoints(eb)));
    c.check(ab == ba, "mask:not-commutative", "[{}]", c.desc);
    c.check(std::set<std::string>(ab.begin(), ab.end()).size() == n, "mask:double-collision", "[{}]", c.desc);
    c.event("double masks compared", n);
    if (k.len == 33) {  // the points lie on the curve that was asked for
      std::unique_ptr<EC_GROUP, void (*)(EC_GROUP*)> g(EC_GROUP_new_by_curve_name(k.curve == psi::CURVE_SM2 ? NID_sm2 : NID_secp256k1), EC_GROUP_free);
      std::unique_ptr<EC_POINT, void (*)(EC_POINT*)> p(EC_POINT_new(g.get()), EC_POINT_free);
      for (auto& s : ab)
        if (!c.check(EC_POINT_oct2point(g.get(), p.get(), reinterpret_cast<const uint8_t*>(s.data()), s.size(), nullptr) == 1, "mask:wrong-curve", "{} [{}]", vh::Hex(s), c.desc)) break;
      c.event("points checked on the named curve", ab.size());
    } else if (k.curve == psi::CURVE_25519 || slow) {  // both implementations of one curve agree
      verif::pretend_ifma = !k.ifma;
      auto o = psi::CreateEccCryptor(k.curve);
      o->SetPrivateKey(kb);
      c.check(Ser(*o, o->HashInputs(items)) == enc, "mask:implementations-hash-differently", "[{}]", c.desc);
      c.check(Ser(*o, o->EccMask(o->DeserializeEcPoints(enc))) == ea, "mask:implementations-mask-differently", "[{}]", c.desc);
      c.event("implementations compared", n);
    }
    if (n && k.len == 32) {
      std::string bad = ea[0].substr(0, 31);
      c.check(!vh::Thrown([&] { a->DeserializeEcPoint(bad); }).empty(), "mask:short-point-accepted", "[{}]", c.desc);
    }
  });
  c.check(err.empty(), "mask:error", "{} [{}]", err.substr(0, 300), c.desc);
}

void Exchange(vh::Case& c) {  // the two parties of a key agreement get one key
  auto& r = c.rng;
  c.describe(fmt::format("{:x}", r.u64()));
  auto w = vw::MakeWorld(2);
  std::vector<uint8_t> k[2];
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(2);
  for (int i = 0; i < 2; ++i) f[i] = [&, i](auto& l) { k[i] = psi::SodiumCurve25519Cryptor().KeyExchange(l); };
  auto e = vw::RunRanks(w, f);
  c.check(e[0].empty() && e[1].empty(), "exchange:error", "{} / {}", e[0], e[1]);
  c.check(k[0] == k[1] && k[0].size() == 32, "exchange:keys-differ", "{} and {} bytes", k[0].size(), k[1].size());
  static std::mutex mu;
  static std::set<std::vector<uint8_t>> seen;
  std::lock_guard<std::mutex> g(mu);
  c.check(seen.insert(k[0]).second, "exchange:key-repeated", "");
  c.event("keys agreed");
}

void Concurrent(vh::Case& c) {  // several threads share one cryptor (race detector)
  auto& r = c.rng;
  const Kind& k = kKinds[r.below(std::size(kKinds))];
  verif::pretend_ifma = k.ifma;
  auto a = psi::CreateEccCryptor(k.curve);
  size_t n = std::string(k.name).find("elli") == 0 ? 6 : r.range(5, 90), t = r.range(2, 4);
  c.describe(fmt::format("{} n={} threads={} {:x}", k.name, n, t, r.u64()));
  std::vector<std::vector<std::string>> items(t), got(t);
  for (auto& v : items) for (size_t i = 0; i < n; ++i) v.push_back(r.bytes(12));
  std::vector<std::thread> th;
  for (size_t i = 0; i < t; ++i) th.emplace_back([&, i] { got[i] = Ser(*a, a->EccMask(a->HashInputs(items[i]))); });
  for (auto& x : th) x.join();
  for (size_t i = 0; i < t; ++i) c.check(Ser(*a, a->EccMask(a->HashInputs(items[i]))) == got[i], "mask:concurrent-use-differs", "[{}]", c.desc);
  c.event("points masked concurrently", n * t);
}
}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"elligator", Elligator}, {"mask", Mask}, {"exchange", Exchange}, {"concurrent", Concurrent}});
}
