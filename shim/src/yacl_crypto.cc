#include <pthread.h>
#include <immintrin.h>
#include <openssl/evp.h>

#include <atomic>
#include <cstdlib>
#include <mutex>

#include "yacl/base/block.h"
#include "yacl/crypto/aes/aes_intrinsics.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/crypto/rand/rand.h"
#include "verif/shim_ctl.h"

namespace yacl::crypto {
namespace {
template <int R> __m128i Expand(__m128i k) {
  __m128i g = _mm_aeskeygenassist_si128(k, R);
  g = _mm_shuffle_epi32(g, 0xff);
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  return _mm_xor_si128(k, g);
}
__m128i L(const uint128_t& x) { return _mm_loadu_si128(reinterpret_cast<const __m128i*>(&x)); }
uint128_t S(__m128i x) { uint128_t r; _mm_storeu_si128(reinterpret_cast<__m128i*>(&r), x); return r; }
}  // namespace

void AES_set_encrypt_key(uint128_t uk, AES_KEY* key) {
  __m128i* k = key->rd_key;
  k[0] = L(uk);
  k[1] = Expand<0x01>(k[0]); k[2] = Expand<0x02>(k[1]); k[3] = Expand<0x04>(k[2]);
  k[4] = Expand<0x08>(k[3]); k[5] = Expand<0x10>(k[4]); k[6] = Expand<0x20>(k[5]);
  k[7] = Expand<0x40>(k[6]); k[8] = Expand<0x80>(k[7]); k[9] = Expand<0x1b>(k[8]);
  k[10] = Expand<0x36>(k[9]);
  key->rounds = 10;
}
void AES_set_decrypt_key(uint128_t uk, AES_KEY* key) {
  AES_KEY e;
  AES_set_encrypt_key(uk, &e);
  key->rd_key[0] = e.rd_key[10];
  for (int i = 1; i < 10; ++i) key->rd_key[i] = _mm_aesimc_si128(e.rd_key[10 - i]);
  key->rd_key[10] = e.rd_key[0];
  key->rounds = 10;
}
uint128_t AES_ecb_encrypt_one(const AES_KEY& key, uint128_t b) {
  __m128i x = _mm_xor_si128(L(b), key.rd_key[0]);
  for (int i = 1; i < 10; ++i) x = _mm_aesenc_si128(x, key.rd_key[i]);
  return S(_mm_aesenclast_si128(x, key.rd_key[10]));
}
uint128_t AES_ecb_decrypt_one(const AES_KEY& key, uint128_t b) {
  __m128i x = _mm_xor_si128(L(b), key.rd_key[0]);
  for (int i = 1; i < 10; ++i) x = _mm_aesdec_si128(x, key.rd_key[i]);
  return S(_mm_aesdeclast_si128(x, key.rd_key[10]));
}
void AES_ecb_encrypt_blks(const AES_KEY& key, absl::Span<const uint128_t> p, absl::Span<uint128_t> c) {
  YACL_ENFORCE(p.size() == c.size());
  for (size_t i = 0; i < p.size(); ++i) c[i] = AES_ecb_encrypt_one(key, p[i]);
}
void AES_ecb_decrypt_blks(const AES_KEY& key, absl::Span<const uint128_t> c, absl::Span<uint128_t> p) {
  YACL_ENFORCE(p.size() == c.size());
  for (size_t i = 0; i < p.size(); ++i) p[i] = AES_ecb_decrypt_one(key, c[i]);
}

namespace {
uint128_t FromBytes(ByteContainerView v) {
  YACL_ENFORCE(v.size() == 16 || v.empty());
  uint128_t r = 0;
  if (!v.empty()) memcpy(&r, v.data(), 16);
  return r;
}
}  // namespace
SymmetricCrypto::SymmetricCrypto(CryptoType t, uint128_t key, uint128_t) : type_(t) {
  YACL_ENFORCE(t == CryptoType::AES128_ECB, "shim supports AES128_ECB only");
  AES_set_encrypt_key(key, &ek_);
  AES_set_decrypt_key(key, &dk_);
}
SymmetricCrypto::SymmetricCrypto(CryptoType t, ByteContainerView key, ByteContainerView iv)
    : SymmetricCrypto(t, FromBytes(key), FromBytes(iv)) {}
uint128_t SymmetricCrypto::Encrypt(uint128_t x) const { return AES_ecb_encrypt_one(ek_, x); }
uint128_t SymmetricCrypto::Decrypt(uint128_t x) const { return AES_ecb_decrypt_one(dk_, x); }
void SymmetricCrypto::Encrypt(absl::Span<const uint8_t> p, absl::Span<uint8_t> c) const {
  YACL_ENFORCE(p.size() == c.size());
  YACL_ENFORCE(p.size() % 16 == 0);
  for (size_t i = 0; i < p.size(); i += 16) {
    uint128_t x; memcpy(&x, &p[i], 16); x = Encrypt(x); memcpy(&c[i], &x, 16);
  }
}
void SymmetricCrypto::Decrypt(absl::Span<const uint8_t> c, absl::Span<uint8_t> p) const {
  YACL_ENFORCE(p.size() == c.size());
  YACL_ENFORCE(p.size() % 16 == 0);
  for (size_t i = 0; i < p.size(); i += 16) {
    uint128_t x; memcpy(&x, &c[i], 16); x = Decrypt(x); memcpy(&p[i], &x, 16);
  }
}
void SymmetricCrypto::Encrypt(absl::Span<const uint128_t> p, absl::Span<uint128_t> c) const {
  YACL_ENFORCE(p.size() == c.size());
  for (size_t i = 0; i < p.size(); ++i) c[i] = Encrypt(p[i]);
}
void SymmetricCrypto::Decrypt(absl::Span<const uint128_t> c, absl::Span<uint128_t> p) const {
  YACL_ENFORCE(p.size() == c.size());
  for (size_t i = 0; i < p.size(); ++i) p[i] = Decrypt(c[i]);
}

uint64_t FillAesRandom(uint128_t seed, uint128_t iv, uint64_t count, absl::Span<uint8_t> out) {
  AES_KEY k;
  AES_set_encrypt_key(seed, &k);
  size_t n = (out.size() + 15) / 16;
  for (size_t i = 0; i < n; ++i) {
    uint128_t x = AES_ecb_encrypt_one(k, iv + count + i);
    memcpy(out.data() + i * 16, &x, std::min<size_t>(16, out.size() - i * 16));
  }
  return count + n;
}

// Process-wide deterministic generator: reproducible for sequential workloads,
// unique values under concurrency.
namespace {
std::atomic<uint64_t> g_ctr{0};
std::atomic<uint64_t> g_seed{0};
std::once_flag g_once;
// A forked child must not repeat the numbers its parent draws.
std::atomic<uint64_t> g_forks{0};
uint64_t Seed() {
  std::call_once(g_once, [] {
    pthread_atfork([] { ++g_forks; }, nullptr,
                   [] { g_seed = g_seed * 0x9e3779b97f4a7c15ull + 0x1234567 + g_forks; });
    if (g_seed == 0) {
      const char* s = std::getenv("VERIF_SEED");
      g_seed = (s ? std::strtoull(s, nullptr, 10) : 1) * 0x9e3779b97f4a7c15ull + 7;
    }
  });
  return g_seed.load();
}
}  // namespace
void FillRand(char* buf, size_t len, bool) {
  if (len == 0) return;
  uint64_t n = (len + 15) / 16;
  uint64_t c = g_ctr.fetch_add(n);
  FillAesRandom(MakeUint128(0x5eed, Seed()), MakeUint128(1, 0), c,
                absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(buf), len));
}

// ---- hashes
namespace {
const EVP_MD* Md(HashAlgorithm a) {
  switch (a) {
    case HashAlgorithm::SHA224: return EVP_sha224();
    case HashAlgorithm::SHA256: return EVP_sha256();
    case HashAlgorithm::SHA384: return EVP_sha384();
    case HashAlgorithm::SHA512: return EVP_sha512();
    case HashAlgorithm::SHA_1: return EVP_sha1();
    case HashAlgorithm::SM3: return EVP_sm3();
    case HashAlgorithm::BLAKE2B: return EVP_blake2b512();
    default: YACL_THROW("unsupported hash");
  }
}
}  // namespace
SslHash::SslHash(HashAlgorithm a) : algo_(a) {
  ctx_ = EVP_MD_CTX_new();
  Reset();
}
SslHash::~SslHash() { EVP_MD_CTX_free(static_cast<EVP_MD_CTX*>(ctx_)); }
size_t SslHash::DigestSize() const { return EVP_MD_size(Md(algo_)); }
SslHash& SslHash::Reset() {
  YACL_ENFORCE(EVP_DigestInit_ex(static_cast<EVP_MD_CTX*>(ctx_), Md(algo_), nullptr) == 1);
  return *this;
}
SslHash& SslHash::Update(ByteContainerView d) {
  YACL_ENFORCE(EVP_DigestUpdate(static_cast<EVP_MD_CTX*>(ctx_), d.data(), d.size()) == 1);
  return *this;
}
std::vector<uint8_t> SslHash::CumulativeHash() const {
  EVP_MD_CTX* c = EVP_MD_CTX_new();
  EVP_MD_CTX_copy_ex(c, static_cast<const EVP_MD_CTX*>(ctx_));
  std::vector<uint8_t> r(DigestSize());
  unsigned n = 0;
  EVP_DigestFinal_ex(c, r.data(), &n);
  EVP_MD_CTX_free(c);
  return r;
}
Blake3Hash::Blake3Hash(uint64_t l) : len_(l) { Reset(); }
Blake3Hash& Blake3Hash::Reset() {
  h_ = std::make_unique<SslHash>(HashAlgorithm::SHA256);
  h_->Update("blake3-standin");
  return *this;
}
Blake3Hash& Blake3Hash::Update(ByteContainerView d) { h_->Update(d); return *this; }
std::vector<uint8_t> Blake3Hash::CumulativeHash() const {
  auto d = h_->CumulativeHash();
  std::vector<uint8_t> r(d);
  r.resize(len_);
  if (len_ > 32) {
    uint128_t k;
    memcpy(&k, d.data(), 16);
    FillAesRandom(k, 0, 0, absl::Span<uint8_t>(r.data() + 32, len_ - 32));
  }
  return r;
}
namespace {
template <size_t N> std::array<uint8_t, N> OneShot(HashAlgorithm a, ByteContainerView d) {
  std::array<uint8_t, N> r;
  unsigned n = 0;
  YACL_ENFORCE(EVP_Digest(d.data(), d.size(), r.data(), &n, Md(a), nullptr) == 1);
  return r;
}
}  // namespace
std::array<uint8_t, 32> Sha256(ByteContainerView d) { return OneShot<32>(HashAlgorithm::SHA256, d); }
std::array<uint8_t, 64> Sha512(ByteContainerView d) { return OneShot<64>(HashAlgorithm::SHA512, d); }
std::array<uint8_t, 20> Sha1(ByteContainerView d) { return OneShot<20>(HashAlgorithm::SHA_1, d); }
std::array<uint8_t, 32> Sm3(ByteContainerView d) { return OneShot<32>(HashAlgorithm::SM3, d); }
std::array<uint8_t, 64> Blake2(ByteContainerView d) { return OneShot<64>(HashAlgorithm::BLAKE2B, d); }
std::array<uint8_t, 32> Blake3(ByteContainerView d) {
  auto v = Blake3Hash().Update(d).CumulativeHash();
  std::array<uint8_t, 32> r;
  memcpy(r.data(), v.data(), 32);
  return r;
}
uint128_t Blake3_128(ByteContainerView d) {
  auto a = Blake3(d);
  uint128_t r;
  memcpy(&r, a.data(), 16);
  return r;
}
}  // namespace yacl::crypto
namespace verif {
void SeedRandom(uint64_t s) {
  yacl::crypto::Seed();
  yacl::crypto::g_seed = s * 0x9e3779b97f4a7c15ull + 7;
  yacl::crypto::g_ctr = 0;
}
}
