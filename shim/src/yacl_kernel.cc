#include <cstring>
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/kernel/algorithms/kkrt_ote.h"
#include "yacl/kernel/algorithms/silent_vole.h"

namespace yacl::crypto {
namespace {
void SendKey(const std::shared_ptr<link::Context>& c, uint128_t k, const char* tag) {
  c->SendAsync(c->NextRank(), ByteContainerView(&k, 16), tag);
}
uint128_t RecvKey(const std::shared_ptr<link::Context>& c, const char* tag) {
  auto b = c->Recv(c->NextRank(), tag);
  YACL_ENFORCE(b.size() == 16, "{}: bad key message", tag);
  uint128_t k;
  std::memcpy(&k, b.data(), 16);
  return k;
}
}  // namespace
OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>& c, const dynamic_bitset<uint128_t>& ch, uint32_t n) {
  YACL_ENFORCE(ch.size() == n);
  OtRecvStore r;
  r.s = {RecvKey(c, "BASE_OT"), n};
  return r;
}
OtSendStore BaseOtSend(const std::shared_ptr<link::Context>& c, uint32_t n) {
  OtSendStore r;
  r.s = {SecureRandU128(), n};
  SendKey(c, r.s.key, "BASE_OT");
  return r;
}
OtSendStore IknpOtExtSend(const std::shared_ptr<link::Context>& c, const OtRecvStore& base, uint32_t n, bool) {
  OtSendStore r;
  r.s = {RecvKey(c, "IKNP") ^ base.s.key, n};
  return r;
}
OtRecvStore IknpOtExtRecv(const std::shared_ptr<link::Context>& c, const OtSendStore& base, const dynamic_bitset<uint128_t>& ch, uint32_t n, bool) {
  YACL_ENFORCE(ch.size() == n);
  uint128_t k = SecureRandU128();
  SendKey(c, k, "IKNP");
  OtRecvStore r;
  r.s = {k ^ base.s.key, n};
  return r;
}

namespace {
void KkrtEval(uint128_t key, uint64_t idx, uint128_t in, const uint8_t* corr, void* out, size_t n) {
  uint8_t m[16 + 8 + 16 + kKkrtWidth];
  std::memcpy(m, &key, 16);
  std::memcpy(m + 16, &idx, 8);
  std::memcpy(m + 24, &in, 16);
  std::memcpy(m + 40, corr, kKkrtWidth);
  auto h = Sha256(ByteContainerView(m, sizeof m));
  YACL_ENFORCE(n <= h.size());
  std::memcpy(out, h.data(), n);
}
class Oprf : public IGroupPRF {
 public:
  Oprf(KkrtOtExtSender* s) : s_(s) {}
  uint64_t Eval(size_t i, uint128_t x) override { uint64_t r; s_->Encode(i, x, &r, 8); return r; }
 private:
  KkrtOtExtSender* s_;
};
}  // namespace
void KkrtOtExtSender::Init(const std::shared_ptr<link::Context>&, const OtRecvStore& ot, uint64_t n) {
  YACL_ENFORCE(ot.Size() == 512, "need 512 base ots");
  s_ = ot.s;
  num_ = n;
  done_ = 0;
  corr_.assign(n * kKkrtWidth, 0);
}
void KkrtOtExtSender::SetCorrection(const Buffer& b, uint64_t n) {
  YACL_ENFORCE(static_cast<uint64_t>(b.size()) == n * kKkrtWidth, "bad correction size {} for {}", b.size(), n);
  YACL_ENFORCE(done_ + n <= num_, "too many corrections");
  std::memcpy(corr_.data() + done_ * kKkrtWidth, b.data(), b.size());
  done_ += n;
}
void KkrtOtExtSender::RecvCorrection(const std::shared_ptr<link::Context>& c, uint64_t n) {
  SetCorrection(c->Recv(c->NextRank(), "KKRT:CORR"), n);
}
void KkrtOtExtSender::Encode(uint64_t i, uint128_t in, void* d, uint64_t n) {
  YACL_ENFORCE(i < num_, "encode index {} out of {}", i, num_);
  KkrtEval(s_.key, i, in, corr_.data() + i * kKkrtWidth, d, n);
}
std::shared_ptr<IGroupPRF> KkrtOtExtSender::GetOprf() { return std::make_shared<Oprf>(this); }
void KkrtOtExtReceiver::Init(const std::shared_ptr<link::Context>&, const OtSendStore& ot, uint64_t n) {
  YACL_ENFORCE(ot.Size() == 512, "need 512 base ots");
  s_ = ot.s;
  num_ = n;
  done_ = 0;
  corr_ = RandBytes(n * kKkrtWidth);
  set_.assign(n, 0);
}
void KkrtOtExtReceiver::Encode(uint64_t i, uint128_t in, absl::Span<uint8_t> d) {
  YACL_ENFORCE(i < num_, "encode index {} out of {}", i, num_);
  set_[i] = 1;
  KkrtEval(s_.key, i, in, corr_.data() + i * kKkrtWidth, d.data(), d.size());
}
void KkrtOtExtReceiver::ZeroEncode(uint64_t i) {
  YACL_ENFORCE(i < num_, "encode index {} out of {}", i, num_);
  set_[i] = 1;
}
Buffer KkrtOtExtReceiver::ShiftCorrection(uint64_t n) {
  YACL_ENFORCE(done_ + n <= num_, "too many corrections");
  for (uint64_t i = 0; i < n; ++i) YACL_ENFORCE(set_[done_ + i], "correction of an index not encoded: {}", done_ + i);
  Buffer b(corr_.data() + done_ * kKkrtWidth, n * kKkrtWidth);
  done_ += n;
  return b;
}
void KkrtOtExtReceiver::SendCorrection(const std::shared_ptr<link::Context>& c, uint64_t n) {
  c->SendAsync(c->NextRank(), ShiftCorrection(n), "KKRT:CORR");
}

namespace {
// x^128 + x^7 + x^2 + x + 1, shift-and-add: independent of the code under test.
uint128_t Gf(uint128_t a, uint128_t b) {
  uint128_t r = 0;
  for (int i = 0; i < 128; ++i) {
    if ((b >> i) & 1) r ^= a;
    bool hi = (a >> 127) & 1;
    a <<= 1;
    if (hi) a ^= 0x87;
  }
  return r;
}
struct Msg { uint128_t delta, sb; };
}  // namespace
void SilentVoleSender::Send(const std::shared_ptr<link::Context>& c, absl::Span<uint128_t> b) {
  Msg m{SecureRandU128(), SecureRandU128()};
  delta_ = m.delta;
  FillAesRandom(m.sb, 0, 0, absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(b.data()), b.size() * 16));
  c->SendAsync(c->NextRank(), ByteContainerView(&m, sizeof m), "VOLE");
}
void SilentVoleSender::SfSend(const std::shared_ptr<link::Context>& c, absl::Span<uint128_t> b) { Send(c, b); }
void SilentVoleReceiver::Recv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> a, absl::Span<uint128_t> c) {
  auto buf = ctx->Recv(ctx->NextRank(), "VOLE");
  YACL_ENFORCE(buf.size() == sizeof(Msg) && a.size() == c.size());
  Msg m;
  std::memcpy(&m, buf.data(), sizeof m);
  FillRand(reinterpret_cast<char*>(a.data()), a.size() * 16);
  FillAesRandom(m.sb, 0, 0, absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(c.data()), c.size() * 16));
  for (size_t i = 0; i < a.size(); ++i) c[i] ^= Gf(m.delta, a[i]);
}
void SilentVoleReceiver::SfRecv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint64_t> a, absl::Span<uint128_t> c) {
  auto buf = ctx->Recv(ctx->NextRank(), "VOLE");
  YACL_ENFORCE(buf.size() == sizeof(Msg) && a.size() == c.size());
  Msg m;
  std::memcpy(&m, buf.data(), sizeof m);
  FillRand(reinterpret_cast<char*>(a.data()), a.size() * 8);
  FillAesRandom(m.sb, 0, 0, absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(c.data()), c.size() * 16));
  for (size_t i = 0; i < a.size(); ++i) c[i] ^= Gf(m.delta, a[i]);
}
}  // namespace yacl::crypto
