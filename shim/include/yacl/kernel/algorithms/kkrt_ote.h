// KKRT batched OPRF stand-in. The two sides share a session key; the receiver
// draws a random 64-byte correction per index, and an encoding depends on it,
// so a sender that encodes before the correction of that index has arrived (or
// at another index) gets an unrelated value, as with the real protocol.
#pragma once
#include <memory>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
#include "yacl/kernel/algorithms/iknp_ote.h"
namespace yacl::crypto {
constexpr size_t kKkrtWidth = 64;
class IGroupPRF {
 public:
  virtual ~IGroupPRF() = default;
  virtual uint64_t Eval(size_t group_idx, uint128_t input) = 0;
};
class KkrtOtExtSender {
 public:
  void Init(const std::shared_ptr<link::Context>& ctx, const OtRecvStore& ot, uint64_t num_ot);
  void SetBatchSize(uint64_t n) { batch_ = n < 1 ? 1 : n; }
  uint64_t GetBatchSize() const { return batch_; }
  void SetCorrection(const Buffer& buf, uint64_t n);
  void RecvCorrection(const std::shared_ptr<link::Context>& ctx, uint64_t n);
  void Encode(uint64_t idx, uint128_t input, void* dest, uint64_t dest_size);
  std::shared_ptr<IGroupPRF> GetOprf();
 private:
  OtSession s_;
  uint64_t num_ = 0, done_ = 0, batch_ = 128;
  std::vector<uint8_t> corr_;
};
class KkrtOtExtReceiver {
 public:
  void Init(const std::shared_ptr<link::Context>& ctx, const OtSendStore& ot, uint64_t num_ot);
  void SetBatchSize(uint64_t n) { batch_ = n < 1 ? 1 : n; }
  uint64_t GetBatchSize() const { return batch_; }
  void Encode(uint64_t idx, uint128_t input, absl::Span<uint8_t> dest);
  void ZeroEncode(uint64_t idx);
  Buffer ShiftCorrection(uint64_t n);
  void SendCorrection(const std::shared_ptr<link::Context>& ctx, uint64_t n);
 private:
  OtSession s_;
  uint64_t num_ = 0, done_ = 0, batch_ = 128;
  std::vector<uint8_t> corr_;
  std::vector<char> set_;
};
}  // namespace yacl::crypto
