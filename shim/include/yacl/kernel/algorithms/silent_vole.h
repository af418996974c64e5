#pragma once
#include <memory>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/link/link.h"
namespace yacl::crypto {
enum class CodeType { Silver5, Silver11, ExAcc7, ExAcc11, ExAcc21, ExAcc40 };
// c = a * delta + b  in GF(2^128)
class SilentVoleSender {
 public:
  explicit SilentVoleSender(CodeType c, bool mal = false) : code_(c), mal_(mal) {}
  uint128_t GetDelta() const { return delta_; }
  void Send(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> b);
  void SfSend(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> b);
 private:
  CodeType code_; bool mal_; uint128_t delta_ = 0;
};
class SilentVoleReceiver {
 public:
  explicit SilentVoleReceiver(CodeType c, bool mal = false) : code_(c), mal_(mal) {}
  void Recv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> a, absl::Span<uint128_t> c);
  void SfRecv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint64_t> a, absl::Span<uint128_t> c);
 private:
  CodeType code_; bool mal_;
};
}  // namespace yacl::crypto
