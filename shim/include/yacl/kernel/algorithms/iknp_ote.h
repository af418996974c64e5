#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
OtSendStore IknpOtExtSend(const std::shared_ptr<link::Context>& ctx, const OtRecvStore& base, uint32_t num_ot, bool cot = false);
OtRecvStore IknpOtExtRecv(const std::shared_ptr<link::Context>& ctx, const OtSendStore& base, const dynamic_bitset<uint128_t>& choices, uint32_t num_ot, bool cot = false);
}  // namespace yacl::crypto
