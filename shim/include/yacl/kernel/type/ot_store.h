#pragma once
#include <vector>
#include <memory>
#include "yacl/base/int128.h"
namespace yacl::crypto {
// Functional stand-ins: both sides of one OT session share a session key.
struct OtSession { uint128_t key = 0; size_t n = 0; };
class OtSendStore { public: OtSession s; size_t Size() const { return s.n; } };
class OtRecvStore { public: OtSession s; size_t Size() const { return s.n; } };
}  // namespace yacl::crypto
