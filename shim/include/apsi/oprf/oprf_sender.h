#pragma once
#include <cstdint>
namespace apsi::oprf {
struct OPRFKey { uint64_t id = 0; };
}  // namespace apsi::oprf
