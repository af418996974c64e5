// Controls of the third-party stand-ins that harnesses use.
#pragma once
#include <cstdint>
namespace verif {
void SeedRandom(uint64_t s);
}
