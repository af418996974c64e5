#pragma once
namespace verif {
inline bool pretend_ifma = false;  // selects the IPP code paths (over a stand-in kernel)
}
namespace yacl {
inline bool hasAVX2() { return __builtin_cpu_supports("avx2") != 0; }
inline bool hasBMI2() { return __builtin_cpu_supports("bmi2") != 0; }
inline bool hasAES() { return true; }
inline bool hasAVX512ifma() { return verif::pretend_ifma; }
}  // namespace yacl
