#pragma once
namespace cpu_features {
struct X86Features { int aes : 1; int pclmulqdq : 1; int avx : 1; int avx2 : 1; int sse4_1 : 1; int sse4_2 : 1; int bmi2 : 1; int adx : 1; };
struct X86Info { X86Features features; };
inline X86Info GetX86Info() {
  X86Info i{};
  i.features.aes = __builtin_cpu_supports("aes") ? 1 : 0;
  i.features.pclmulqdq = __builtin_cpu_supports("pclmul") ? 1 : 0;
  i.features.avx = __builtin_cpu_supports("avx") ? 1 : 0;
  i.features.avx2 = __builtin_cpu_supports("avx2") ? 1 : 0;
  i.features.sse4_1 = __builtin_cpu_supports("sse4.1") ? 1 : 0;
  i.features.sse4_2 = __builtin_cpu_supports("sse4.2") ? 1 : 0;
  return i;
}
}
