// Stand-in: string flags only, set directly by the harness.
#pragma once
#include <string>
#define DEFINE_string(n, d, h) std::string FLAGS_##n = d
#define DECLARE_string(n) extern std::string FLAGS_##n
namespace gflags {
inline void SetVersionString(const std::string&) {}
inline void AllowCommandLineReparsing() {}
inline void ParseCommandLineFlags(int*, char***, bool) {}
}  // namespace gflags
