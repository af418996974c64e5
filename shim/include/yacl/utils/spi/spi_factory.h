#pragma once
#include <memory>
#include <string>
#include "yacl/base/exception.h"
namespace yacl {
struct SpiArg { std::string key, value; };
struct SpiArgKey {
  const char* key;
  SpiArg operator=(const char* v) const { return {key, v}; }  // NOLINT
  SpiArg operator=(const std::string& v) const { return {key, v}; }  // NOLINT
};
inline const SpiArgKey ArgLib{"lib"};
}  // namespace yacl
