// Stand-in for yacl/base/exception.h (third party, not installed here).
#pragma once
#include <cstddef>
#include <exception>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

#include "absl/strings/escaping.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_split.h"
#include "absl/types/span.h"
#include "fmt/format.h"

namespace yacl {

class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(const char* msg) : msg_(msg) {}
  explicit Exception(std::string msg) : msg_(std::move(msg)) {}
  Exception(std::string msg, void**, int) : msg_(std::move(msg)) {}
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const noexcept { return stack_; }

 protected:
  std::string msg_;
  std::string stack_;
};

class RuntimeError : public Exception { using Exception::Exception; };
class LogicError : public Exception { using Exception::Exception; };
class ArgumentError : public Exception { using Exception::Exception; };
class InvalidFormat : public Exception { using Exception::Exception; };
class IoError : public Exception { using Exception::Exception; };
class NetworkError : public IoError { using IoError::IoError; };
class LinkError : public NetworkError {
 public:
  explicit LinkError(std::string m, int code = 0, int http = 0)
      : NetworkError(std::move(m)), code_(code), http_(http) {}
  int code() const { return code_; }
  int http_code() const { return http_; }
 private:
  int code_ = 0, http_ = 0;
};
class NotImplementedError : public Exception { using Exception::Exception; };
class EnforceNotMet : public Exception {
 public:
  EnforceNotMet(const char* file, int line, const char* expr,
                const std::string& msg)
      : Exception("[Enforce fail at " + std::string(file) + ":" +
                  std::to_string(line) + "] " + expr + ". " + msg) {}
};

namespace internal {
template <class T>
void AddText(std::string* o, const T& v) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, bool>) {
    o->append(v ? "true" : "false");
  } else if constexpr (std::is_same_v<D, char>) {
    o->push_back(v);
  } else if constexpr (std::is_arithmetic_v<D> && sizeof(D) <= 8) {
    o->append(std::to_string(v));
  } else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    o->append(std::string_view(v));
  } else if constexpr (std::is_enum_v<D>) {
    o->append(std::to_string(static_cast<long long>(v)));
  } else {
    o->append("?");
  }
}
inline std::string Format() { return {}; }
// Not a formatter: the format string followed by its arguments.
template <class F, class... A>
std::string Format(const F& f, const A&... a) {
  std::string o;
  AddText(&o, f);
  ((o.append(" | "), AddText(&o, a)), ...);
  return o;
}
template <class T>
std::string Show(const T& v) {
  std::string o;
  AddText(&o, v);
  return o;
}
inline std::string Where(const char* file, int line, const std::string& m) {
  return "[" + std::string(file) + ":" + std::to_string(line) + "] " + m;
}
}  // namespace internal

template <class T>
T CheckNotNullImpl(const char* file, int line, T&& p) {
  if (p == nullptr) throw EnforceNotMet(file, line, "'ptr' must be non-null", "");
  return std::forward<T>(p);
}
template <class T>
T CheckNotNull(T&& p) {
  if (p == nullptr)
    throw EnforceNotMet("-", 0, "'ptr' must be non-null", "");
  return std::forward<T>(p);
}
}  // namespace yacl

#define YACL_ERROR_MSG(...) ::yacl::internal::Format(__VA_ARGS__)
#define YACL_THROW_HELPER(ExceptionName, ...)                              \
  throw ExceptionName(::yacl::internal::Where(                             \
      __FILE__, __LINE__, ::yacl::internal::Format(__VA_ARGS__)))
#define YACL_THROW(...) YACL_THROW_HELPER(::yacl::RuntimeError, __VA_ARGS__)
#define YACL_THROW_WITH_STACK(...) \
  YACL_THROW_HELPER(::yacl::RuntimeError, __VA_ARGS__)
#define YACL_THROW_LOGIC_ERROR(...) \
  YACL_THROW_HELPER(::yacl::LogicError, __VA_ARGS__)
#define YACL_THROW_IO_ERROR(...) YACL_THROW_HELPER(::yacl::IoError, __VA_ARGS__)
#define YACL_THROW_NETWORK_ERROR(...) \
  YACL_THROW_HELPER(::yacl::NetworkError, __VA_ARGS__)
#define YACL_THROW_ARGUMENT_ERROR(...) \
  YACL_THROW_HELPER(::yacl::ArgumentError, __VA_ARGS__)
#define YACL_THROW_INVALID_FORMAT(...) \
  YACL_THROW_HELPER(::yacl::InvalidFormat, __VA_ARGS__)
#define YACL_THROW_NOT_IMPLEMENTED(...) \
  YACL_THROW_HELPER(::yacl::NotImplementedError, __VA_ARGS__)

#define YACL_ENFORCE(CONDITION, ...)                                      \
  do {                                                                    \
    if (!(CONDITION)) {                                                   \
      throw ::yacl::EnforceNotMet(__FILE__, __LINE__, #CONDITION,         \
                                  ::yacl::internal::Format(__VA_ARGS__)); \
    }                                                                     \
  } while (false)

#define YACL_ENFORCE_OP_(op, a, b, ...)                                      \
  do {                                                                       \
    const auto& yacl_a_ = (a);                                               \
    const auto& yacl_b_ = (b);                                               \
    if (!(yacl_a_ op yacl_b_)) {                                             \
      throw ::yacl::EnforceNotMet(                                           \
          __FILE__, __LINE__, #a " " #op " " #b,                             \
          ::yacl::internal::Show(yacl_a_) + " vs " +                         \
              ::yacl::internal::Show(yacl_b_) + " " +                        \
              ::yacl::internal::Format(__VA_ARGS__));                        \
    }                                                                        \
  } while (false)
#define YACL_ENFORCE_EQ(a, b, ...) YACL_ENFORCE_OP_(==, a, b, ##__VA_ARGS__)
#define YACL_ENFORCE_NE(a, b, ...) YACL_ENFORCE_OP_(!=, a, b, ##__VA_ARGS__)
#define YACL_ENFORCE_GT(a, b, ...) YACL_ENFORCE_OP_(>, a, b, ##__VA_ARGS__)
#define YACL_ENFORCE_GE(a, b, ...) YACL_ENFORCE_OP_(>=, a, b, ##__VA_ARGS__)
#define YACL_ENFORCE_LT(a, b, ...) YACL_ENFORCE_OP_(<, a, b, ##__VA_ARGS__)
#define YACL_ENFORCE_LE(a, b, ...) YACL_ENFORCE_OP_(<=, a, b, ##__VA_ARGS__)
#define YACL_WARN_UNLESS(...) do { } while (false)
#ifndef NDEBUG
#define WEAK_ENFORCE(condition, ...) YACL_ENFORCE(condition, ##__VA_ARGS__)
#else
#define WEAK_ENFORCE(condition, ...) ((void)0)
#endif
