// Logging stand-in: arguments are evaluated, nothing is formatted or written
// (keeps the instrumented build small and the workloads fast).
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <functional>
#include <iterator>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_map>
#include <variant>
#include <vector>

#include "fmt/format.h"

namespace spdlog {
namespace level {
enum level_enum : int { trace, debug, info, warn, err, critical, off, n_levels };
}
inline void set_level(level::level_enum) {}
inline void flush_on(level::level_enum) {}
inline void set_pattern(const std::string&) {}
namespace verif_sink {
template <class... A>
inline void eat(const A&...) {}
}  // namespace verif_sink
template <class... A> inline void trace(const A&...) {}
template <class... A> inline void debug(const A&...) {}
template <class... A> inline void info(const A&...) {}
template <class... A> inline void warn(const A&...) {}
template <class... A> inline void error(const A&...) {}
template <class... A> inline void critical(const A&...) {}
}  // namespace spdlog

#define SPDLOG_TRACE(...) (void)0
#define SPDLOG_DEBUG(...) (void)0
#define SPDLOG_INFO(...) ::spdlog::verif_sink::eat(__VA_ARGS__)
#define SPDLOG_WARN(...) ::spdlog::verif_sink::eat(__VA_ARGS__)
#define SPDLOG_ERROR(...) ::spdlog::verif_sink::eat(__VA_ARGS__)
#define SPDLOG_CRITICAL(...) ::spdlog::verif_sink::eat(__VA_ARGS__)
