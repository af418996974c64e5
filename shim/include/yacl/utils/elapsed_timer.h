#pragma once
#include <chrono>
namespace yacl {
class ElapsedTimer {
 public:
  explicit ElapsedTimer(bool = true) : s_(std::chrono::steady_clock::now()) {}
  void Restart() { s_ = std::chrono::steady_clock::now(); }
  void Pause() {}
  void Resume() {}
  double CountMs() const { return CountSec() * 1e3; }
  double CountSec() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - s_).count(); }
 private:
  std::chrono::steady_clock::time_point s_;
};
}  // namespace yacl
