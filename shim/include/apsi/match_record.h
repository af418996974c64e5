#pragma once
#include <algorithm>
#include "apsi/log.h"
#include <memory>
#include <unordered_set>
#include <string>
#include "apsi/item.h"
namespace apsi {
namespace receiver {
class LabelData {
 public:
  LabelData() = default;
  explicit LabelData(Label l) : label_(std::move(l)), has_(true) {}
  explicit operator bool() const { return has_; }
  bool has_data() const { return has_; }
  std::string to_string() const {
    std::string s(label_.begin(), label_.end());
    auto p = s.find('\0');
    return p == std::string::npos ? s : s.substr(0, p);
  }
  void set(Label l) { label_ = std::move(l); has_ = true; }
 private:
  Label label_;
  bool has_ = false;
};
struct MatchRecord {
  explicit operator bool() const { return found; }
  bool found = false;
  LabelData label;
};
}  // namespace receiver
}  // namespace apsi
