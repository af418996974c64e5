#pragma once
#include <istream>
#include <iterator>
#include <stdexcept>
#include <string>
namespace apsi {
// Stand-in: keeps the text it was loaded from.
class PSIParams {
 public:
  static PSIParams Load(const std::string& s) {
    PSIParams p;
    p.text_ = s;
    return p;
  }
  static PSIParams Load(std::istream& in) { return Load(std::string(std::istreambuf_iterator<char>(in), {})); }
  std::string to_string() const { return text_; }
  double log2_fpp() const { return -40; }
 private:
  std::string text_;
};
}  // namespace apsi
