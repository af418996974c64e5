// Stand-in: an APSI item is the 128-bit hash of a string.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <openssl/sha.h>
namespace apsi {
class Item {
 public:
  Item() { std::memset(v_, 0, 16); }
  Item(const std::string& s) {
    unsigned char h[32];
    SHA256(reinterpret_cast<const unsigned char*>(s.data()), s.size(), h);
    std::memcpy(v_, h, 16);
  }
  Item(const char* s) : Item(std::string(s)) {}
  Item(uint64_t lo, uint64_t hi) { std::memcpy(v_, &lo, 8); std::memcpy(v_ + 8, &hi, 8); }
  std::string to_string() const {
    static const char* k = "0123456789abcdef";
    std::string r;
    for (unsigned char c : v_) { r += k[c >> 4]; r += k[c & 15]; }
    return r;
  }
  bool operator==(const Item& o) const { return std::memcmp(v_, o.v_, 16) == 0; }
  bool operator<(const Item& o) const { return std::memcmp(v_, o.v_, 16) < 0; }
 private:
  unsigned char v_[16];
};
using Label = std::vector<unsigned char>;
}  // namespace apsi
