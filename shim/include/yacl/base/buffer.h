#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>

#include "yacl/base/exception.h"

namespace yacl {
// Owning byte buffer. Exactly-sized heap block, so that AddressSanitizer sees
// out-of-bounds accesses made through data().
class Buffer {
 public:
  Buffer() = default;
  explicit Buffer(int64_t size) { resize(size); }
  explicit Buffer(size_t size) { resize(static_cast<int64_t>(size)); }
  explicit Buffer(int size) { resize(size); }
  explicit Buffer(unsigned size) { resize(size); }
  Buffer(const void* p, size_t n) { Assign(p, static_cast<int64_t>(n)); }
  Buffer(const void* p, size_t n, const std::function<void(void*)>& del) {
    Assign(p, static_cast<int64_t>(n));
    if (del) del(const_cast<void*>(p));
  }
  template <class C, std::enable_if_t<
      sizeof(std::remove_reference_t<decltype(*std::data(std::declval<const C&>()))>) == 1 &&
      !std::is_array_v<std::remove_reference_t<C>> &&
      !std::is_base_of_v<Buffer, std::decay_t<C>>, int> = 0>
  explicit Buffer(const C& u) { Assign(std::data(u), static_cast<int64_t>(std::size(u))); }
  Buffer(const Buffer& o) { Assign(o.ptr_, o.size_); }
  Buffer& operator=(const Buffer& o) {
    if (this != &o) { Assign(o.ptr_, o.size_); }
    return *this;
  }
  Buffer(Buffer&& o) noexcept { swap(o); }
  Buffer& operator=(Buffer&& o) noexcept {
    if (this != &o) { reset(); swap(o); }
    return *this;
  }
  ~Buffer() { reset(); }

  template <class T = void> T* data() { return reinterpret_cast<T*>(ptr_); }
  template <class T = void> const T* data() const {
    return reinterpret_cast<const T*>(ptr_);
  }
  int64_t size() const { return size_; }
  int64_t capacity() const { return cap_; }
  bool empty() const { return size_ == 0; }
  void reserve(int64_t n) { if (n > cap_) Realloc(n); }
  void resize(int64_t n) {
    YACL_ENFORCE(n >= 0, "negative buffer size");
    if (n > cap_) Realloc(n);
    size_ = n;
  }
  void reset() {
    delete[] ptr_;
    ptr_ = nullptr;
    size_ = cap_ = 0;
  }
  void* release() { void* p = ptr_; ptr_ = nullptr; size_ = cap_ = 0; return p; }
  bool operator==(const Buffer& o) const {
    return size_ == o.size_ && (size_ == 0 || std::memcmp(ptr_, o.ptr_, size_) == 0);
  }
  bool operator!=(const Buffer& o) const { return !(*this == o); }
  bool operator<(const Buffer& o) const {
    return std::string_view(*this) < std::string_view(o);
  }
  operator std::string_view() const {  // NOLINT
    return std::string_view(reinterpret_cast<const char*>(ptr_), size_);
  }
  friend std::ostream& operator<<(std::ostream& os, const Buffer& b) {
    return os << std::string_view(b);
  }

 private:
  void swap(Buffer& o) noexcept {
    std::swap(ptr_, o.ptr_); std::swap(size_, o.size_); std::swap(cap_, o.cap_);
  }
  void Realloc(int64_t n) {
    auto* p = new uint8_t[static_cast<size_t>(n)];
    if (size_ > 0) std::memcpy(p, ptr_, size_);
    delete[] ptr_;
    ptr_ = p; cap_ = n;
  }
  void Assign(const void* p, int64_t n) {
    reset();
    resize(n);
    if (n > 0) std::memcpy(ptr_, p, n);
  }
  uint8_t* ptr_ = nullptr;
  int64_t size_ = 0;
  int64_t cap_ = 0;
};
}  // namespace yacl
namespace fmt {
template <> struct formatter<yacl::Buffer> : formatter<std::string_view> {
  template <class C> auto format(const yacl::Buffer& b, C& c) const {
    return formatter<std::string_view>::format(std::string_view(b), c);
  }
};
}
