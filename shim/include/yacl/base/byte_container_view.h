#pragma once
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

#include "absl/strings/string_view.h"
#include "absl/types/span.h"

#include "yacl/base/buffer.h"

namespace yacl {
class ByteContainerView {
 public:
  using value_type = uint8_t;
  using const_iterator = const uint8_t*;
  using iterator = const_iterator;
  constexpr ByteContainerView() noexcept = default;
  constexpr ByteContainerView(std::nullptr_t) noexcept {}  // NOLINT
  template <class T>
  ByteContainerView(const T* s, size_t len) noexcept  // NOLINT
      : data_(reinterpret_cast<const uint8_t*>(s)), size_(len) {}
  ByteContainerView(const char* s) noexcept  // NOLINT
      : data_(reinterpret_cast<const uint8_t*>(s)),
        size_(std::char_traits<char>::length(s)) {}
  template <class C,
            class E = std::remove_reference_t<decltype(*std::data(
                std::declval<const C&>()))>,
            std::enable_if_t<sizeof(E) == 1 &&
                                 !std::is_array_v<std::remove_reference_t<C>> &&
                                 !std::is_same_v<std::decay_t<C>, ByteContainerView>,
                             int> = 0>
  ByteContainerView(const C& c) noexcept  // NOLINT
      : data_(reinterpret_cast<const uint8_t*>(std::data(c))),
        size_(std::size(c)) {}
  ByteContainerView(const Buffer& b) noexcept  // NOLINT
      : data_(b.data<uint8_t>()), size_(static_cast<size_t>(b.size())) {}

  constexpr const uint8_t* data() const noexcept { return data_; }
  constexpr size_t size() const noexcept { return size_; }
  constexpr size_t length() const noexcept { return size_; }
  constexpr bool empty() const noexcept { return size_ == 0; }
  constexpr const uint8_t& operator[](size_t i) const noexcept { return data_[i]; }
  constexpr const_iterator begin() const noexcept { return data_; }
  constexpr const_iterator end() const noexcept { return data_ + size_; }
  constexpr const_iterator cbegin() const noexcept { return data_; }
  constexpr const_iterator cend() const noexcept { return data_ + size_; }
  ByteContainerView subspan(size_t pos, size_t n = SIZE_MAX) const {
    if (pos > size_) pos = size_;
    if (n > size_ - pos) n = size_ - pos;
    return ByteContainerView(data_ + pos, n);
  }
  explicit operator std::string() const {
    return std::string(reinterpret_cast<const char*>(data_), size_);
  }
  operator std::string_view() const noexcept {  // NOLINT
    return std::string_view(reinterpret_cast<const char*>(data_), size_);
  }
  operator absl::Span<const uint8_t>() const noexcept {  // NOLINT
    return absl::Span<const uint8_t>(data_, size_);
  }
  template <class T>
  operator absl::Span<const T>() const noexcept {  // NOLINT
    static_assert(sizeof(T) == 1);
    return absl::Span<const T>(reinterpret_cast<const T*>(data_), size_);
  }
  bool operator==(const ByteContainerView& o) const noexcept {
    return std::string_view(*this) == std::string_view(o);
  }
  bool operator!=(const ByteContainerView& o) const noexcept { return !(*this == o); }

 private:
  const uint8_t* data_ = nullptr;
  size_t size_ = 0;
};
}  // namespace yacl
