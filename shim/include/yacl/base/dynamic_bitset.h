#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <limits>
#include <ostream>
#include <string>
#include <string_view>
#include <stdexcept>
#include <vector>

#include "yacl/base/int128.h"
#include "yacl/base/exception.h"

namespace yacl {
// Minimal sul::dynamic_bitset look-alike. Out-of-range accesses throw.
template <class Block = uint128_t, class Alloc = std::allocator<Block>>
class dynamic_bitset {
 public:
  using block_type = Block;
  using size_type = size_t;
  static constexpr size_type bits_per_block = sizeof(Block) * 8;
  static constexpr size_type npos = std::numeric_limits<size_type>::max();

  class reference {
   public:
    reference(dynamic_bitset* b, size_t i) : b_(b), i_(i) {}
    operator bool() const { return static_cast<const dynamic_bitset*>(b_)->test(i_); }  // NOLINT
    reference& operator=(bool v) { b_->set(i_, v); return *this; }
    reference& operator=(const reference& o) { return *this = static_cast<bool>(o); }
    reference& operator^=(bool v) { b_->set(i_, bool(*this) ^ v); return *this; }
    reference& operator|=(bool v) { b_->set(i_, bool(*this) | v); return *this; }
    reference& operator&=(bool v) { b_->set(i_, bool(*this) & v); return *this; }
    bool operator~() const { return !bool(*this); }
    reference& flip() { b_->flip(i_); return *this; }
   private:
    dynamic_bitset* b_; size_t i_;
  };

  dynamic_bitset() = default;
  explicit dynamic_bitset(std::string_view s) {
    resize(s.size());
    for (size_type i = 0; i < s.size(); ++i) if (s[s.size() - 1 - i] == '1') set(i);
  }
  explicit dynamic_bitset(const std::string& s) : dynamic_bitset(std::string_view(s)) {}
  explicit dynamic_bitset(size_type n, Block init = 0) {
    resize(n);
    if (init != 0 && !v_.empty()) { v_[0] = init; Trim(); }
  }
  void resize(size_type n, bool val = false) {
    size_type old = n_;
    v_.resize((n + bits_per_block - 1) / bits_per_block, 0);
    n_ = n;
    if (val) for (size_type i = old; i < n; ++i) set(i);
    Trim();
  }
  void clear() { v_.clear(); n_ = 0; }
  void push_back(bool b) { resize(n_ + 1); set(n_ - 1, b); }
  void append(Block b) {
    size_type o = n_;
    resize(n_ + bits_per_block);
    for (size_type i = 0; i < bits_per_block; ++i) set(o + i, (b >> i) & 1);
  }
  template <class It> void append(It f, It l) { for (; f != l; ++f) append(*f); }
  bool test(size_type i) const { Chk(i); return (v_[i / bits_per_block] >> (i % bits_per_block)) & 1; }
  bool operator[](size_type i) const { return test(i); }
  reference operator[](size_type i) { Chk(i); return reference(this, i); }
  dynamic_bitset& set() { for (auto& b : v_) b = ~Block(0); Trim(); return *this; }
  dynamic_bitset& set(size_type i, bool val = true) {
    Chk(i);
    Block m = Block(1) << (i % bits_per_block);
    if (val) v_[i / bits_per_block] |= m; else v_[i / bits_per_block] &= ~m;
    return *this;
  }
  dynamic_bitset& reset() { for (auto& b : v_) b = 0; return *this; }
  dynamic_bitset& reset(size_type i) { return set(i, false); }
  dynamic_bitset& flip() { for (auto& b : v_) b = ~b; Trim(); return *this; }
  dynamic_bitset& flip(size_type i) { return set(i, !test(i)); }
  bool all() const { return count() == n_; }
  bool any() const { return count() != 0; }
  bool none() const { return !any(); }
  size_type count() const { size_type c = 0; for (size_type i = 0; i < n_; ++i) c += test(i); return c; }
  size_type size() const { return n_; }
  size_type num_blocks() const { return v_.size(); }
  bool empty() const { return n_ == 0; }
  Block* data() { return v_.data(); }
  const Block* data() const { return v_.data(); }
  size_type find_first() const { return FindFrom(0); }
  size_type find_next(size_type p) const { return FindFrom(p + 1); }
  dynamic_bitset& operator&=(const dynamic_bitset& o) { Same(o); for (size_t i = 0; i < v_.size(); ++i) v_[i] &= o.v_[i]; return *this; }
  dynamic_bitset& operator|=(const dynamic_bitset& o) { Same(o); for (size_t i = 0; i < v_.size(); ++i) v_[i] |= o.v_[i]; return *this; }
  dynamic_bitset& operator^=(const dynamic_bitset& o) { Same(o); for (size_t i = 0; i < v_.size(); ++i) v_[i] ^= o.v_[i]; return *this; }
  dynamic_bitset operator~() const { auto r = *this; r.flip(); return r; }
  dynamic_bitset& operator<<=(size_type s) {
    dynamic_bitset r(n_);
    for (size_type i = s; i < n_; ++i) r.set(i, test(i - s));
    return *this = r;
  }
  dynamic_bitset& operator>>=(size_type s) {
    dynamic_bitset r(n_);
    for (size_type i = 0; i + s < n_; ++i) r.set(i, test(i + s));
    return *this = r;
  }
  dynamic_bitset operator<<(size_type s) const { auto r = *this; r <<= s; return r; }
  dynamic_bitset operator>>(size_type s) const { auto r = *this; r >>= s; return r; }
  bool operator==(const dynamic_bitset& o) const { return n_ == o.n_ && v_ == o.v_; }
  bool operator!=(const dynamic_bitset& o) const { return !(*this == o); }
  std::string to_string(char z = '0', char o = '1') const {
    std::string s;
    for (size_type i = n_; i-- > 0;) s.push_back(test(i) ? o : z);
    return s;
  }

 private:
  void Chk(size_type i) const { if (i >= n_) throw std::out_of_range("dynamic_bitset index"); }
  void Same(const dynamic_bitset& o) const { if (n_ != o.n_) throw std::out_of_range("dynamic_bitset size mismatch"); }
  void Trim() {
    if (n_ % bits_per_block && !v_.empty())
      v_.back() &= (Block(1) << (n_ % bits_per_block)) - 1;
  }
  size_type FindFrom(size_type p) const { for (; p < n_; ++p) if (test(p)) return p; return npos; }
  std::vector<Block, Alloc> v_;
  size_type n_ = 0;
};
template <class B, class A> dynamic_bitset<B, A> operator&(dynamic_bitset<B, A> a, const dynamic_bitset<B, A>& b) { a &= b; return a; }
template <class B, class A> dynamic_bitset<B, A> operator|(dynamic_bitset<B, A> a, const dynamic_bitset<B, A>& b) { a |= b; return a; }
template <class B, class A> dynamic_bitset<B, A> operator^(dynamic_bitset<B, A> a, const dynamic_bitset<B, A>& b) { a ^= b; return a; }
}  // namespace yacl
