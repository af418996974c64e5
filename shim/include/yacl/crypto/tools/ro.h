#pragma once
#include <cstring>
#include <type_traits>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/crypto/hash/hash_utils.h"
namespace yacl::crypto {
class RandomOracle {
 public:
  RandomOracle(HashAlgorithm algo, size_t out_len) : algo_(algo), len_(out_len) {}
  static RandomOracle& GetBlake3(size_t len = 32) { static RandomOracle r(HashAlgorithm::BLAKE3, len); return r; }
  static RandomOracle& GetDefault() { return GetBlake3(); }
  void SetOutlen(size_t l) { len_ = l; }
  size_t GetOutLen() const { return len_; }
  HashAlgorithm GetHashType() const { return algo_; }
  Buffer operator()(ByteContainerView x) const { return (*this)(x, len_); }
  Buffer operator()(ByteContainerView x, size_t outlen) const {
    Blake3Hash h(outlen);
    auto v = h.Update(x).CumulativeHash();
    return Buffer(v.data(), v.size());
  }
  template <class T, std::enable_if_t<std::is_trivially_copyable_v<T>, int> = 0>
  T Gen(ByteContainerView x) const {
    T t;
    auto b = (*this)(x, sizeof(T));
    std::memcpy(&t, b.data(), sizeof(T));
    return t;
  }
  template <class T, class... A, std::enable_if_t<std::is_trivially_copyable_v<T> && sizeof...(A) >= 1, int> = 0>
  T Gen(ByteContainerView x, A... a) const {
    Buffer b(static_cast<int64_t>(x.size()));
    if (x.size()) std::memcpy(b.data(), x.data(), x.size());
    (Append(b, a), ...);
    return Gen<T>(b);
  }
 private:
  template <class A> static void Append(Buffer& b, const A& a) {
    auto o = b.size();
    b.resize(o + sizeof(A));
    std::memcpy(b.data<uint8_t>() + o, &a, sizeof(A));
  }
  HashAlgorithm algo_;
  size_t len_;
};
}  // namespace yacl::crypto
