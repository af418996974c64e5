#pragma once
#include <functional>
#include <utility>
namespace yacl {
template <class F> class ScopeGuard {
 public:
  explicit ScopeGuard(F f) : f_(std::move(f)) {}
  ~ScopeGuard() { f_(); }
 private:
  F f_;
};
template <class F> ScopeGuard<F> MakeScopeGuard(F f) { return ScopeGuard<F>(std::move(f)); }
}  // namespace yacl
#define YACL_SG_CAT_(a, b) a##b
#define YACL_SG_CAT(a, b) YACL_SG_CAT_(a, b)
namespace yacl::sg_detail {
struct Tag {};
template <class F> ScopeGuard<F> operator+(Tag, F f) { return ScopeGuard<F>(std::move(f)); }
}
#define ON_SCOPE_EXIT(...) auto YACL_SG_CAT(yacl_sg_, __COUNTER__) = ::yacl::MakeScopeGuard(__VA_ARGS__)
