#pragma once
#include <cstdint>
#include <functional>
#include <future>
#include <thread>
#include <type_traits>
#include <vector>
#include <algorithm>
#include "yacl/base/exception.h"
namespace yacl {
int get_num_threads();
void set_num_threads(int n);
void init_num_threads();
bool in_parallel_region();
int get_thread_num();
void ParallelForImpl(int64_t begin, int64_t end, int64_t grain, const std::function<void(int64_t, int64_t)>& f);
template <class F> void parallel_for(int64_t begin, int64_t end, int64_t grain, const F& f) {
  YACL_ENFORCE(grain > 0);
  ParallelForImpl(begin, end, grain, [&](int64_t b, int64_t e) { f(b, e); });
}
template <class F, class = std::enable_if_t<std::is_invocable_v<F, int64_t, int64_t>>>
void parallel_for(int64_t begin, int64_t end, const F& f) { ParallelForImpl(begin, end, 1, [&](int64_t b, int64_t e) { f(b, e); }); }
template <class T, class F, class SF>
T parallel_reduce(int64_t begin, int64_t end, int64_t, const F& f, const SF& sf) {
  (void)sf;
  return f(begin, end);
}
template <class F> void launch(F f) { std::thread(f).detach(); }
}  // namespace yacl
