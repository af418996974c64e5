#include "yacl/utils/parallel.h"

#include <atomic>
#include <mutex>

namespace yacl {
namespace {
std::atomic<int> g_threads{4};
thread_local int t_in = 0;
thread_local int t_num = 0;
}  // namespace
int get_num_threads() { return g_threads; }
void set_num_threads(int n) { g_threads = n < 1 ? 1 : n; }
void init_num_threads() {}
bool in_parallel_region() { return t_in > 0; }
int get_thread_num() { return t_num; }
void ParallelForImpl(int64_t b, int64_t e, int64_t grain, const std::function<void(int64_t, int64_t)>& f) {
  if (b >= e) return;
  int64_t n = e - b;
  int64_t nt = std::min<int64_t>(g_threads, (n + grain - 1) / grain);
  if (nt <= 1 || t_in > 0) { f(b, e); return; }
  int64_t step = (n + nt - 1) / nt;
  std::vector<std::thread> ts;
  std::exception_ptr err;
  std::mutex mu;
  auto run = [&](int64_t i) {
    int64_t s = b + i * step, t = std::min(e, s + step);
    if (s >= t) return;
    t_in++; t_num = static_cast<int>(i);
    try { f(s, t); } catch (...) {
      std::lock_guard<std::mutex> g(mu);
      if (!err) err = std::current_exception();
    }
    t_in--; t_num = 0;
  };
  for (int64_t i = 1; i < nt; ++i) ts.emplace_back(run, i);
  run(0);
  for (auto& t : ts) t.join();
  if (err) std::rethrow_exception(err);
}
}  // namespace yacl

// libgomp's own probing is not instrumented; the number of processors is the
// number of threads of this stand-in.
extern "C" int omp_get_num_procs() { return yacl::get_num_threads(); }
