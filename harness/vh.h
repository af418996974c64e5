// Small library shared by the harnesses: seeded cases, event counters,
// violation records, per-case scratch directories.
#pragma once
#include <cstdint>
#include <cstdio>
#include <exception>
#include <filesystem>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <vector>

#include "fmt/format.h"
#include "fmt/ranges.h"

namespace vh {

uint64_t Mix(uint64_t x);

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(Mix(seed)) {}
  uint64_t u64() { return Mix(s += 0x9e3779b97f4a7c15ull); }
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return u64(); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(b - a + 1)); }
  bool chance(double p) { return (u64() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class C> const typename C::value_type& pick(const C& c) { return c[below(c.size())]; }
  template <class T> T pick(std::initializer_list<T> c) { return *(c.begin() + below(c.size())); }
  std::string str(size_t n, std::string_view alpha = "abcdefghijklmnopqrstuvwxyz0123456789") {
    std::string r(n, 0);
    for (auto& ch : r) ch = alpha[below(alpha.size())];
    return r;
  }
  std::string bytes(size_t n) {
    std::string r(n, 0);
    for (auto& ch : r) ch = static_cast<char>(u64());
    return r;
  }
  template <class C> void shuffle(C& c) {
    for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]);
  }
};

struct Case {
  Rng rng;
  uint64_t seed;
  uint64_t index;
  bool thorough;
  std::filesystem::path dir;  // private, empty at start, removed afterwards

  void event(const std::string& name, uint64_t n = 1);
  void fail(const std::string& key, const std::string& detail);
  // Text that identifies the case; two cases with the same text count once.
  void describe(const std::string& d) { std::lock_guard<std::mutex> g(mu); desc = d; }
  void trivial() { nontrivial = false; }
  bool failed() { std::lock_guard<std::mutex> g(mu); return !viol.empty(); }
  template <class... A>
  bool check(bool ok, const std::string& key, fmt::format_string<A...> f, A&&... a) {
    if (!ok) fail(key, fmt::format(f, std::forward<A>(a)...));
    return ok;
  }

  explicit Case(uint64_t s) : rng(s), seed(s), index(0), thorough(false) {}
  std::mutex mu;
  std::map<std::string, uint64_t> events;
  std::vector<std::pair<std::string, std::string>> viol;
  std::string desc;
  bool nontrivial = true;
};

using Fn = std::function<void(Case&)>;
struct Scenario { const char* name; Fn fn; };
int Main(int argc, char** argv, const std::vector<Scenario>& scn);

// Runs f, returns the text of what it threw ("" when it returned).
std::string Thrown(const std::function<void()>& f);
// true when the text is the transport's "no progress" verdict.
inline bool Stalled(const std::string& what) { return what.find("STALL") != std::string::npos; }
std::string Hex(std::string_view s, size_t max = 64);
std::string ReadAll(const std::filesystem::path& p);
void WriteAll(const std::filesystem::path& p, std::string_view s);
std::set<std::string> ListDir(const std::filesystem::path& p);

}  // namespace vh
