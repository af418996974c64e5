#include "vh.h"

#include <unistd.h>

#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>

#include "verif/shim_ctl.h"

// Batch and block sizes the engines have as constants; hooks in the sources
// (guard PSI_VERIF_HOOKS) make them variables, so that small tables too are
// processed in several batches. Null where a binary lacks the part.
#define BATCH(ns, type, name) namespace ns { extern type name __attribute__((weak)); }
BATCH(psi, size_t, kBatchSize)
BATCH(psi, size_t, kIndexWriterCacheSize)
BATCH(psi, size_t, kEcdhPsiBatchSize)
BATCH(psi, size_t, kDefaultBatchSize)
BATCH(psi::ecdh, size_t, kEcdhOprfPsiBatchSize)
BATCH(psi::kkrt, size_t, kPsiDataBatchSize)
BATCH(psi::dp_psi, uint64_t, kSendBatchSize)
namespace verif { extern size_t arrow_block_bytes __attribute__((weak)); }

namespace vh {

// Threads of an abandoned engine may still read these: hidden from TSan.
__attribute__((no_sanitize("thread"), no_sanitize("address"))) static void SetBatches(uint64_t seed) {
  Rng r(seed ^ 0xba7c4);
  bool small = !getenv("VERIF_FULL_BATCHES") && r.chance(0.6);
  auto set = [&](auto* p, size_t full) {
    size_t v = small && r.chance(0.8) ? r.pick({size_t(1), size_t(2), size_t(3), size_t(r.range(4, 40)), size_t(r.range(20, 200)), size_t(r.range(100, 1000))}) : full;
    if (p) *p = v;
  };
  set(&psi::kBatchSize, 1 << 16);
  set(&psi::kIndexWriterCacheSize, 1 << 10);
  set(&psi::kEcdhPsiBatchSize, 4096);
  set(&psi::kDefaultBatchSize, 1 << 20);
  set(&psi::ecdh::kEcdhOprfPsiBatchSize, 8192);
  set(&psi::kkrt::kPsiDataBatchSize, 1024);
  set(&psi::dp_psi::kSendBatchSize, 8192);
  size_t block = small && r.chance(0.8) ? r.pick({1, int(r.range(5, 60)), int(r.range(50, 3000))}) : 1 << 20;
  if (&verif::arrow_block_bytes) verif::arrow_block_bytes = block;
}

uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

void Case::event(const std::string& name, uint64_t n) {
  std::lock_guard<std::mutex> g(mu);
  events[name] += n;
}
void Case::fail(const std::string& key, const std::string& detail) {
  std::lock_guard<std::mutex> g(mu);
  if (viol.size() < 20) viol.emplace_back(key, detail.substr(0, 1500));
}

namespace {
std::string Q(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) r += fmt::format("\\u{:04x}", c);
    else r += c;
  }
  return r + "\"";
}
}  // namespace

std::string Thrown(const std::function<void()>& f) {
  try {
    f();
    return "";
  } catch (const std::exception& e) {
    std::string w = e.what();
    return w.empty() ? "exception" : w;
  } catch (...) {
    return "unknown exception";
  }
}
std::string Hex(std::string_view s, size_t max) {
  std::string r;
  for (size_t i = 0; i < s.size() && i < max; ++i) r += fmt::format("{:02x}", static_cast<uint8_t>(s[i]));
  if (s.size() > max) r += "...";
  return r;
}
std::string ReadAll(const std::filesystem::path& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
void WriteAll(const std::filesystem::path& p, std::string_view s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), s.size());
}
std::set<std::string> ListDir(const std::filesystem::path& p) {
  std::set<std::string> r;
  if (!std::filesystem::exists(p)) return r;
  for (auto& e : std::filesystem::recursive_directory_iterator(p))
    r.insert(std::filesystem::relative(e.path(), p).string());
  return r;
}

int Main(int argc, char** argv, const std::vector<Scenario>& scn) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
  auto get = [&](const char* k, const char* d) { return a.count(k) ? a[k] : std::string(d); };
  uint64_t seed = std::strtoull(get("seed", "1").c_str(), nullptr, 10);
  uint64_t first = std::strtoull(get("first", "0").c_str(), nullptr, 10);
  uint64_t count = std::strtoull(get("count", "10").c_str(), nullptr, 10);
  uint64_t stride = std::strtoull(get("stride", "1").c_str(), nullptr, 10);
  std::string name = get("scn", scn[0].name);
  bool thorough = get("tier", "quick") == "thorough";
  std::filesystem::path work = get("workdir", "/tmp/vh-manual");
  std::filesystem::create_directories(work / "tmp");
  work = std::filesystem::absolute(work);
  setenv("TMPDIR", (work / "tmp").c_str(), 1);
  FILE* out = a.count("out") ? fopen(a["out"].c_str(), "a") : stdout;
  const Scenario* sc = nullptr;
  for (auto& s : scn) if (name == s.name) sc = &s;
  if (!sc || !out) { fprintf(stderr, "no such scenario %s\n", name.c_str()); return 9; }
  uint64_t tag = 1469598103934665603ull;
  for (const char* p = sc->name; *p; ++p) tag = (tag ^ static_cast<uint8_t>(*p)) * 1099511628211ull;
  for (uint64_t k = 0; k < count; ++k) {
    uint64_t i = first + k * stride;
    fprintf(out, "{\"begin\":%llu}\n", static_cast<unsigned long long>(i));
    fflush(out);
    Case c(Mix(seed ^ tag) + Mix(i));
    c.index = i;
    c.thorough = thorough;
    c.dir = work / fmt::format("case{}", i);
    std::filesystem::create_directories(c.dir);
    verif::SeedRandom(c.seed);
    SetBatches(c.seed);
    try {
      sc->fn(c);
    } catch (const std::exception& e) {
      std::string w = e.what();
      c.fail(Stalled(w) ? "stall" : "exception", w);
    } catch (...) {
      c.fail("exception", "unknown exception");
    }
    std::error_code ec;
    std::filesystem::remove_all(c.dir, ec);
    std::string line = fmt::format("{{\"i\":{},\"nt\":{},\"d\":{},\"ev\":{{", i, c.nontrivial ? "true" : "false", Q(c.desc));
    bool sep = false;
    for (auto& [n, v] : c.events) { line += fmt::format("{}{}:{}", sep ? "," : "", Q(n), v); sep = true; }
    line += "},\"viol\":[";
    sep = false;
    for (auto& [key, d] : c.viol) { line += fmt::format("{}[{},{}]", sep ? "," : "", Q(key), Q(d)); sep = true; }
    line += "]}\n";
    fwrite(line.data(), 1, line.size(), out);
    fflush(out);
  }
  fprintf(out, "{\"done\":true}\n");
  fclose(out);
  // Threads of abandoned engines may still run; leave without static teardown.
  fflush(nullptr);
  _exit(0);
}

}  // namespace vh
