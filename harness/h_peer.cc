// Settings both parties must agree on (P05), what messages disclose (P06),
// scratch files (P30) and hostile messages (P32).
#include <signal.h>
#include <sys/resource.h>

#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <bitset>
#include <cstring>
#include <new>
#include <thread>
#include <set>
#include <unordered_map>
#include <unordered_set>

#include "absl/strings/escaping.h"
#include "world.h"

#include "yacl/crypto/hash/blake3.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "psi/cryptor/cryptor_selector.h"
#include "psi/utils/key.h"

// Length fields made up by a hostile peer must not turn into sanitizer
// reports about the size of an allocation: it fails as on a small machine.
static std::atomic<bool> g_limit{false};
static void* Alloc(size_t n) {
  if (g_limit && n > (size_t{1} << 30)) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return g_limit && n > (size_t{1} << 30) ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace {
using namespace vw;
namespace fs = std::filesystem;
using PC = psi::v2::PsiConfig;
using CFG = psi::v2::PsiConfig;

void SmallJob(vh::Case& c, Job& j, size_t rows = 20, double joins = 0.4) {
  GenProtocol(c.rng, j);
  if (j.proto == psi::v2::PROTOCOL_ECDH) j.batch = c.rng.pick({0, 1, 3, 16});
  else j.bucket = c.rng.pick({1, 3, 7, 1000});
  GenOpt o;
  o.max_rows = rows;
  o.joins = c.rng.chance(joins);
  GenTables(c, j, o);
}
const char* kSide[2] = {"receiver", "sender"};

// ---- P05
struct Change { std::string name; bool refuse; std::function<void(CFG&)> f; };

std::vector<Change> Changes(const Job& j, vh::Rng& r, const fs::path& dir) {
  std::vector<Change> v;
  auto add = [&](std::string n, bool refuse, std::function<void(CFG&)> f) { v.push_back({std::move(n), refuse, std::move(f)}); };
  auto pc = [](CFG& c) { return c.mutable_protocol_config(); };
  using namespace psi::v2;
  if (j.proto == PROTOCOL_ECDH) {
    add("protocol", true, [=](CFG& c) { pc(c)->set_protocol(PROTOCOL_KKRT); });
    auto other = j.curve == psi::CURVE_SM2 ? psi::CURVE_SECP256K1 : psi::CURVE_SM2;
    add("curve", true, [=](CFG& c) { pc(c)->mutable_ecdh_config()->set_curve(other); });
    if (j.curve == psi::CURVE_25519) add("curve-variant", true, [=](CFG& c) { pc(c)->mutable_ecdh_config()->set_curve(psi::CURVE_25519_ELLIGATOR2); });
    uint64_t b = j.batch + r.range(1, 50);
    add("batch size", true, [=](CFG& c) { pc(c)->mutable_ecdh_config()->set_batch_size(b); });
  } else if (j.proto == PROTOCOL_KKRT) {
    add("protocol", true, [=](CFG& c) { pc(c)->set_protocol(PROTOCOL_RR22); });
    uint64_t b = j.bucket + r.range(1, 50);
    add("bucket size", true, [=](CFG& c) { pc(c)->mutable_kkrt_config()->set_bucket_size(b); });
  } else {
    add("protocol", true, [=](CFG& c) { pc(c)->set_protocol(PROTOCOL_ECDH); pc(c)->mutable_ecdh_config()->set_curve(psi::CURVE_25519); });
    uint64_t b = j.bucket + r.range(1, 50);
    add("bucket size", true, [=](CFG& c) { pc(c)->mutable_rr22_config()->set_bucket_size(b); });
    add("low communication mode", true, [=](CFG& c) { pc(c)->mutable_rr22_config()->set_low_comm_mode(!j.low_comm); });
  }
  add("broadcast", true, [=](CFG& c) { pc(c)->set_broadcast_result(!j.broadcast); });
  auto join = j.join == PC::ADVANCED_JOIN_TYPE_FULL_JOIN ? PC::ADVANCED_JOIN_TYPE_DIFFERENCE : PC::ADVANCED_JOIN_TYPE_FULL_JOIN;
  add("join type", true, [=](CFG& c) { c.set_advanced_join_type(join); if (c.left_side() == ROLE_UNSPECIFIED) c.set_left_side(ROLE_RECEIVER); });
  if (j.join != PC::ADVANCED_JOIN_TYPE_INNER_JOIN && j.join != PC::ADVANCED_JOIN_TYPE_UNSPECIFIED)
    add("left side", true, [=](CFG& c) { c.set_left_side(j.left == ROLE_SENDER ? ROLE_RECEIVER : ROLE_SENDER); });
  if (!j.recovery)
    add("digest check", true, [=](CFG& c) { c.set_check_hash_digest(!j.digest); });
  add("recovery", true, [=](CFG& c) {
    c.mutable_recovery_config()->set_enabled(!j.recovery);
    c.mutable_recovery_config()->set_folder(j.recovery ? "" : (dir / "rec" / "one").string());
  });
  add("null text", true, [=](CFG& c) { c.mutable_output_attr()->set_csv_null_rep(j.side[0].null_rep + "N/A"); });
  add("threshold", true, [=](CFG& c) { c.set_intersection_threshold(j.threshold + 1); c.set_count_path((dir / "out" / "cnt.csv").string()); });
  add("role", true, [=](CFG& c) { pc(c)->set_role(c.protocol_config().role() == ROLE_SENDER ? ROLE_RECEIVER : ROLE_SENDER); });
  // local matters
  add("alignment", false, [=](CFG& c) { c.set_disable_alignment(!c.disable_alignment()); });
  add("trace path", false, [=](CFG& c) { c.mutable_debug_options()->set_trace_path((dir / "other.trace").string()); });
  add("log level", false, [=](CFG& c) { c.mutable_debug_options()->set_logging_level("debug"); });
  add("count path", false, [=](CFG& c) { c.set_count_path((dir / "out" / "unused.csv").string()); });
  if (j.recovery) add("recovery folder", false, [=](CFG& c) { c.mutable_recovery_config()->set_folder((dir / "rec" / "elsewhere").string()); });
  return v;
}

void Mismatch(vh::Case& c) {
  Job j;
  SmallJob(c, j);
  auto& r = c.rng;
  j.recovery = r.chance(0.25);
  auto all = Changes(j, r, c.dir);
  // one difference that matters, or any number of those that do not
  auto idx = r.below(all.size());
  std::vector<Change> chosen;
  bool refuse = r.chance(0.7);
  int side = r.below(2);
  std::string names;
  if (refuse) {
    std::vector<Change> ref;
    for (auto& a : all) if (a.refuse) ref.push_back(a);
    chosen.push_back(ref[idx % ref.size()]);
    if (r.chance(0.2)) chosen.push_back(r.pick(ref));
    if (chosen.size() == 2 && chosen[0].name == chosen[1].name) chosen.pop_back();
  }
  for (auto& a : all) if (!a.refuse && r.chance(refuse ? 0.15 : 0.6)) chosen.push_back(a);
  CFG cfg[2] = {ConfigOf(j, c.dir, 0), ConfigOf(j, c.dir, 1)};
  WriteInputs(j, c.dir);
  for (auto& a : chosen) { a.f(cfg[side]); names += (names.empty() ? "" : ", ") + a.name; }
  c.describe(fmt::format("{} differs at {}: {}", j.Text(), kSide[side], names));
  auto w = MakeWorld();
  w.hub->recv_timeout_ms = 15000;
  // A party given the other's role runs as that.
  auto got = RunConfigs(w, cfg[0], cfg[1], j.receiver_rank);
  if (refuse) {
    for (int i = 0; i < 2; ++i) {
      c.check(!got[i].done, "mismatch-accepted", "{} succeeded although {} differ(s) [{}]", kSide[i], names, j.Text());
      c.check(!got[i].has_output, "mismatch-output", "{} wrote an output although {} differ(s) [{}]", kSide[i], names, j.Text());
      c.check(got[i].error.find("Get data timeout") == std::string::npos && !vh::Stalled(got[i].error), "mismatch-hangs", "{}: {} [{}]", kSide[i], got[i].error.substr(0, 150), j.Text());
    }
    c.event("differences refused");
    c.event("difference in " + chosen[0].name);
  } else {
    Job k = j;
    for (auto& a : chosen) if (a.name == "alignment") k.side[side].disable_align = !k.side[side].disable_align;
    Judge(c, k, Expect(k), got, "local-");
    c.event("local differences accepted", chosen.size());
  }
}

void Invalid(vh::Case& c) {
  Job j;
  SmallJob(c, j);
  auto& r = c.rng;
  CFG cfg[2] = {ConfigOf(j, c.dir, 0), ConfigOf(j, c.dir, 1)};
  WriteInputs(j, c.dir);
  using namespace psi::v2;
  auto p = PathsOf(c.dir);
  int side = r.below(2);
  bool both = r.chance(0.3);
  struct Bad { std::string name; std::function<void(CFG&, int)> f; bool always_both = false; };
  std::vector<Bad> bad = {
      {"no input type", [](CFG& x, int) { x.mutable_input_config()->set_type(IO_TYPE_UNSPECIFIED); }},
      {"no output type", [](CFG& x, int) { x.mutable_output_config()->set_type(IO_TYPE_UNSPECIFIED); }},
      {"no keys", [](CFG& x, int) { x.clear_keys(); }},
      {"repeated key", [](CFG& x, int) { x.add_keys(x.keys(0)); }},
      {"unknown key", [](CFG& x, int) { x.add_keys("no_such_column"); }},
      {"misspelt key", [](CFG& x, int) { x.set_keys(0, x.keys(0) + "x"); }},
      {"missing input", [](CFG& x, int) { x.mutable_input_config()->set_path(x.input_config().path() + ".nope"); }},
      {"empty input", [&](CFG&, int i) { vh::WriteAll(p.in[i], ""); }},
      {"join without left side", [](CFG& x, int) { x.set_advanced_join_type(PC::ADVANCED_JOIN_TYPE_LEFT_JOIN); x.set_left_side(ROLE_UNSPECIFIED); }, true},
      {"role of another task", [](CFG& x, int) { x.mutable_protocol_config()->set_role(ROLE_SERVER); }},
      {"no role", [](CFG& x, int) { x.mutable_protocol_config()->set_role(ROLE_UNSPECIFIED); }},
      {"no protocol", [](CFG& x, int) { x.mutable_protocol_config()->set_protocol(PROTOCOL_UNSPECIFIED); }},
  };
  if (j.proto == PROTOCOL_ECDH)
    bad.push_back({"no curve", [](CFG& x, int) { x.mutable_protocol_config()->mutable_ecdh_config()->set_curve(psi::CURVE_INVALID_TYPE); }});
  auto& b = r.pick(bad);
  both |= b.always_both;
  for (int i = 0; i < 2; ++i) if (both || i == side) b.f(cfg[i], i);
  c.describe(fmt::format("{} {} at {}", j.Text(), b.name, both ? "both" : kSide[side]));
  auto w = MakeWorld();
  w.hub->recv_timeout_ms = 15000;
  auto got = RunConfigs(w, cfg[0], cfg[1], j.receiver_rank);
  for (int i = 0; i < 2; ++i) {
    c.check(!got[i].done, "invalid-accepted", "{} succeeded with {} at {} [{}]", kSide[i], b.name, both ? "both" : kSide[side], j.Text());
    c.check(!got[i].has_output, "invalid-output", "{} wrote an output with {} [{}]", kSide[i], b.name, j.Text());
    c.check(got[i].error.find("Get data timeout") == std::string::npos && !vh::Stalled(got[i].error), "invalid-hangs", "{}: {} [{}]", kSide[i], got[i].error.substr(0, 150), j.Text());
  }
  c.event("invalid settings refused");
  c.event("invalid: " + b.name);
}

// ---- P06
std::string Bytes(const void* p, size_t n) { return std::string(static_cast<const char*>(p), n); }

// Texts computable from a key by anybody.
std::vector<std::pair<std::string, std::string>> PublicForms(const std::string& key, const std::shared_ptr<psi::IEccCryptor>& ec) {
  std::vector<std::pair<std::string, std::string>> v;
  auto add = [&](const char* n, std::string s) { if (s.size() >= 8) v.emplace_back(n, std::move(s)); };
  std::vector<std::string> bases = {key, absl::Base64Escape(key), "\"" + key + "\""};
  add("raw", key);
  add("base64", absl::Base64Escape(key).substr(0, key.size() / 3 * 4));
  add("hex", vh::Hex(key, 1000));
  for (size_t i = 0; i < bases.size(); ++i) {
    auto s = yacl::crypto::Sha256(bases[i]);
    add("sha256", Bytes(s.data(), 16));
    add("sha256 tail", Bytes(s.data() + 16, 16));
    add("sha256 hex", vh::Hex(Bytes(s.data(), 16), 1000));
    add("sha256 base64", absl::Base64Escape(Bytes(s.data(), s.size())).substr(0, 30));
    auto b = yacl::crypto::Blake3_128(bases[i]);
    add("blake3", Bytes(&b, 16));
    auto b2 = yacl::crypto::Blake3(bases[i]);
    add("blake3-256", Bytes(b2.data(), 16));
    auto m = yacl::crypto::Sm3(bases[i]);
    add("sm3", Bytes(m.data(), 16));
  }
  if (ec) {
    auto pts = ec->HashInputs({key});
    for (auto& s : ec->SerializeEcPoints(pts)) {
      add("curve point", s);
      if (s.size() > 24) {
        add("curve point head", s.substr(1, 16));
        add("curve point tail", s.substr(s.size() - 16));
        add("curve point base64", absl::Base64Escape(s).substr(0, 24));
      }
    }
  }
  return v;
}

struct Finder {  // many needles at once, by their first 8 bytes
  std::unordered_map<uint64_t, std::vector<std::pair<std::string, std::string>>> m;
  size_t n = 0;
  void Add(const std::string& what, const std::string& s) {
    uint64_t k; memcpy(&k, s.data(), 8);
    m[k].emplace_back(what, s); ++n;
  }
  std::string Find(const std::string& d) const {
    for (size_t i = 0; i + 8 <= d.size(); ++i) {
      uint64_t k; memcpy(&k, d.data() + i, 8);
      auto it = m.find(k);
      if (it == m.end()) continue;
      for (auto& [w, s] : it->second) if (d.compare(i, s.size(), s) == 0) return w;
    }
    return "";
  }
};

// Keys and payload long and distinctive enough to be recognised.
void SecretTables(vh::Case& c, Job& j, size_t n0, size_t n1, size_t common, bool dups) {
  auto& r = c.rng;
  int nk = r.chance(0.7) ? 1 : 2;
  std::vector<Row> pool;
  for (size_t i = 0; i < n0 + n1 - common; ++i) {
    Row k;
    for (int q = 0; q < nk; ++q) k.push_back(r.str(14, "ABCDEFGHJKLMNPQRSTUVWXYZ23456789"));
    pool.push_back(k);
  }
  for (int i = 0; i < 2; ++i) {
    auto& s = j.side[i];
    s = Side();
    std::vector<Row> keys;
    if (i == 0) keys.assign(pool.begin(), pool.begin() + n0);
    else keys.assign(pool.begin() + (n0 - common), pool.end());
    if (dups) { size_t m = keys.size(); for (size_t q = 0; q < m / 3 + 1; ++q) keys.push_back(keys[r.below(m)]); }
    r.shuffle(keys);
    for (int q = 0; q < nk; ++q) { s.keys.push_back(fmt::format("{}k{}", i ? "s" : "r", q)); s.tab.cols.push_back(s.keys.back()); }
    s.tab.cols.push_back("pay");
    for (auto& k : keys) { Row row = k; row.push_back("PAY" + r.str(12, "abcdefghijkmnpqrstuvwxyz")); s.tab.rows.push_back(row); }
    s.unique = !dups && r.chance(0.3);
  }
}
bool Meta(const std::string& tag) {
  for (auto t : {"VERIFY_CONFIG", "SYNC_DIGEST", "SYNC_FLAG", "SYNC_SIZE", "sync_wait", "connect"}) if (tag.find(t) != std::string::npos) return true;
  return false;
}
// Messages after the result was agreed to be shared.
bool ResultTag(const std::string& tag) { return tag.find("broadcast psi result") != std::string::npos; }

void Secrecy(vh::Case& c) {
  auto& r = c.rng;
  Job j;
  GenProtocol(r, j);
  if (j.proto == psi::v2::PROTOCOL_ECDH) j.batch = r.pick({0, 2, 7});
  else j.bucket = r.pick({4, 1000});
  j.join = r.chance(0.7) ? PC::ADVANCED_JOIN_TYPE_INNER_JOIN : PC::ADVANCED_JOIN_TYPE_FULL_JOIN;
  j.left = psi::v2::ROLE_RECEIVER;
  size_t n0 = r.range(1, 20), n1 = r.range(1, 20), common = r.below(std::min(n0, n1) + 1);
  SecretTables(c, j, n0, n1, common, r.chance(0.4));
  c.describe(j.Text());
  WriteInputs(j, c.dir);
  auto want = Expect(j);
  std::set<Row> inter(want.key_order.begin(), want.key_order.end());
  std::shared_ptr<psi::IEccCryptor> ec;
  if (j.proto == psi::v2::PROTOCOL_ECDH) ec = psi::CreateEccCryptor(j.curve);
  // needles of each party; those of shared keys apart
  Finder priv[2], shared[2], pay[2];
  for (int i = 0; i < 2; ++i) {
    std::set<Row> done;
    for (size_t q = 0; q < j.side[i].tab.rows.size(); ++q) {
      auto k = j.side[i].tab.Key(q, j.side[i].keys);
      pay[i].Add("payload", j.side[i].tab.rows[q].back());
      if (!done.insert(k).second) continue;
      auto& f = inter.count(k) ? shared[i] : priv[i];
      std::vector<absl::string_view> vs(k.begin(), k.end());
      for (auto& [w, s] : PublicForms(psi::KeysJoin(vs), ec)) f.Add(w, s);
      for (auto& part : k) f.Add("key column", part);
    }
  }
  std::vector<verif::LinkEvent> logs[2];
  for (int run = 0; run < 2; ++run) {
    auto w = MakeWorld();
    w.hub->record = true;
    auto p = PathsOf(c.dir);
    for (int i = 0; i < 2; ++i) fs::remove(p.out[i]);
    Judge(c, j, want, RunJob(j, c.dir, &w), "run-");
    if (c.failed()) return;
    logs[run] = w.hub->Log();
  }
  uint64_t msgs = 0, bytes = 0;
  for (auto& e : logs[0]) {
    if (!e.send) continue;
    ++msgs; bytes += e.data.size();
    int side = e.src == j.receiver_rank ? 0 : 1;
    for (int o = 0; o < 2; ++o) {
      // a party may repeat what it was itself entitled to learn, never the rest
      std::string f = priv[o].Find(e.data);
      c.check(f.empty(), "message-reveals-key", "{} sends {} of a key outside the intersection in {} [{}]", kSide[side], f, e.tag, j.Text());
      f = pay[o].Find(e.data);
      c.check(f.empty(), "message-reveals-payload", "{} in {} [{}]", kSide[side], e.tag, j.Text());
      if (!(j.broadcast && ResultTag(e.tag))) {
        f = shared[o].Find(e.data);
        c.check(f.empty(), "message-reveals-common-key", "{} sends {} in {} [{}]", kSide[side], f, e.tag, j.Text());
      }
    }
  }
  c.event("messages searched", msgs);
  c.event("bytes searched", bytes);
  c.event("forms searched for", priv[0].n + priv[1].n + shared[0].n + shared[1].n);
  // fresh secrets: no protected content appears in both runs
  const size_t W = 16;
  std::unordered_set<std::string> seen;
  auto windows = [&](const std::string& d, auto f) {
    for (size_t i = 0; i + W <= d.size(); ++i) {
      bool print = true;
      int high = 0;
      std::bitset<256> distinct;
      for (size_t k = i; k < i + W; ++k) {
        distinct.set(static_cast<uint8_t>(d[k]));
        high += static_cast<uint8_t>(d[k]) >= 0x40;
        print &= (d[k] >= 32 && d[k] < 127);
      }
      // random-looking windows only: small numbers may well be the same
      if (print || distinct.count() < 11 || high < 8) continue;
      if (!f(d.substr(i, W))) return;
    }
  };
  for (auto& e : logs[0]) if (e.send && !Meta(e.tag) && !ResultTag(e.tag)) windows(e.data, [&](std::string s) { seen.insert(std::move(s)); return true; });
  for (auto& e : logs[1]) {
    if (!e.send || Meta(e.tag) || ResultTag(e.tag)) continue;
    windows(e.data, [&](std::string s) {
      return c.check(!seen.count(s), "message-repeats-across-runs", "{} in {} [{}]", e.src == j.receiver_rank ? "receiver" : "sender", e.tag, j.Text());
    });
  }
  c.event("protected windows compared", seen.size());
}

// Without a broadcast, nothing the sender receives depends on the overlap
// except through values it cannot tell from random: their sizes are the same.
void Shape(vh::Case& c) {
  auto& r = c.rng;
  Job j;
  GenProtocol(r, j);
  j.broadcast = false;
  j.recovery = false;
  j.digest = false;
  if (j.proto == psi::v2::PROTOCOL_ECDH) j.batch = r.pick({0, 2, 7});
  else j.bucket = 1000;
  j.join = PC::ADVANCED_JOIN_TYPE_INNER_JOIN;
  size_t n = r.range(1, 24);
  std::vector<std::string> shape[3];
  std::vector<std::vector<uint64_t>> lens(3);
  bool uniq = r.chance(0.3);
  size_t commons[3] = {0, n, r.below(n + 1)};
  for (int v = 0; v < 3; ++v) {
    auto d = c.dir / std::to_string(v);
    fs::create_directories(d);
    SecretTables(c, j, n, n, commons[v], false);
    j.side[0].unique = j.side[1].unique = uniq;
    // one key column always, so that sizes can only depend on the overlap
    for (auto& s : j.side) {
      while (s.keys.size() > 1) s.keys.pop_back();
    }
    WriteInputs(j, d);
    auto w = MakeWorld();
    w.hub->record = true;
    Judge(c, j, Expect(j), RunJob(j, d, &w), "run-");
    if (c.failed()) return;
    std::map<std::string, std::vector<size_t>> per;  // by context: the order of messages within it is fixed
    for (auto& e : w.hub->Log())
      if (e.send && e.dst == 1 - j.receiver_rank && e.tag.find("sync_wait") == std::string::npos && e.tag.find("VERIFY_CONFIG") == std::string::npos) per["all"].push_back(e.data.size());
    for (auto& [k, x] : per) { std::sort(x.begin(), x.end()); shape[v].push_back(fmt::format("{}", fmt::join(x, " "))); }
  }
  c.describe(fmt::format("{} n={} common={}", j.Text(), n, commons[2]));
  c.check(shape[0] == shape[1] && shape[0] == shape[2], "sender-learns-overlap-size", "messages to the sender when disjoint [{}], identical [{}], partly [{}] [{}]", fmt::join(shape[0], "|"), fmt::join(shape[1], "|"), fmt::join(shape[2], "|"), j.Text());
  c.event("overlaps compared", 3);
}

// ---- P30
std::set<std::string> Tree(const fs::path& d) {
  std::set<std::string> s;
  if (fs::exists(d))
    for (auto& e : fs::recursive_directory_iterator(d)) s.insert(e.path().lexically_relative(d).string());
  return s;
}
void Temps(vh::Case& c) {
  auto& r = c.rng;
  auto tmp = c.dir / "tmp", cwd = c.dir / "cwd";
  fs::create_directories(tmp);
  fs::create_directories(cwd);
  setenv("TMPDIR", tmp.c_str(), 1);
  fs::current_path(cwd);
  int jobs = r.chance(0.5) ? 1 : r.range(2, 4);
  std::vector<Job> js(jobs);
  std::vector<fs::path> dirs(jobs);
  std::string desc;
  bool same_data = r.chance(0.4);
  for (int i = 0; i < jobs; ++i) {
    if (i > 0 && same_data) js[i] = js[0];
    else SmallJob(c, js[i]);
    js[i].recovery = false;
    dirs[i] = c.dir / fmt::format("job{}", i);
    fs::create_directories(dirs[i]);
    WriteInputs(js[i], dirs[i]);
    desc += js[i].Text() + " ";
  }
  int fault = r.chance(0.4) ? r.range(1, 60) : 0;
  c.describe(fmt::format("{} jobs fault={} {}", jobs, fault, desc));
  std::vector<std::array<Party, 2>> got(jobs);
  std::vector<std::thread> th;
  for (int i = 0; i < jobs; ++i)
    th.emplace_back([&, i] {
      auto w = MakeWorld();
      w.hub->recv_timeout_ms = 15000;
      auto hub = w.hub.get();
      auto n = std::make_shared<std::atomic<int>>(0);
      if (fault && i == 0) hub->hook = [=](const verif::LinkEvent&) { if (++*n == fault) { hub->Kill(0); hub->Kill(1); throw std::runtime_error("injected"); } };
      got[i] = RunJob(js[i], dirs[i], &w);
    });
  for (auto& t : th) t.join();
  for (int i = 0; i < jobs; ++i) {
    if (!(fault && i == 0)) Judge(c, js[i], Expect(js[i]), got[i], "parallel-");
    else if (!got[i][0].done || !got[i][1].done) c.event("failed runs cleaned up");
    for (auto& f : Tree(dirs[i])) {
      static const std::set<std::string> ok = {"in", "out", "in/receiver.csv", "in/sender.csv", "out/receiver.csv", "out/sender.csv", "trace0", "trace1"};
      bool fine = ok.count(f) > 0;
      // the key summary kept beside a unique-key input
      for (int s = 0; s < 2; ++s) fine |= js[i].side[s].unique && f == fmt::format("in/{}.csv.meta", kSide[s]);
      c.check(fine, "file-left-behind", "{} in the folder of the job [{}]", f, js[i].Text());
    }
  }
  auto left = Tree(tmp);
  c.check(left.empty(), "scratch-left-behind", "{} entries, e.g. {} after {}", left.size(), left.empty() ? "" : *left.begin(), fault ? "a failed run" : "a run");
  auto left2 = Tree(cwd);
  c.check(left2.empty(), "file-left-in-working-folder", "{}", left2.empty() ? "" : *left2.begin());
  c.event("runs inspected", jobs);
  fs::current_path("/");
}

// ---- P32
std::string Mutate(vh::Rng& r, const std::string& d, const std::vector<std::string>& old) {
  std::string s = d;
  switch (r.below(11)) {
    case 0: s.clear(); break;
    case 1: s.resize(r.below(s.size() + 1)); break;
    case 2: s += r.bytes(r.range(1, 64)); break;
    case 3: case 4: {
      int n = r.range(1, 4);
      for (int i = 0; i < n && !s.empty(); ++i) s[r.below(s.size())] ^= static_cast<char>(1 << r.below(8));
      break;
    }
    case 5: s = r.bytes(r.below(80)); break;
    case 6: s = r.bytes(s.size()); break;
    case 7: if (!old.empty()) s = r.pick(old); break;
    case 8: {  // a number somewhere becomes large
      if (s.size() >= 8) { uint64_t v = r.pick({~0ull, 1ull << 40, 0x7fffffffffffffffull, 0ull, 1ull, 0xffffffffull, 65536ull}); memcpy(&s[r.below(s.size() - 7)], &v, 8); }
      else if (!s.empty()) s[r.below(s.size())] = '\xff';
      break;
    }
    case 9: s = s + s; break;
    default: {  // a piece is removed or repeated
      if (s.size() < 2) { s += 'x'; break; }
      size_t a = r.below(s.size()), n = 1 + r.below(std::min<size_t>(s.size() - a, 40));
      if (r.chance(0.5)) s.erase(a, n); else s.insert(a, s.substr(a, n));
    }
  }
  return s;
}
// A claimed multiplicity is honoured whatever its size (the output then has
// that many rows): the run ends at this file size, as on a full disk.
struct FileLimit {
  rlimit old{};
  explicit FileLimit(rlim_t n) {
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit now = old;
    now.rlim_cur = n;
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &now);
  }
  ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};
void Hostile(vh::Case& c) {
  auto& r = c.rng;
  Job j;
  SmallJob(c, j, 16, 0.2);
  j.recovery = false;
  c.describe(j.Text());
  WriteInputs(j, c.dir);
  std::array<std::atomic<uint64_t>, 2> count{};
  {
    auto w = MakeWorld();
    w.hub->rewrite = [&](const verif::LinkEvent& e, std::string*) { count[e.src]++; };
    Judge(c, j, Expect(j), RunJob(j, c.dir, &w), "clean-");
    if (c.failed()) return;
  }
  std::string desc = j.Text();
  for (int rep = 0; rep < 3; ++rep) {
    size_t rank = r.below(2);
    int n = r.pick({1, 1, 1, 2, 4});
    std::set<uint64_t> at;
    for (int i = 0; i < n; ++i) at.insert(r.below(count[rank]));
    uint64_t seed = r.u64();
    auto w = MakeWorld();
    w.hub->recv_timeout_ms = 2000;
    std::mutex mu;
    std::vector<std::string> old;
    uint64_t k = 0, hits = 0;
    std::string what;
    w.hub->rewrite = [&](const verif::LinkEvent& e, std::string* d) {
      if (e.src != rank) return;
      std::lock_guard<std::mutex> g(mu);
      uint64_t me = k++;
      if (at.count(me)) {
        vh::Rng q(vh::Mix(seed + me));
        std::string before = *d;
        *d = Mutate(q, *d, old);
        if (*d != before) ++hits;
        what += e.tag + " ";
      }
      if (old.size() < 50) old.push_back(*d);
    };
    desc += fmt::format(" rank{} {}", rank, fmt::join(at, ","));
    c.describe(desc);
    auto p = PathsOf(c.dir);
    for (int i = 0; i < 2; ++i) fs::remove(p.out[i]);
    g_limit = true;
    auto got = [&] { FileLimit limit(16 << 20); return RunJob(j, c.dir, &w); }();
    g_limit = false;
    for (int i = 0; i < 2; ++i) {
      c.check(!vh::Stalled(got[i].error), "hostile-hangs", "{} after {} [{}]", got[i].error, what, j.Text());
      c.event(got[i].done ? "parties that finished" : "parties that failed cleanly");
    }
    c.event("messages changed", hits);
  }
}
}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"mismatch", Mismatch}, {"invalid", Invalid}, {"secrecy", Secrecy}, {"shape", Shape}, {"temps", Temps}, {"hostile", Hostile}});
}
