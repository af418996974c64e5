#include "world.h"

#include <algorithm>
#include <future>
#include <map>
#include <thread>

#include "psi/apps/psi_launcher/factory.h"

namespace vw {
using namespace psi;

namespace {
std::string Field(const std::string& s, bool quote) {
  if (!quote && s.find_first_of(",\"\n\r") == std::string::npos) return s;
  std::string r = "\"";
  for (char c : s) { if (c == '"') r += '"'; r += c; }
  return r + "\"";
}
std::string Line(const Row& row, bool quote) {
  std::string r;
  for (size_t i = 0; i < row.size(); ++i) { if (i) r += ','; r += Field(row[i], quote); }
  return r;
}
}  // namespace

std::string Tab::Text() const {
  std::string t = Line(cols, quote) + "\n";
  for (size_t i = 0; i < rows.size(); ++i) {
    t += Line(rows[i], quote);
    if (i + 1 < rows.size() || final_newline) t += "\n";
    if (std::count(blank_after.begin(), blank_after.end(), i)) { if (i + 1 == rows.size() && !final_newline) t += "\n"; t += "\n"; }
  }
  return t;
}
size_t Tab::Col(const std::string& name) const {
  return std::find(cols.begin(), cols.end(), name) - cols.begin();
}
Row Tab::Key(size_t row, const Row& keys) const {
  Row k;
  for (auto& n : keys) k.push_back(rows[row][Col(n)]);
  return k;
}

std::vector<Row> ParseCsv(const std::string& t) {
  std::vector<Row> out;
  Row row;
  std::string f;
  bool any = false, q = false;
  for (size_t i = 0; i < t.size(); ++i) {
    char c = t[i];
    if (q) {
      if (c == '"') { if (i + 1 < t.size() && t[i + 1] == '"') { f += '"'; ++i; } else q = false; }
      else f += c;
      continue;
    }
    if (c == '"' && f.empty()) { q = true; any = true; }
    else if (c == ',') { row.push_back(f); f.clear(); any = true; }
    else if (c == '\n') {
      row.push_back(f); f.clear(); out.push_back(row); row.clear(); any = false;
    } else { f += c; any = true; }
  }
  if (any || !f.empty() || !row.empty()) { row.push_back(f); out.push_back(row); }
  return out;
}

std::string Job::Text() const {
  auto side_text = [](const Side& s) {
    return fmt::format("{}r/{}c keys={}{}{}{}", s.tab.rows.size(), s.tab.cols.size(), fmt::join(s.keys, "+"),
                       s.unique ? " unique" : "", s.disable_align ? " noalign" : "", s.tab.quote ? " quoted" : "");
  };
  std::string p;
  if (proto == v2::PROTOCOL_ECDH) p = fmt::format("ECDH {} batch={}", CurveType_Name(curve), batch);
  else p = fmt::format("{} bucket={}{}", proto == v2::PROTOCOL_KKRT ? "KKRT" : "RR22", bucket, low_comm ? " low" : "");
  return fmt::format("{} rank{} {}{}{}{}{} R[{}] S[{}] #{:x}", p, receiver_rank, broadcast ? "bc " : "",
                     v2::PsiConfig::AdvancedJoinType_Name(join).substr(19), left ? " left=" + v2::Role_Name(left) : "",
                     recovery ? " rec" : "", digest ? " digest" : "", side_text(side[0]), side_text(side[1]),
                     std::hash<std::string>()(side[0].tab.Text() + "|" + side[1].tab.Text()) & 0xffffff);
}

World MakeWorld(size_t n) {
  World w;
  w.ctx = yacl::link::test::SetupWorld(n);
  w.hub = w.ctx[0]->hub();
  return w;
}

Paths PathsOf(const std::filesystem::path& d) {
  Paths p;
  const char* n[2] = {"receiver", "sender"};
  for (int i = 0; i < 2; ++i) {
    p.in[i] = d / "in" / (std::string(n[i]) + ".csv");
    p.out[i] = d / "out" / (std::string(n[i]) + ".csv");
    p.rec[i] = d / "rec" / n[i];
    p.count[i] = d / "out" / (std::string(n[i]) + "_count.csv");
  }
  return p;
}
void WriteInputs(const Job& j, const std::filesystem::path& dir) {
  auto p = PathsOf(dir);
  for (int i = 0; i < 2; ++i) {
    std::filesystem::create_directories(p.in[i].parent_path());
    std::filesystem::create_directories(p.out[i].parent_path());
    vh::WriteAll(p.in[i], j.side[i].tab.Text());
  }
}
v2::PsiConfig ConfigOf(const Job& j, const std::filesystem::path& dir, int i) {
  auto p = PathsOf(dir);
  v2::PsiConfig c;
  auto* pc = c.mutable_protocol_config();
  pc->set_protocol(j.proto);
  pc->set_role(i == 0 ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  pc->set_broadcast_result(j.broadcast);
  if (j.proto == v2::PROTOCOL_ECDH) {
    pc->mutable_ecdh_config()->set_curve(j.curve);
    if (j.batch) pc->mutable_ecdh_config()->set_batch_size(j.batch);
  } else if (j.proto == v2::PROTOCOL_KKRT) {
    if (j.bucket) pc->mutable_kkrt_config()->set_bucket_size(j.bucket);
  } else {
    if (j.bucket) pc->mutable_rr22_config()->set_bucket_size(j.bucket);
    pc->mutable_rr22_config()->set_low_comm_mode(j.low_comm);
  }
  c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_input_config()->set_path(p.in[i]);
  c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(p.out[i]);
  for (auto& k : j.side[i].keys) c.add_keys(k);
  c.mutable_debug_options()->set_trace_path(dir / fmt::format("trace{}", i));
  c.set_disable_alignment(j.side[i].disable_align);
  if (j.recovery) {
    c.mutable_recovery_config()->set_enabled(true);
    c.mutable_recovery_config()->set_folder(p.rec[i]);
  }
  c.set_advanced_join_type(j.join);
  c.set_left_side(j.left);
  c.set_check_hash_digest(j.digest);
  c.mutable_input_attr()->set_keys_unique(j.side[i].unique);
  // must be equal on both sides
  if (!j.side[0].null_rep.empty()) c.mutable_output_attr()->set_csv_null_rep(j.side[0].null_rep);
  c.set_intersection_threshold(j.threshold);
  if (j.threshold) c.set_count_path(p.count[i]);
  return c;
}

std::vector<std::string> RunRanks(World& w, const std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>>& f) {
  std::vector<std::string> err(f.size());
  std::vector<std::thread> th;
  for (size_t i = 0; i < f.size(); ++i)
    th.emplace_back([&, i] {
      err[i] = vh::Thrown([&] { f[i](w.ctx[i]); });
      w.hub->Leave(i);
    });
  for (auto& t : th) t.join();
  return err;
}

std::array<Party, 2> RunConfigs(World& w, const v2::PsiConfig& r, const v2::PsiConfig& s, size_t rr) {
  std::array<Party, 2> out;
  const v2::PsiConfig* cfg[2] = {&r, &s};
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(2);
  for (int i = 0; i < 2; ++i) {
    size_t rank = i == 0 ? rr : 1 - rr;
    f[rank] = [&, i](const std::shared_ptr<yacl::link::Context>& l) {
      auto party = createPsiParty(*cfg[i], l);
      out[i].report = party->Run();
    };
  }
  auto err = RunRanks(w, f);
  for (int i = 0; i < 2; ++i) {
    out[i].error = err[i == 0 ? rr : 1 - rr];
    out[i].done = out[i].error.empty();
    std::filesystem::path o = cfg[i]->output_config().path();
    out[i].has_output = std::filesystem::exists(o);
    if (out[i].has_output) out[i].output = vh::ReadAll(o);
  }
  return out;
}
std::array<Party, 2> RunJob(const Job& j, const std::filesystem::path& dir, World* w) {
  World own;
  if (!w) { own = MakeWorld(); w = &own; }
  return RunConfigs(*w, ConfigOf(j, dir, 0), ConfigOf(j, dir, 1), j.receiver_rank);
}

bool HasResult(const Job& j, int side) {
  if (j.results >= 0) return (j.results >> side) & 1;
  return side == 0 || j.broadcast;
}

Want Expect(const Job& j, const std::set<Row>* cap) {
  Want w;
  std::map<Row, std::vector<size_t>> by[2];
  for (int i = 0; i < 2; ++i) {
    auto& s = j.side[i];
    for (size_t r = 0; r < s.tab.rows.size(); ++r) by[i][s.tab.Key(r, s.keys)].push_back(r);
    w.orig_rows[i] = s.tab.rows.size();
    w.orig_keys[i] = by[i].size();
  }
  for (auto& [k, v] : by[0]) {
    auto it = by[1].find(k);
    if (it == by[1].end() || (cap && !cap->count(k))) continue;
    w.inter_keys++;
    w.inter_rows[0] += v.size();
    w.inter_rows[1] += it->second.size();
    w.key_order.push_back(k);
  }
  using PC = v2::PsiConfig;
  auto type = j.join == PC::ADVANCED_JOIN_TYPE_UNSPECIFIED ? PC::ADVANCED_JOIN_TYPE_INNER_JOIN : j.join;
  for (int i = 0; i < 2; ++i) {
    auto& s = j.side[i];
    bool left = (i == 0 ? v2::ROLE_RECEIVER : v2::ROLE_SENDER) == j.left;
    bool inner = type != PC::ADVANCED_JOIN_TYPE_DIFFERENCE;
    bool own = type == PC::ADVANCED_JOIN_TYPE_FULL_JOIN || type == PC::ADVANCED_JOIN_TYPE_DIFFERENCE ||
               (type == PC::ADVANCED_JOIN_TYPE_LEFT_JOIN && left) || (type == PC::ADVANCED_JOIN_TYPE_RIGHT_JOIN && !left);
    bool na = type == PC::ADVANCED_JOIN_TYPE_FULL_JOIN || type == PC::ADVANCED_JOIN_TYPE_DIFFERENCE ||
              (type == PC::ADVANCED_JOIN_TYPE_LEFT_JOIN && !left) || (type == PC::ADVANCED_JOIN_TYPE_RIGHT_JOIN && left);
    for (auto& [k, v] : by[i]) {
      auto it = by[1 - i].find(k);
      for (size_t r : v) {
        if (it != by[1 - i].end() && !(cap && !cap->count(k))) {
          if (inner) for (size_t n = 0; n < it->second.size(); ++n) w.rows[i].push_back(s.tab.rows[r]);
        } else if (own) {
          w.rows[i].push_back(s.tab.rows[r]);
        }
      }
    }
    // The size of the peer's table is only exchanged when both get the result.
    if (na && (j.broadcast || j.ub)) {
      Row null(s.tab.cols.size(), j.side[0].null_rep.empty() ? "NULL" : j.side[0].null_rep);
      for (int64_t n = w.inter_rows[1 - i]; n < w.orig_rows[1 - i]; ++n) w.rows[i].push_back(null);
    }
  }
  return w;
}

void Judge(vh::Case& c, const Job& j, const Want& w, const std::array<Party, 2>& got, const std::string& pre) {
  const char* nm[2] = {"receiver", "sender"};
  using PC = v2::PsiConfig;
  bool inner = j.join == PC::ADVANCED_JOIN_TYPE_UNSPECIFIED || j.join == PC::ADVANCED_JOIN_TYPE_INNER_JOIN;
  for (int i = 0; i < 2; ++i) {
    auto& g = got[i];
    if (!c.check(g.done, pre + "run-failed", "{}: {} [{}]", nm[i], g.error.substr(0, 600), j.Text())) continue;
    auto& rp = g.report;
    c.check(rp.original_count() == w.orig_rows[i], pre + "report-original-count", "{} {} want {} [{}]", nm[i], rp.original_count(), w.orig_rows[i], j.Text());
    c.check(rp.original_key_count() == w.orig_keys[i], pre + "report-original-key-count", "{} {} want {} [{}]", nm[i], rp.original_key_count(), w.orig_keys[i], j.Text());
    if (!HasResult(j, i)) {
      c.check(j.ub ? rp.intersection_count() <= 0 : rp.intersection_count() == -1, pre + "sender-told-intersection", "{} [{}]", rp.intersection_count(), j.Text());
      c.check(rp.intersection_key_count() <= 0, pre + "sender-told-intersection-keys", "{} [{}]", rp.intersection_key_count(), j.Text());
      c.check(!g.has_output, pre + "sender-has-output", "{} bytes [{}]", g.output.size(), j.Text());
      c.event("parties without result");
      continue;
    }
    c.check(rp.intersection_count() == w.inter_rows[i], pre + "report-intersection-count", "{} {} want {} [{}]", nm[i], rp.intersection_count(), w.inter_rows[i], j.Text());
    c.check(rp.intersection_key_count() == w.inter_keys, pre + "report-intersection-key-count", "{} {} want {} [{}]", nm[i], rp.intersection_key_count(), w.inter_keys, j.Text());
    c.event("reports checked");
    if (!c.check(g.has_output, pre + "no-output", "{} [{}]", nm[i], j.Text())) continue;
    auto rows = ParseCsv(g.output);
    if (!c.check(!rows.empty(), pre + "empty-output", "{} [{}]", nm[i], j.Text())) continue;
    c.check(rows[0] == j.side[i].tab.cols, pre + "output-header", "{} {} want {} [{}]", nm[i], rows[0], j.side[i].tab.cols, j.Text());
    rows.erase(rows.begin());
    std::vector<Row> a = rows, b = w.rows[i];
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a != b) {
      std::vector<Row> miss, extra;
      std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(miss));
      std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(extra));
      std::string key = miss.empty() ? "output-extra-rows" : extra.empty() ? "output-missing-rows" : "output-wrong-rows";
      if (miss.size() > 3) miss.resize(3);
      if (extra.size() > 3) extra.resize(3);
      c.fail(pre + key, fmt::format("{}: {} rows want {}; missing {} extra {} [{}]", nm[i], a.size(), b.size(), miss, extra, j.Text()));
    }
    c.event("output rows compared", b.size());
    c.event("outputs compared");
  }
  if (inner && HasResult(j, 0) && HasResult(j, 1) && got[0].done && got[1].done && !j.side[0].disable_align && !j.side[1].disable_align && !c.failed()) {
    std::vector<Row> ks[2];
    for (int i = 0; i < 2; ++i) {
      auto rows = ParseCsv(got[i].output);
      for (size_t r = 1; r < rows.size(); ++r) {
        Row k;
        for (auto& n : j.side[i].keys) k.push_back(rows[r][j.side[i].tab.Col(n)]);
        ks[i].push_back(k);
      }
    }
    c.check(ks[0] == ks[1], pre + "not-aligned", "{} rows vs {} [{}]", ks[0].size(), ks[1].size(), j.Text());
    c.event("aligned outputs");
  }
}

void JudgeCapped(vh::Case& c, const Job& j, const std::array<Party, 2>& got, const std::filesystem::path count[2], const std::string& pre) {
  Want full = Expect(j);
  int64_t final_keys = std::min<int64_t>(full.inter_keys, j.threshold);
  using PC = v2::PsiConfig;
  auto type = j.join == PC::ADVANCED_JOIN_TYPE_UNSPECIFIED ? PC::ADVANCED_JOIN_TYPE_INNER_JOIN : j.join;
  for (int i = 0; i < 2; ++i) {
    if (!got[i].done || !HasResult(j, i)) continue;
    if (!c.check(std::filesystem::exists(count[i]), pre + "no-count-file", "side {} [{}]", i, j.Text())) continue;
    auto t = vh::ReadAll(count[i]);
    c.check(t == fmt::format("real_count,final_count\n{},{}\n", full.inter_keys, final_keys), pre + "count-file", "side {} says {} want {},{} [{}]", i, t, full.inter_keys, final_keys, j.Text());
    c.event("count files checked");
  }
  if (full.inter_keys <= j.threshold) {
    c.event("results within the threshold");
    if (full.inter_keys == j.threshold) c.event("results at the threshold");
    Judge(c, j, full, got, pre);
    return;
  }
  c.event("results above the threshold");
  std::set<Row> common(full.key_order.begin(), full.key_order.end());
  std::optional<std::set<Row>> cap;
  for (int i = 0; i < 2; ++i) {
    if (!got[i].done || !HasResult(j, i) || !got[i].has_output) continue;
    bool left = (i == 0 ? v2::ROLE_RECEIVER : v2::ROLE_SENDER) == j.left;
    bool own = type == PC::ADVANCED_JOIN_TYPE_FULL_JOIN || type == PC::ADVANCED_JOIN_TYPE_DIFFERENCE ||
               (type == PC::ADVANCED_JOIN_TYPE_LEFT_JOIN && left) || (type == PC::ADVANCED_JOIN_TYPE_RIGHT_JOIN && !left);
    auto& s = j.side[i];
    std::set<Row> mine;
    for (size_t r = 0; r < s.tab.rows.size(); ++r) mine.insert(s.tab.Key(r, s.keys));
    auto rows = ParseCsv(got[i].output);
    std::set<Row> seen;
    for (size_t r = 1; r < rows.size(); ++r) {
      if (rows[r].size() != s.tab.cols.size()) continue;
      Row k;
      for (auto& n : s.keys) k.push_back(rows[r][s.tab.Col(n)]);
      if (mine.count(k)) seen.insert(k);
    }
    if (type == PC::ADVANCED_JOIN_TYPE_DIFFERENCE) {
      // the keys left out are those counted as common
      std::set<Row> out;
      for (auto& k : mine) if (!seen.count(k)) out.insert(k);
      cap = out;
    } else if (!own) {
      cap = seen;
    }
  }
  if (!cap) {
    // every own row is in the output either way: the report tells
    for (int i = 0; i < 2; ++i)
      if (got[i].done && HasResult(j, i))
        c.check(got[i].report.intersection_key_count() == final_keys, pre + "cap-report", "side {} {} want {} [{}]", i, got[i].report.intersection_key_count(), final_keys, j.Text());
    c.event("capped by report only");
    return;
  }
  c.check((int64_t)cap->size() == final_keys, pre + "cap-size", "{} keys, threshold {} common {} [{}]", cap->size(), j.threshold, full.inter_keys, j.Text());
  for (auto& k : *cap) c.check(common.count(k), pre + "cap-not-common", "{} [{}]", k, j.Text());
  c.event("capped outputs compared");
  Judge(c, j, Expect(j, &*cap), got, pre);
}

void GenProtocol(vh::Rng& r, Job& j) {
  switch (r.below(4)) {
    case 0:
      j.proto = v2::PROTOCOL_KKRT;
      j.bucket = r.pick({0, 1, 7, 20, 50, 1000});
      break;
    case 1:
      j.proto = v2::PROTOCOL_RR22;
      j.bucket = r.pick({0, 1, 7, 20, 50, 1000});
      j.low_comm = r.chance(0.4);
      break;
    default:
      j.proto = v2::PROTOCOL_ECDH;
      j.curve = r.pick({CURVE_25519, CURVE_FOURQ, CURVE_SM2, CURVE_SECP256K1, CURVE_25519_ELLIGATOR2});
      j.batch = r.pick({0, 1, 3, 16, 64, 4096});
  }
}

namespace {
std::string KeyText(vh::Rng& r, int style) {
  switch (style) {
    case 0: return std::to_string(r.below(100000));
    case 1: return r.str(r.range(1, 12));
    case 2: return r.str(r.range(1, 3), "01");           // near-collisions of text
    case 3: { std::string s = r.str(r.range(30, 90)); return s; }
    case 4: return "k" + std::string(r.below(4), '0') + std::to_string(r.below(50));
    case 5: { // spaces, punctuation, UTF-8 inside
      static const std::vector<std::string> bits = {" ", "-", "_", ".", "@", "/", ":", ";", "|", "\xc3\xa9", "\xe4\xb8\xad", "A", "z", "0", "'", "\\", "$x", "%s", "`", "*"};
      std::string s = r.str(1);
      int n = r.range(0, 5);
      while (n--) s += r.pick(bits);
      return s + r.str(1);
    }
    default: return std::string(1, "-+"[r.below(2)]) + std::to_string(r.below(300)) + (r.chance(0.3) ? ".0" : "");
  }
}
}  // namespace

void GenTables(vh::Case& c, Job& j, const GenOpt& o) {
  auto& r = c.rng;
  auto size = [&]() -> size_t {
    switch (r.below(6)) {
      case 0: return r.range(1, 3);
      case 1: return o.max_rows;
      default: return r.range(1, o.max_rows);
    }
  };
  int nk = r.chance(0.65) ? 1 : r.range(2, 3);
  int style = o.odd_text ? r.below(7) : 1;
  // a common pool; each side draws some
  size_t n[2] = {size(), size()};
  if (r.chance(0.15)) n[1] = std::min<size_t>(3, n[1]);
  std::set<Row> pool_set;
  size_t want_pool = std::max(n[0], n[1]) * 2 + 2;
  for (size_t t = 0; t < want_pool * 20 && pool_set.size() < want_pool; ++t) {
    Row k;
    for (int i = 0; i < nk; ++i) k.push_back(i == 0 || r.chance(0.5) ? KeyText(r, style) : r.str(1, "abc"));
    pool_set.insert(k);
  }
  std::vector<Row> pool(pool_set.begin(), pool_set.end());
  r.shuffle(pool);
  int overlap = r.below(6);  // 0 disjoint, 1 identical, 2 subset, else random
  std::vector<Row> keys[2];
  for (int i = 0; i < 2; ++i) {
    n[i] = std::min(n[i], pool.size() / 2 ? pool.size() / 2 : 1);
    for (size_t k = 0; k < n[i]; ++k) {
      if (overlap == 0) keys[i].push_back(pool[i == 0 ? k : pool.size() - 1 - k]);
      else keys[i].push_back(pool[k]);
    }
    if (overlap >= 3) {
      std::vector<Row> p = pool;
      r.shuffle(p);
      p.resize(std::min(p.size(), n[i]));
      if (r.chance(0.5)) for (size_t k = 0; k < p.size() / 2; ++k) p[k] = pool[k];
      std::set<Row> u(p.begin(), p.end());
      keys[i].assign(u.begin(), u.end());
    }
  }
  if (overlap == 1) keys[1] = keys[0];
  bool dup_job = o.dups && r.chance(0.5);
  for (int i = 0; i < 2; ++i) {
    auto& s = j.side[i];
    s.unique = false;
    bool dup = dup_job && r.chance(0.75);
    if (dup) {
      size_t base = keys[i].size(), extra = r.range(1, std::max<size_t>(1, base));
      for (size_t k = 0; k < extra; ++k) keys[i].push_back(keys[i][r.chance(0.3) ? 0 : r.below(base)]);
    } else if (o.uniques && r.chance(0.35)) {
      s.unique = true;
    }
    r.shuffle(keys[i]);
    // columns: keys in any position among payload columns
    std::vector<std::string> names;
    s.keys.clear();
    for (int k = 0; k < nk; ++k) { s.keys.push_back(fmt::format("{}id{}", i ? "s" : "", k)); names.push_back(s.keys.back()); }
    int np = o.payload ? r.below(4) : 0;
    for (int k = 0; k < np; ++k) names.push_back(fmt::format("v{}", k));
    r.shuffle(names);
    s.tab = Tab();
    s.tab.cols = names;
    // The order of quoted text differs from that of the bare text where a
    // character sorts below the quote (a recorded finding).
    s.tab.quote = style != 5 && r.chance(0.15);
    s.tab.final_newline = !r.chance(0.15);
    size_t rowno = 0;
    for (auto& k : keys[i]) {
      Row row(names.size());
      for (size_t q = 0; q < names.size(); ++q) {
        auto it = std::find(s.keys.begin(), s.keys.end(), names[q]);
        if (it != s.keys.end()) row[q] = k[it - s.keys.begin()];
        else row[q] = r.chance(0.1) ? "" : r.chance(0.3) ? fmt::format("r{}", rowno) : r.str(r.range(1, 8), "abcXYZ 0123456789.-");
      }
      // a line with one empty column would be blank
      s.tab.rows.push_back(row);
      ++rowno;
    }
    if (names.size() > 1 && r.chance(0.15))
      for (int k = r.range(1, 3); k > 0; --k) s.tab.blank_after.push_back(r.below(s.tab.rows.size()));
    s.disable_align = r.chance(0.25);
  }
  if (o.joins && r.chance(0.6)) {
    using PC = v2::PsiConfig;
    j.join = r.pick({PC::ADVANCED_JOIN_TYPE_INNER_JOIN, PC::ADVANCED_JOIN_TYPE_LEFT_JOIN, PC::ADVANCED_JOIN_TYPE_RIGHT_JOIN, PC::ADVANCED_JOIN_TYPE_FULL_JOIN, PC::ADVANCED_JOIN_TYPE_DIFFERENCE});
    if (j.join != PC::ADVANCED_JOIN_TYPE_INNER_JOIN || r.chance(0.3)) j.left = r.chance(0.5) ? v2::ROLE_RECEIVER : v2::ROLE_SENDER;
    if (r.chance(0.4)) j.side[0].null_rep = r.pick({"NA", "null value", "-", "\xe2\x88\x85"});
  }
  j.broadcast = r.chance(0.6);
  j.receiver_rank = r.below(2);
  j.digest = r.chance(0.3);
}
}  // namespace vw
