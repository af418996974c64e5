// The older list and file interfaces with two or three (or more) parties.
#include "psi/legacy/bucket_psi.h"
#include "psi/legacy/memory_psi.h"
#include "world.h"

namespace {
using namespace vw;
namespace fs = std::filesystem;
using Items = std::vector<std::string>;

uint64_t HashRows(uint64_t h, const std::vector<Row>& rows) {
  for (auto& r : rows) for (auto& f : r) h = vh::Mix(h ^ std::hash<std::string>()(f));
  return h;
}
struct Setting { psi::PsiType type; size_t n; size_t receiver; bool broadcast; int curve; };
Setting GenSetting(vh::Rng& r) {
  Setting s;
  s.type = r.pick({psi::KKRT_PSI_2PC, psi::KKRT_PSI_2PC, psi::ECDH_PSI_3PC, psi::ECDH_PSI_NPC, psi::KKRT_PSI_NPC});
  s.n = s.type == psi::KKRT_PSI_2PC ? 2 : s.type == psi::ECDH_PSI_3PC ? 3 : r.pick({2, 2, 3, 4});
  s.receiver = r.below(s.n);
  s.broadcast = r.chance(0.5);
  s.curve = r.chance(0.5) ? 0 : r.pick({1, 2, 3, 4, 5});
  return s;
}
std::string Text(const Setting& s) {
  return fmt::format("{} n={} receiver={} broadcast={} curve={}", psi::PsiType_Name(s.type), s.n, s.receiver, s.broadcast, s.curve);
}

// Lists of byte strings; every length including none, every byte.
void Lists(vh::Case& c) {
  auto& r = c.rng;
  auto s = GenSetting(r);
  size_t uni = r.chance(0.1) ? 800 : 1 + r.below(40);
  std::set<std::string> all;
  static const std::string kEdge("\0\n\r,\"'\x7f\x80\xff a", 12);
  while (all.size() < uni) {
    switch (r.below(5)) {
      case 0: all.insert(r.bytes(r.below(4))); break;
      case 1: all.insert(r.bytes(r.below(100))); break;
      case 2: all.insert(r.str(r.below(10), kEdge)); break;
      case 3: all.insert(std::string(r.below(60), '\0')); break;
      default: all.insert(std::to_string(r.below(uni * 4)));
    }
  }
  Items u(all.begin(), all.end());
  std::vector<Items> in(s.n);
  double keep = r.pick({1.0, 0.9, 0.5, 0.1});
  for (size_t p = 0; p < s.n; ++p) {
    r.shuffle(u);
    for (auto& x : u) if (r.chance(p ? keep : std::max(keep, 0.3))) in[p].push_back(x);
  }
  uint64_t h = 1;
  std::string sizes;
  std::set<std::string> want(in[0].begin(), in[0].end());
  for (auto& l : in) {
    h = HashRows(h, {l}); sizes += "/" + std::to_string(l.size());
    std::set<std::string> t(l.begin(), l.end()), n;
    std::set_intersection(want.begin(), want.end(), t.begin(), t.end(), std::inserter(n, n.end()));
    want.swap(n);
  }
  c.describe(fmt::format("lists {} sizes={} {:x}", Text(s), sizes.substr(1), h));
  psi::MemoryPsiConfig cfg;
  cfg.set_psi_type(s.type);
  cfg.set_receiver_rank(s.receiver);
  cfg.set_broadcast_result(s.broadcast);
  if (s.curve) cfg.set_curve_type(psi::CurveType(s.curve));
  auto w = MakeWorld(s.n);
  std::vector<Items> got(s.n);
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(s.n);
  size_t runs = r.pick({1, 1, 2});  // one object, used again
  for (size_t p = 0; p < s.n; ++p) f[p] = [&, p](auto& l) {
    psi::MemoryPsi mp(cfg, l);
    for (size_t k = 0; k < runs; ++k) got[p] = mp.Run(in[p]);
  };
  auto err = RunRanks(w, f);
  auto name = psi::PsiType_Name(s.type);
  for (size_t p = 0; p < s.n; ++p) {
    if (!err[p].empty()) { c.fail(name + (vh::Stalled(err[p]) ? ":stalled" : ":error"), fmt::format("party {}: {} [{}]", p, err[p].substr(0, 300), c.desc)); continue; }
    if (!s.broadcast && p != s.receiver) {
      c.check(got[p].empty(), name + ":result-not-entitled", "party {} got {} items [{}]", p, got[p].size(), c.desc);
      c.event("parties without result");
      continue;
    }
    std::multiset<std::string> g(got[p].begin(), got[p].end()), e(want.begin(), want.end());
    c.event("results compared");
    c.event("common items", e.size());
    c.check(g == e, name + ":wrong-items", "party {}: want {} items, got {} [{}]", p, e.size(), g.size(), c.desc);
  }
}

// Files.
void Files(vh::Case& c) {
  auto& r = c.rng;
  auto s = GenSetting(r);
  size_t nk = r.pick({1, 1, 1, 2, 3});
  size_t uni = r.chance(0.06) ? 400 : 1 + r.below(40);
  std::set<Row> all;
  auto word = [&]() -> std::string {
    switch (r.below(4)) {
      case 0: return std::to_string(1 + r.below(uni * 3));
      case 1: return r.str(r.range(1, 12));
      case 2: return "y" + r.str(r.range(1, 5), "abAB01_-. ") + "x";  // inner blanks only, the table reader may strip others
      default: return "键" + std::to_string(r.below(uni * 3));
    }
  };
  while (all.size() < uni) { Row k; for (size_t i = 0; i < nk; ++i) k.push_back(word()); all.insert(k); }
  std::vector<Row> u(all.begin(), all.end());
  double keep = r.pick({1.0, 0.9, 0.5, 0.1});
  bool same_order = keep == 1.0 && r.chance(0.5);
  bool dup = r.chance(0.12);
  size_t dup_party = r.below(s.n);
  struct In { Tab t; Row keys; bool precheck, sort; std::set<Row> set; };
  std::vector<In> in(s.n);
  uint64_t h = nk;
  uint32_t bucket = r.pick({0u, 1u, 3u, 10u, 64u, 1000u});
  if (uni > 100 && bucket && bucket < 10) bucket = 10;
  std::string shape;
  for (size_t p = 0; p < s.n; ++p) {
    auto& x = in[p];
    for (size_t i = 0; i < nk; ++i) x.keys.push_back("k" + std::to_string(i) + (r.chance(0.5) ? "" : "_" + std::to_string(p)));
    x.t.cols = x.keys;
    size_t extra = r.below(3);
    for (size_t i = 0; i < extra; ++i) x.t.cols.push_back("v" + std::to_string(i));
    if (r.chance(0.4)) r.shuffle(x.t.cols);
    if (!same_order) r.shuffle(u);
    for (auto& k : u) {
      if (!r.chance(keep) && !(x.set.empty() && &k == &u.back())) continue;
      Row row;
      for (auto& col : x.t.cols) {
        auto it = std::find(x.keys.begin(), x.keys.end(), col);
        row.push_back(it != x.keys.end() ? k[it - x.keys.begin()] : std::to_string(r.below(1000)));
      }
      x.t.rows.push_back(row);
      x.set.insert(k);
    }
    x.precheck = r.chance(0.6);
    x.sort = r.chance(0.5);
    x.t.final_newline = r.chance(0.85);
    if (dup && p == dup_party) {
      x.precheck = true;
      x.t.rows.insert(x.t.rows.begin() + r.below(x.t.rows.size() + 1), Row(r.pick(x.t.rows)));
    }
    h = HashRows(h, x.t.rows);
    shape += fmt::format(" {}rows/{}{}", x.t.rows.size(), x.precheck ? "P" : "-", x.sort ? "S" : "-");
  }
  c.describe(fmt::format("files {} bucket={} keys={} dup={}{} {:x}", Text(s), bucket, nk, dup, shape, h));
  auto w = MakeWorld(s.n);
  std::vector<psi::PsiResultReport> rep(s.n);
  std::vector<std::vector<double>> prog(s.n);
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(s.n);
  std::vector<fs::path> out(s.n);
  bool progress = r.chance(0.5);
  for (size_t p = 0; p < s.n; ++p) {
    auto d = c.dir / ("p" + std::to_string(p));
    fs::create_directories(d);
    vh::WriteAll(d / "in.csv", in[p].t.Text());
    out[p] = d / "out" / "result.csv";
    psi::BucketPsiConfig cfg;
    cfg.set_psi_type(s.type);
    cfg.set_receiver_rank(s.receiver);
    cfg.set_broadcast_result(s.broadcast);
    if (s.curve) cfg.set_curve_type(psi::CurveType(s.curve));
    cfg.set_bucket_size(bucket);
    cfg.mutable_input_params()->set_path(d / "in.csv");
    for (auto& k : in[p].keys) cfg.mutable_input_params()->add_select_fields(k);
    cfg.mutable_input_params()->set_precheck(in[p].precheck);
    cfg.mutable_output_params()->set_path(out[p]);
    cfg.mutable_output_params()->set_need_sort(in[p].sort);
    f[p] = [&, p, cfg](auto& l) {
      psi::BucketPsi b(cfg, l);
      if (progress) rep[p] = b.Run([&, p](const psi::Progress::Data& d) { prog[p].push_back(d.percentage); }, 1);
      else rep[p] = b.Run();
    };
  }
  auto err = RunRanks(w, f);
  auto name = psi::PsiType_Name(s.type);
  if (dup) {
    for (size_t p = 0; p < s.n; ++p) {
      c.check(!err[p].empty(), name + ":repeated-keys-accepted", "party {} finished [{}]", p, c.desc);
      c.check(!fs::exists(out[p]), name + ":output-after-refusal", "party {} [{}]", p, c.desc);
    }
    c.event("repeated keys refused");
    return;
  }
  std::set<Row> want = in[0].set;
  bool equal = true;
  for (auto& x : in) {
    std::set<Row> n;
    std::set_intersection(want.begin(), want.end(), x.set.begin(), x.set.end(), std::inserter(n, n.end()));
    want.swap(n);
    if (x.t.rows.size() != in[0].t.rows.size()) { equal = false; continue; }
    for (size_t i = 0; i < x.t.rows.size() && equal; ++i) equal = x.t.Key(i, x.keys) == in[0].t.Key(i, in[0].keys);
  }
  for (size_t p = 0; p < s.n; ++p) {
    auto& x = in[p];
    if (!err[p].empty()) { c.fail(name + (vh::Stalled(err[p]) ? ":stalled" : ":error"), fmt::format("party {}: {} [{}]", p, err[p].substr(0, 300), c.desc)); continue; }
    bool ent = s.broadcast || p == s.receiver;
    c.check(rep[p].original_count() == int64_t(x.t.rows.size()), name + ":original-count", "party {}: {} for {} rows [{}]", p, rep[p].original_count(), x.t.rows.size(), c.desc);
    c.check(rep[p].intersection_count() == (ent ? int64_t(want.size()) : -1), name + ":intersection-count", "party {}: {} want {} [{}]", p, rep[p].intersection_count(), ent ? int64_t(want.size()) : -1, c.desc);
    c.event("reports checked");
    for (size_t i = 0; i < prog[p].size(); ++i) c.check(prog[p][i] <= 100 && (!i || prog[p][i] >= prog[p][i - 1]), name + ":progress", "party {}: {} [{}]", p, prog[p][i], c.desc);
    if (progress) { c.check(!prog[p].empty() && prog[p].back() == 100, name + ":progress-end", "party {} [{}]", p, c.desc); c.event("progress readings", prog[p].size()); }
    std::set<std::string> left;
    if (fs::exists(out[p].parent_path())) left = vh::ListDir(out[p].parent_path());
    left.erase("result.csv");
    c.check(left.empty(), name + ":leftover-files", "party {}: {} [{}]", p, left.empty() ? "" : *left.begin(), c.desc);
    if (!ent) {
      c.check(!fs::exists(out[p]), name + ":result-not-entitled", "party {} [{}]", p, c.desc);
      c.event("parties without result");
      continue;
    }
    if (!c.check(fs::exists(out[p]), name + ":no-output", "party {} [{}]", p, c.desc)) continue;
    auto got = ParseCsv(vh::ReadAll(out[p]));
    std::vector<Row> exp{x.t.cols};
    for (size_t i = 0; i < x.t.rows.size(); ++i) if (want.count(x.t.Key(i, x.keys))) exp.push_back(x.t.rows[i]);
    c.event("outputs compared");
    c.event("output rows", exp.size() - 1);
    if (x.sort && !equal) {
      std::sort(exp.begin() + 1, exp.end(), [&](const Row& a, const Row& b) {
        Tab t; t.cols = x.t.cols; t.rows = {a, b};
        return t.Key(0, x.keys) < t.Key(1, x.keys);
      });
      c.event("sorted outputs");
    }
    if (equal) c.event("equal inputs");
    if (got == exp) continue;
    std::multiset<Row> g(got.begin(), got.end()), e(exp.begin(), exp.end());
    c.fail(name + (g == e ? ":order" : ":wrong-rows"), fmt::format("party {}: want {} rows, got {} [{}]", p, exp.size(), got.size(), c.desc));
  }
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"lists", Lists}, {"files", Files}});
}
