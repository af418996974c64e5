// Key preparation, ordering, digests and result filtering on single tables.
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>

#include "world.h"

#include "psi/legacy/bucket_psi.h"
#include "psi/utils/csv_checker.h"
#include "psi/utils/index_store.h"
#include "psi/utils/key.h"
#include "psi/utils/table_utils.h"

namespace {
using namespace vw;
using psi::KeyInfo;

std::string Join(const Row& k) {
  std::string r;
  for (size_t i = 0; i < k.size(); ++i) { if (i) r += ','; r += k[i]; }
  return r;
}
Side MakeSide(vh::Case& c, bool dups, bool uniques, size_t max_rows = 80) {
  Job j;
  GenOpt o;
  o.dups = dups; o.uniques = uniques; o.joins = false; o.max_rows = max_rows;
  GenTables(c, j, o);
  return j.side[0];
}
std::string SideText(const Side& s) {
  return fmt::format("{} rows, cols {}, keys {}, {:x}", s.tab.rows.size(), s.tab.cols, s.keys, std::hash<std::string>()(s.tab.Text()) & 0xffffffff);
}
std::map<Row, std::vector<size_t>> ByKey(const Side& s) {
  std::map<Row, std::vector<size_t>> m;
  for (size_t r = 0; r < s.tab.rows.size(); ++r) m[s.tab.Key(r, s.keys)].push_back(r);
  return m;
}
std::shared_ptr<KeyInfo> Sorted(const std::filesystem::path& dir, const std::string& name, const Side& s) {
  auto in = dir / (name + ".csv");
  vh::WriteAll(in, s.tab.Text());
  auto st = psi::SortedTable::Make(psi::Table::MakeFromCsv(in), (dir / (name + ".sorted.csv")).string(), s.keys);
  return KeyInfo::Make(st, (dir / (name + ".keys.csv")).string());
}

void Keys(vh::Case& c) {
  auto s = MakeSide(c, true, true, c.rng.chance(0.1) ? 1500 : 80);
  c.describe(SideText(s));
  auto in = c.dir / "t.csv";
  vh::WriteAll(in, s.tab.Text());
  auto by = ByKey(s);
  bool uniq = s.unique && by.size() == s.tab.rows.size();
  std::shared_ptr<KeyInfo> ki;
  std::vector<Row> order;  // expected rows of the backing file
  auto list = psi::Table::MakeFromCsv(in);
  c.check(list->Columns() == s.tab.cols, "columns", "{} want {}", list->Columns(), s.tab.cols);
  std::vector<std::pair<Row, uint32_t>> want;  // key, extra copies
  if (uniq) {
    ki = KeyInfo::Make(psi::UniqueKeyTable::Make(in, "csv", s.keys));
    for (size_t r = 0; r < s.tab.rows.size(); ++r) { want.push_back({s.tab.Key(r, s.keys), 0}); order.push_back(s.tab.rows[r]); }
  } else {
    ki = Sorted(c.dir, "t", s);
    for (auto& [k, v] : by) { want.push_back({k, v.size() - 1}); for (auto r : v) order.push_back(s.tab.rows[r]); }
  }
  c.check(ki->OriginCnt() == s.tab.rows.size(), "original-count", "{} want {}", ki->OriginCnt(), s.tab.rows.size());
  c.check(ki->KeyCnt() == by.size(), "key-count", "{} want {}", ki->KeyCnt(), by.size());
  size_t dupk = 0;
  for (auto& w : want) dupk += w.second > 0;
  c.check(ki->DupKeyCnt() == dupk, "dup-key-count", "{} want {}", ki->DupKeyCnt(), dupk);
  // all three readers of the key table
  size_t bs = c.rng.pick({1, 2, 5, 64, 65536});
  auto p1 = ki->GetBatchProvider(bs);
  std::vector<std::pair<std::string, uint32_t>> got;
  std::vector<uint32_t> starts;
  while (true) {
    auto b = p1->ReadBatchWithInfo();
    if (b.keys.empty()) break;
    c.check(b.keys.size() <= bs, "batch-too-large", "{} > {}", b.keys.size(), bs);
    for (size_t i = 0; i < b.keys.size(); ++i) { got.push_back({b.keys[i], b.dup_cnts[i]}); starts.push_back(b.start_indexes[i]); }
  }
  c.check(got.size() == want.size(), "key-list-size", "{} want {}", got.size(), want.size());
  // keys in the declared order; the sorted variant orders each column bytewise
  uint32_t at = 0;
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    if (!c.check(got[i].first == Join(want[i].first) && got[i].second == want[i].second, "key-list", "#{} {}x{} want {}x{}", i, got[i].first, got[i].second, want[i].first, want[i].second)) break;
    c.check(starts[i] == at, "start-index", "#{} {} want {}", i, starts[i], at);
    at += want[i].second + 1;
  }
  auto p2 = ki->GetKeysProviderWithDupCnt(bs);
  size_t pos = 0;
  while (true) {
    auto [keys, dups] = p2->ReadNextBatchWithDupCnt();
    if (keys.empty()) break;
    for (size_t i = 0; i < keys.size() && pos < want.size(); ++i, ++pos) {
      uint32_t d = dups.count(i) ? dups.at(i) : 0;
      c.check(keys[i] == Join(want[pos].first) && d == want[pos].second, "dup-provider", "#{} {}x{} want {}x{}", pos, keys[i], d, want[pos].first, want[pos].second);
    }
  }
  c.check(pos == want.size(), "dup-provider-size", "{} want {}", pos, want.size());
  c.event("keys read back", got.size());
  if (c.failed()) return;
  // a random subset matches, with random peer multiplicities
  double p = c.rng.pick({0.0, 0.1, 0.5, 0.9, 1.0});
  std::vector<std::pair<size_t, uint32_t>> sel;
  for (size_t i = 0; i < want.size(); ++i) if (c.rng.chance(p)) sel.push_back({i, c.rng.chance(0.3) ? c.rng.range(1, 4) : 0});
  std::unique_ptr<psi::IndexReader> reader;
  auto idx = c.dir / "idx.csv";
  {
    psi::IndexWriter w(idx, c.rng.pick({1, 3, 1000}), true);
    for (auto& x : sel) w.WriteCache(x.first, x.second);
    w.Commit();
    w.Close();
  }
  psi::FileIndexReader fr(idx);
  auto ip = (c.dir / "inter.csv").string(), ep = (c.dir / "except.csv").string();
  bool no_i = c.rng.chance(0.1), no_e = c.rng.chance(0.3);
  psi::ResultDumper d(no_i ? "" : ip, no_e ? "" : ep);
  auto st = ki->ApplyPeerDupCnt(fr, d);
  d.Flush();
  std::vector<Row> wi, we;
  uint32_t self = 0, peer = 0;
  size_t k = 0, row = 0;
  for (size_t i = 0; i < want.size(); ++i) {
    bool hit = k < sel.size() && sel[k].first == i;
    for (uint32_t n = 0; n <= want[i].second; ++n, ++row) {
      if (hit) for (uint32_t m = 0; m <= sel[k].second; ++m) wi.push_back(order[row]);
      else we.push_back(order[row]);
    }
    if (hit) { self += want[i].second + 1; peer += sel[k].second + 1; ++k; }
  }
  auto cmp = [&](const std::string& f, std::vector<Row> w, const char* key) {
    auto rows = ParseCsv(vh::ReadAll(f));
    if (!rows.empty()) { c.check(rows[0] == s.tab.cols, "dump-header", "{}", rows[0]); rows.erase(rows.begin()); }
    // rows with equal keys keep no particular order
    std::sort(rows.begin(), rows.end());
    std::sort(w.begin(), w.end());
    c.check(rows == w, key, "{} rows want {}", rows.size(), w.size());
  };
  if (!no_i) cmp(ip, wi, "intersect-rows");
  if (!no_e) cmp(ep, we, "except-rows");
  c.check(st.self_intersection_count == self, "stat-self", "{} want {}", st.self_intersection_count, self);
  c.check(st.peer_intersection_count == peer, "stat-peer", "{} want {}", st.peer_intersection_count, peer);
  c.check(st.original_count == s.tab.rows.size(), "stat-original", "{} want {}", st.original_count, s.tab.rows.size());
  c.check(st.inter_unique_cnt == sel.size(), "stat-unique", "{} want {}", st.inter_unique_cnt, sel.size());
  c.check(st.join_intersection_count == wi.size(), "stat-join", "{} want {}", st.join_intersection_count, wi.size());
  c.event("rows filtered", row);
}

Side OneCol(const std::vector<std::string>& keys) {
  Side s;
  s.tab.cols = {"id", "v"};
  s.keys = {"id"};
  for (size_t i = 0; i < keys.size(); ++i) s.tab.rows.push_back({keys[i], fmt::format("{}", i)});
  return s;
}
void Digest(vh::Case& c) {
  auto& r = c.rng;
  // two key sets whose texts are easily confused
  std::string text = r.str(r.range(2, 14), r.chance(0.5) ? "01" : "ab");
  auto split = [&](size_t n) {
    std::set<size_t> cut;
    for (size_t i = 0; i + 1 < n; ++i) cut.insert(r.range(1, text.size() - 1));
    cut.insert(text.size());
    std::vector<std::string> p;
    size_t b = 0;
    for (auto e : cut) { p.push_back(text.substr(b, e - b)); b = e; }
    return p;
  };
  std::vector<std::string> a, b;
  switch (r.below(5)) {
    case 0: a = split(r.range(1, 4)); b = split(r.range(1, 4)); break;
    case 1: a = split(r.range(2, 4)); b = a; r.shuffle(b); break;             // same set, other order
    case 2: a = split(r.range(2, 4)); b = a; b.push_back(b[0]); break;         // same set, a duplicate
    case 3: for (int i = 0; i < 6; ++i) a.push_back(r.str(3, "xyz")); b = a; b[r.below(6)] += "x"; break;
    default: { // a length prefix must not be forgeable either
      std::string k = r.str(r.range(1, 3), "ab"), l = r.str(r.range(1, 3), "ab");
      a = {k, l};
      std::string sep = r.pick({":", "_", " ", ";", "#"});
      b = r.chance(0.5) ? std::vector<std::string>{k + std::to_string(l.size()) + sep + l} : std::vector<std::string>{k + sep + l};
    }
  }
  std::set<std::string> sa(a.begin(), a.end()), sb(b.begin(), b.end());
  c.describe(fmt::format("{} / {}", a, b));
  auto A = OneCol(a), B = OneCol(b);
  if (r.chance(0.5)) B.tab.cols = {"v", "id"}, std::for_each(B.tab.rows.begin(), B.tab.rows.end(), [](Row& x) { std::swap(x[0], x[1]); });
  auto ka = Sorted(c.dir, "a", A), kb = Sorted(c.dir, "b", B);
  bool eq = ka->KeysHash() == kb->KeysHash();
  c.check(eq || sa != sb, "same-keys-different-digest", "{} / {}", a, b);
  c.check(!eq || sa == sb, "different-keys-same-digest", "{} / {}", a, b);
  c.event(sa == sb ? "equal key sets compared" : "different key sets compared");
  // declared unique: in file order
  if (sa.size() == a.size() && sb.size() == b.size()) {
    vh::WriteAll(c.dir / "ua.csv", A.tab.Text());
    vh::WriteAll(c.dir / "ub.csv", B.tab.Text());
    auto ua = KeyInfo::Make(psi::UniqueKeyTable::Make(c.dir / "ua.csv", "csv", {"id"}));
    auto ub = KeyInfo::Make(psi::UniqueKeyTable::Make(c.dir / "ub.csv", "csv", {"id"}));
    c.check(ua->KeysHash() != ub->KeysHash() || sa == sb, "unique-different-keys-same-digest", "{} / {}", a, b);
    c.check(ua->KeysHash() == ub->KeysHash() || a != b, "unique-same-keys-different-digest", "{} / {}", a, b);
    c.check(ua->KeysHash() != kb->KeysHash() || sa == sb, "mixed-different-keys-same-digest", "{} / {}", a, b);
  }
  // older checker
  vh::WriteAll(c.dir / "a.csv", A.tab.Text());
  vh::WriteAll(c.dir / "b.csv", B.tab.Text());
  psi::CsvChecker ca(c.dir / "a.csv", {"id"}, true), cb(c.dir / "b.csv", {"id"}, true);
  c.check(ca.data_count() == a.size() && cb.data_count() == b.size(), "checker-count", "{} {} want {} {}", ca.data_count(), cb.data_count(), a.size(), b.size());
  c.check((ca.hash_digest() == cb.hash_digest()) == (a == b), "checker-digest", "{} / {} equal={}", a, b, ca.hash_digest() == cb.hash_digest());
}

void Checker(vh::Case& c) {
  auto s = MakeSide(c, true, false);
  s.tab.blank_after.clear();
  s.tab.quote = false;  // the reader takes text as it stands
  bool dup = ByKey(s).size() != s.tab.rows.size();
  int bad = c.rng.below(6);  // 0 BOM, 1 empty key, 2 missing column
  auto keys = s.keys;
  std::string pre;
  if (bad == 0) pre = "\xEF\xBB\xBF";
  if (bad == 1) {
    s.tab.rows[c.rng.below(s.tab.rows.size())][s.tab.Col(c.rng.pick(keys))] = "";
    if (s.tab.cols.size() == 1) bad = 9;  // would be a blank line
  }
  if (bad == 2) keys[0] = "absent";
  bool skip = c.rng.chance(0.4);
  c.describe(fmt::format("{} bad={} skip={} dup={}", SideText(s), bad, skip, dup));
  if (bad == 9) { c.trivial(); return; }
  if (bad == 1) dup = ByKey(s).size() != s.tab.rows.size();
  auto in = c.dir / "t.csv";
  vh::WriteAll(in, pre + s.tab.Text());
  auto before = vh::ListDir(c.dir.parent_path());
  auto cwd = vh::ListDir(".");
  std::unique_ptr<psi::CsvChecker> ck;
  auto e = vh::Thrown([&] { ck = std::make_unique<psi::CsvChecker>(in, keys, skip); });
  bool refuse = bad <= 2 || (dup && !skip);
  c.check(e.empty() != refuse, refuse ? "checker-accepted" : "checker-refused", "bad={} dup={} skip={} said '{}'", bad, dup, skip, e.substr(0, 200));
  if (ck && !refuse) {
    c.check(ck->data_count() == s.tab.rows.size(), "checker-count", "{} want {}", ck->data_count(), s.tab.rows.size());
    psi::CsvChecker again(in, keys, true);
    c.check(again.hash_digest() == ck->hash_digest(), "checker-digest-unstable", "{} {}", again.hash_digest(), ck->hash_digest());
  }
  c.check(vh::ListDir(".") == cwd, "checker-left-files", "in the working directory");
  c.check(vh::ReadAll(in) == pre + s.tab.Text(), "input-changed", "by the checker");
  c.event(refuse ? "inputs refused" : "inputs accepted");
}

void Sort(vh::Case& c) {
  auto s = MakeSide(c, true, false, c.rng.chance(0.1) ? 2000 : 60);
  auto keys = s.keys;
  if (c.rng.chance(0.3)) { keys = s.tab.cols; c.rng.shuffle(keys); keys.resize(c.rng.range(1, keys.size())); }
  std::reverse(keys.begin(), keys.begin() + (c.rng.chance(0.3) ? keys.size() : 0));
  s.tab.quote = false;
  s.tab.blank_after.clear();
  bool numeric = c.rng.chance(0.25), unique = c.rng.chance(0.25);
  if (numeric) for (auto& row : s.tab.rows) for (auto& k : keys) row[s.tab.Col(k)] = std::to_string(c.rng.below(c.rng.chance(0.5) ? 20 : 1u << 30));
  if (s.tab.cols.size() == 1) for (auto& row : s.tab.rows) if (row[0].empty()) row[0] = "e";
  static const std::vector<std::string> names = {"t", "with space", "it's", "a;b", "$x", "p(1)", "a&b", "q\"q", "*", "back`tick"};
  auto n1 = c.rng.pick(names), n2 = c.rng.pick(names);
  c.describe(fmt::format("{} by {}{}{} {} -> {}", SideText(s), keys, numeric ? " numeric" : "", unique ? " unique" : "", n1, n2));
  auto in = (c.dir / (n1 + ".csv")).string(), out = (c.dir / (n2 + ".out.csv")).string();
  vh::WriteAll(in, s.tab.Text());
  psi::MultiKeySort(in, out, keys, numeric, unique);
  auto got = ParseCsv(vh::ReadAll(out));
  if (!c.check(!got.empty() && got[0] == s.tab.cols, "sort-header", "{}", got.empty() ? Row{} : got[0])) return;
  got.erase(got.begin());
  auto want = s.tab.rows;
  std::stable_sort(want.begin(), want.end(), [&](const Row& a, const Row& b) {
    for (auto& k : keys) {
      auto& x = a[s.tab.Col(k)];
      auto& y = b[s.tab.Col(k)];
      if (numeric) { auto m = std::stoull(x), n = std::stoull(y); if (m != n) return m < n; }
      else if (x != y) return x < y;
    }
    return false;
  });
  if (unique) want.erase(std::unique(want.begin(), want.end()), want.end());
  c.check(got == want, "sort-order", "{} rows want {}; keys {}", got.size(), want.size(), keys);
  c.event("rows sorted", want.size());
}

// A key table prepared again after the input or the choice of key columns
// changed must describe the new data.
void Again(vh::Case& c) {
  auto& r = c.rng;
  size_t n = r.range(2, 20);
  Side s;
  s.tab.cols = {"id", "alt", "v"};
  for (size_t i = 0; i < n; ++i) s.tab.rows.push_back({fmt::format("a{:04}", i * 7 + r.below(7)), fmt::format("b{:04}", i * 9 + r.below(9)), r.str(4)});
  auto in = c.dir / "t.csv";
  vh::WriteAll(in, s.tab.Text());
  std::string how;
  auto make = [&](const Row& keys) { return KeyInfo::Make(psi::UniqueKeyTable::Make(in, "csv", keys)); };
  auto fresh = [&](const Row& keys) {
    auto f = c.dir / "fresh.csv";
    std::filesystem::remove(c.dir / "fresh.csv.meta");
    vh::WriteAll(f, vh::ReadAll(in));
    return KeyInfo::Make(psi::UniqueKeyTable::Make(f, "csv", keys))->KeysHash();
  };
  Row k1{"id"};
  auto h1 = make(k1);
  c.check(make(k1)->KeysHash() == h1->KeysHash(), "digest-unstable", "same input, same keys");
  Row k2 = k1;
  switch (r.below(4)) {
    case 0: how = "other key column"; k2 = {"alt"}; break;
    case 1: how = "more key columns"; k2 = {"id", "alt"}; break;
    default:
      how = "input of the same size";
      usleep(20000);
      s.tab.rows[r.below(n)][0] = fmt::format("z{:04}", r.below(9999));
      vh::WriteAll(in, s.tab.Text());
  }
  c.describe(fmt::format("{} rows, {} {:x}", n, how, std::hash<std::string>()(s.tab.Text())));
  auto h2 = make(k2);
  c.check(h2->KeysHash() == fresh(k2), "stale-digest", "{}", how);
  c.check(h2->OriginCnt() == n && h2->KeyCnt() == n, "stale-count", "{} {} want {}", h2->OriginCnt(), h2->KeyCnt(), n);
  c.event("second preparations compared");
}

void Filter(vh::Case& c) {
  auto s = MakeSide(c, true, false);
  auto in = (c.dir / "in.csv").string(), out = (c.dir / "out.csv").string();
  vh::WriteAll(in, s.tab.Text());
  double p = c.rng.pick({0.0, 0.2, 0.7, 1.0});
  std::vector<uint64_t> idx;
  for (size_t i = 0; i < s.tab.rows.size(); ++i) if (c.rng.chance(p)) idx.push_back(i);
  bool diff = c.rng.chance(0.4), file = c.rng.chance(0.5);
  c.describe(fmt::format("{} select {} {}{}", SideText(s), idx.size(), diff ? "difference " : "", file ? "file" : "memory"));
  size_t n;
  if (file) {
    auto ip = c.dir / "idx.csv";
    { psi::IndexWriter w(ip, 10, true); for (auto i : idx) w.WriteCache(i); w.Commit(); w.Close(); }
    n = psi::FilterFileByIndices(in, out, ip, diff);
  } else {
    n = psi::FilterFileByIndices(in, out, idx, diff);
  }
  c.check(n == idx.size(), "filter-count", "{} want {}", n, idx.size());
  std::vector<Row> want{s.tab.cols};
  std::set<uint64_t> set(idx.begin(), idx.end());
  for (size_t i = 0; i < s.tab.rows.size(); ++i) if (set.count(i) != diff) want.push_back(s.tab.rows[i]);
  c.check(ParseCsv(vh::ReadAll(out)) == want, "filter-rows", "{} want {} rows", ParseCsv(vh::ReadAll(out)).size(), want.size());
  c.event("rows selected", want.size() - 1);
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"keys", Keys}, {"digest", Digest}, {"checker", Checker}, {"sort", Sort}, {"again", Again}, {"filter", Filter}});
}
