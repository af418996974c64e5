// Keyed retrieval: table conversion, bucketing and result files against the
// rows they were made from.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <csignal>
#include <fstream>
#include <functional>

#include "apsi/sender_db.h"
#include "fmt/format.h"
#include "psi/utils/csv_converter.h"
#include "psi/wrapper/apsi/utils/common.h"
#include "psi/wrapper/apsi/utils/csv_reader.h"
#include "psi/wrapper/apsi/utils/group_db.h"
#include "vh.h"

namespace psi::apsi_wrapper {
// sender_db.cc needs APSI itself; its streams are replaced by plain text.
bool TrySaveSenderDB(std::ostream& os, std::shared_ptr<::apsi::sender::SenderDB> db, const ::apsi::oprf::OPRFKey& key) {
  os << key.id << ' ' << db->labeled << ' ' << db->nonce << ' ' << db->compress << ' ' << db->label_bytes << ' ' << db->data.size() << '\n';
  for (auto& [k, v] : db->data) os << k << ' ' << v.size() << ' ' << v << '\n';
  return os.good();
}
std::shared_ptr<::apsi::sender::SenderDB> TryLoadSenderDB(std::istream& in, ::apsi::oprf::OPRFKey& key) {
  size_t n = 0, nonce = 0, lb = 0;
  bool labeled = false, comp = false;
  in >> key.id >> labeled >> nonce >> comp >> lb >> n;
  auto db = std::make_shared<::apsi::sender::SenderDB>(::apsi::PSIParams(), lb, nonce, comp);
  db->labeled = labeled;
  for (size_t i = 0; i < n && in; ++i) {
    std::string k;
    size_t len = 0;
    in >> k >> len;
    in.get();
    if (len > (1u << 24)) return nullptr;
    std::string v(len, 0);
    in.read(v.data(), len);
    db->data[k] = v;
  }
  return in ? db : nullptr;
}
}  // namespace psi::apsi_wrapper

namespace {
using Row = std::vector<std::string>;
using Table = std::vector<Row>;  // first row: column names

// RFC 4180 reading, written from its text
Table ReadCsv(const std::string& text) {
  Table t;
  Row row;
  std::string f;
  bool quoted = false, any = false;
  for (size_t i = 0; i < text.size(); ++i) {
    char ch = text[i];
    if (quoted) {
      if (ch == '"' && i + 1 < text.size() && text[i + 1] == '"') { f += '"'; ++i; }
      else if (ch == '"') quoted = false;
      else f += ch;
    } else if (ch == '"' && f.empty()) { quoted = true; any = true; }
    else if (ch == ',') { row.push_back(f); f.clear(); any = true; }
    else if (ch == '\n') { if (any || !f.empty()) { row.push_back(f); t.push_back(row); } row.clear(); f.clear(); any = false; }
    else { f += ch; any = true; }
  }
  if (any || !f.empty()) { row.push_back(f); t.push_back(row); }
  return t;
}
std::string Slurp(const std::filesystem::path& p) {
  std::ifstream in(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(in), {}};
}
std::string Field(vh::Rng& r, const std::string& s, double quote) {
  bool need = s.find_first_of(",\"\n\r") != std::string::npos;
  if (!need && !r.chance(quote)) return s;
  std::string q = "\"";
  for (char ch : s) { if (ch == '"') q += '"'; q += ch; }
  return q + "\"";
}
void WriteCsv(vh::Rng& r, const std::filesystem::path& p, const Table& t, double quote, bool last_newline = true) {
  std::ofstream o(p, std::ios::binary);
  for (size_t i = 0; i < t.size(); ++i) {
    for (size_t j = 0; j < t[i].size(); ++j) o << (j ? "," : "") << Field(r, t[i][j], quote);
    if (last_newline || i + 1 < t.size()) o << '\n';
  }
}
std::string Text(vh::Rng& r, int style) {
  switch (style) {
    case 0: return r.str(r.range(1, 12));
    case 1: return r.pick({"NULL", "NA", "nan", "", "0", "007", "1e5", "true", "-", " x ", "a b", "#", "null"});
    case 2: { std::string s = r.str(r.range(1, 8)); s.insert(r.below(s.size() + 1), r.pick({",", "\"", "\"\"", ",,", "'"})); return s; }
    case 3: { std::string s; for (int k = r.range(1, 6); k > 0; --k) s += r.pick({"\xc3\xa9", "\xe4\xb8\xad", "z", "\xf0\x9f\x98\x80"}); return s; }
    default: return r.str(r.range(100, 3000));
  }
}

void Convert(vh::Case& c) {
  auto& r = c.rng;
  bool big = r.chance(0.02);
  size_t rows = big ? r.range(5000, 20000) : r.pick({1, 2, 3, int(r.range(1, 60)), 300});
  size_t nl = r.range(1, 5), extra = r.below(3);
  int style = big ? 0 : r.below(6);  // 5: mixed
  double dup = r.pick({0.0, 0.3, 0.9});
  c.describe(fmt::format("rows={} labels={} extra={} style={} dup={} {:x}", rows, nl, extra, style, dup, r.u64()));
  Row names;
  for (size_t i = 0; i < 1 + nl + extra; ++i) names.push_back("c" + std::to_string(i) + (r.chance(0.2) ? "_" + r.str(3) : ""));
  Row order = names;
  r.shuffle(order);
  std::vector<std::string> labels(names.begin() + 1, names.begin() + 1 + nl);
  Table t{order};
  std::map<std::string, std::vector<Row>> want;
  std::vector<std::string> keys, asked;
  for (size_t i = 0; i < rows; ++i) {
    std::string key = keys.size() && r.chance(dup) ? r.pick(keys) : fmt::format("{}{}", Text(r, style == 2 ? (r.chance(0.5) ? 2 : 0) : 0), i);
    keys.push_back(key);
    std::map<std::string, std::string> v{{names[0], key}};
    Row l;
    for (size_t j = 0; j < nl; ++j) { l.push_back(Text(r, style == 5 ? r.below(5) : style == 4 && rows > 300 ? 0 : style)); v[labels[j]] = l.back(); }
    for (size_t j = 0; j < extra; ++j) v[names[1 + nl + j]] = Text(r, 0);
    want[key].push_back(l);
    Row row;
    for (auto& n : order) row.push_back(v[n]);
    t.push_back(row);
    asked.push_back(key);
  }
  auto in = c.dir / "in.csv", kv = c.dir / "kv.csv", cnt = c.dir / "cnt.csv", q = c.dir / "q.csv", out = c.dir / "out.csv";
  WriteCsv(r, in, t, r.pick({0.0, 0.3, 1.0}), r.chance(0.9));
  bool counts = r.chance(0.7);
  psi::ApsiCsvConverter(in, names[0], labels).MergeColumnAndRow(kv, counts ? cnt.string() : "");
  auto got = ReadCsv(Slurp(kv));
  bool ok = got.size() == want.size() + 1 && got[0] == Row{"key", "value"};
  std::map<std::string, std::string> value;
  for (size_t i = 1; ok && i < got.size(); ++i) ok = got[i].size() == 2 && value.emplace(got[i][0], got[i][1]).second && want.count(got[i][0]);
  c.check(ok && value.size() == want.size(), "key-value table", "{} keys for {} [{}]", got.size(), want.size(), c.desc);
  if (counts) {
    auto g = ReadCsv(Slurp(cnt));
    bool cok = g.size() == want.size() + 1;
    for (size_t i = 1; cok && i < g.size(); ++i) cok = g[i].size() == 2 && want.count(g[i][0]) && g[i][1] == std::to_string(want[g[i][0]].size());
    c.check(cok, "key counts", "[{}]", c.desc);
    c.event("count tables compared");
  }
  // the engine reads the table back
  {
    psi::apsi_wrapper::ApsiCsvReader reader(kv);
    auto [data, items] = reader.read();
    auto* l = std::get_if<psi::apsi_wrapper::LabeledData>(&data);
    bool rok = l && l->size() == want.size() && items.size() == want.size();
    for (size_t i = 0; rok && i < items.size(); ++i)
      rok = (*l)[i].first == apsi::Item(items[i]) && value.count(items[i]) && value[items[i]] == std::string((*l)[i].second.begin(), (*l)[i].second.end());
    c.check(rok, "table read by the engine", "{} items [{}]", items.size(), c.desc);
  }
  psi::ApsiCsvConverter(in, names[0]).ExtractQueryTo(q);
  auto gq = ReadCsv(Slurp(q));
  bool qok = gq.size() == rows + 1 && gq[0] == Row{"key"};
  for (size_t i = 0; qok && i < rows; ++i) qok = gq[i + 1] == Row{asked[i]};
  c.check(qok, "query file", "{} queries for {} [{}]", gq.size(), rows, c.desc);
  // what the receiver was sent for its matches, through the result file
  std::vector<std::string> orig;
  std::vector<apsi::Item> items;
  std::vector<apsi::receiver::MatchRecord> rec;
  std::map<std::string, std::vector<Row>> expect;
  double hit = r.pick({1.0, 0.5, 0.1, 0.0});
  size_t total = 0;
  for (auto& [k, v] : want) {
    orig.push_back(k);
    items.emplace_back(k);
    apsi::receiver::MatchRecord m;
    m.found = r.chance(hit);
    if (m.found) {
      auto& s = value[k];
      m.label.set(apsi::Label(s.begin(), s.end()));
      if (s.empty()) m.label.set(apsi::Label{});
      expect[k] = v;
      total += v.size();
    }
    rec.push_back(m);
  }
  auto res = c.dir / "res.csv";
  size_t cut = r.chance(0.4) ? r.range(1, orig.size()) : orig.size();
  auto part = [](auto& v, size_t a, size_t b) { return std::decay_t<decltype(v)>(v.begin() + a, v.begin() + b); };
  int found = psi::apsi_wrapper::print_intersection_results(part(orig, 0, cut), part(items, 0, cut), part(rec, 0, cut), res);
  if (cut < orig.size()) found += psi::apsi_wrapper::print_intersection_results(part(orig, cut, orig.size()), part(items, cut, orig.size()), part(rec, cut, orig.size()), res, found > 0);
  c.check(size_t(found) == expect.size(), "matches reported", "{} for {} [{}]", found, expect.size(), c.desc);
  auto gr = ReadCsv(Slurp(res));
  if (expect.size()) {
    bool ok = gr.size() == expect.size() + 1 && gr[0] == Row{"key", "value"};
    for (size_t i = 1; ok && i < gr.size(); ++i) ok = gr[i].size() == 2 && expect.count(gr[i][0]) && gr[i][1] == value[gr[i][0]];
    c.check(ok, "result file", "{} lines for {} matches, header of {} [{}]", gr.size(), expect.size(), gr.size() ? gr[0].size() : 0, c.desc);
    c.event("result files compared");
    // and back to the columns of the table
    Row ln = labels;
    int n = psi::ApsiCsvConverter(res, "key", {"value"}).ExtractResult(out, names[0], ln);
    auto go = ReadCsv(Slurp(out));
    Row head{names[0]};
    head.insert(head.end(), ln.begin(), ln.end());
    bool eok = size_t(n) == total && go.size() == total + 1 && go[0] == head;
    std::map<std::string, std::vector<Row>> back;
    for (size_t i = 1; eok && i < go.size(); ++i) {
      eok = go[i].size() == nl + 1;
      if (eok) back[go[i][0]].push_back(Row(go[i].begin() + 1, go[i].end()));
    }
    c.check(eok && back == expect, "rows of the result", "{} rows for {} [{}]", go.size(), total + 1, c.desc);
    c.event("rows restored", total);
    c.check(!vh::Thrown([&] { psi::ApsiCsvConverter(res, "key", {"value"}).ExtractResult("/dev/full", names[0], ln); }).empty(), "full disk", "result [{}]", c.desc);
    if (r.chance(0.3)) c.check(!vh::Thrown([&] { ln.push_back("more"); psi::ApsiCsvConverter(res, "key", {"value"}).ExtractResult(out, names[0], ln); }).empty(), "wrong number of labels", "[{}]", c.desc);
  }
  c.check(!vh::Thrown([&] { psi::ApsiCsvConverter(in, names[0], labels).MergeColumnAndRow("/dev/full"); }).empty(), "full disk", "table [{}]", c.desc);
  c.check(!vh::Thrown([&] { psi::ApsiCsvConverter(in, names[0]).ExtractQueryTo("/dev/full"); }).empty(), "full disk", "query [{}]", c.desc);
  c.check(!vh::Thrown([&] { psi::apsi_wrapper::print_intersection_results(orig, items, rec, "/dev/full"); }).empty(), "full disk", "matches [{}]", c.desc);
  // a table cut inside a quoted field or with a short row is refused, not shortened
  if (r.chance(0.3) && got.size() > 2) {
    auto bad = c.dir / "bad.csv";
    std::ofstream(bad, std::ios::binary) << "key,value\n" << "a,b\n" << "only\n" << "c,d\n";
    c.check(!vh::Thrown([&] { psi::apsi_wrapper::ApsiCsvReader(bad).read(); }).empty(), "broken table accepted", "read [{}]", c.desc);
    c.check(!vh::Thrown([&] { psi::apsi_wrapper::ApsiCsvReader(bad).bucketize(2, c.dir / "bb"); }).empty(), "broken table accepted", "bucketize [{}]", c.desc);
  }
  c.event("tables converted");
}

void Groups(vh::Case& c) {
  using namespace psi::apsi_wrapper;
  auto& r = c.rng;
  bool big = r.chance(0.03);
  size_t rows = big ? r.range(5000, 20000) : r.pick({1, 2, 7, int(r.range(1, 100)), 400});
  size_t buckets = r.pick({1, 2, 3, 7, 16, int(r.range(1, 60))}), groups = r.pick({1, 2, 3, 5, int(r.range(1, 12))});
  bool labeled = r.chance(0.7);
  int style = big ? 0 : r.below(4);
  int how = r.below(4);  // 0 direct, 1 worker processes, 2 reopened, 3 killed and repeated
  uint32_t nonce = r.below(17);
  bool compress = r.chance(0.5);
  c.describe(fmt::format("rows={} buckets={} groups={} labeled={} style={} how={} {:x}", rows, buckets, groups, labeled, style, how, r.u64()));
  Table t{labeled ? Row{"key", "value"} : Row{"key"}};
  std::map<std::string, std::string> want;
  while (want.size() < rows) {
    auto k = fmt::format("{}{}", Text(r, style == 1 ? 0 : style), want.size());
    auto v = labeled ? Text(r, r.chance(0.2) ? 1 : style) : "";
    want[k] = v;
    t.push_back(labeled ? Row{k, v} : Row{k});
  }
  auto src = c.dir / "src.csv", par = c.dir / "params.json";
  WriteCsv(r, src, t, 0);
  std::ofstream(par) << "{\"p\":" << r.below(1000) << "}";
  auto db = c.dir / "db";
  auto make = [&] { return std::make_unique<GroupDB>(src, db, groups, buckets, nonce, par, compress); };
  auto generate = [&](GroupDB& g) {
    g.DivideGroup();
    for (size_t i = 0; i < groups; ++i) g.GenerateGroup(i);
    g.GenerateDone();
  };
  if (how == 3) {
    for (int k = r.range(1, 3); k > 0; --k) {
      pid_t pid = fork();
      if (pid == 0) {
        try { auto g = make(); generate(*g); } catch (...) { _exit(3); }
        _exit(0);
      }
      usleep(r.below(big ? 60000 : 4000));
      kill(pid, SIGKILL);
      int st = 0;
      waitpid(pid, &st, 0);
      if (WIFSIGNALED(st)) c.event("generations killed");
      else c.check(WEXITSTATUS(st) == 0, "resumed generation", "failed after a kill [{}]", c.desc);
    }
  }
  auto g = make();
  c.check(g->GetGroupNum() == groups && g->GetBucketNum() == buckets, "counts", "[{}]", c.desc);
  if (how == 1) {
    pid_t pid = fork();
    if (pid == 0) {
      try { GenerateGroupBucketDB(*g, r.range(1, 4)); } catch (...) { _exit(3); }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "worker processes", "status {} [{}]", st, c.desc);
    c.event("generated by worker processes");
    g = make();
    c.check(g->IsDivided() && g->IsDBGenerated(), "state", "[{}]", c.desc);
  } else {
    generate(*g);
    c.check(g->IsDivided() && g->IsDBGenerated(), "state", "[{}]", c.desc);
    if (how == 2) {
      g = r.chance(0.5) ? make() : std::make_unique<GroupDB>(db);
      c.check(g->IsDBGenerated() && g->GetGroupNum() == groups && g->GetBucketNum() == buckets, "state after reopening", "[{}]", c.desc);
      c.event("databases reopened");
    }
  }
  size_t covered = 0;
  for (size_t i = 0; i < groups; ++i) {
    auto x = g->GetBucketIndexOfGroup(i);
    c.check(x.cnt == 0 || x.start_index == covered, "group range", "group {} [{}]", i, c.desc);
    for (size_t b = x.start_index; b < x.start_index + x.cnt; ++b) c.check(g->GetBucketGroupIdx(b) == i, "bucket's group", "[{}]", c.desc);
    covered += x.cnt;
  }
  c.check(covered == buckets, "group ranges", "{} of {} buckets [{}]", covered, buckets, c.desc);
  size_t seen = 0;
  bool ok = true, opts = true;
  for (size_t b = 0; b < buckets; ++b) {
    auto x = g->GetBucketDB(b);
    size_t n = 0;
    for (auto& [k, v] : want) {
      if (std::hash<std::string>()(k) % buckets != b) continue;
      ++n;
      ok &= x.sender_db && x.sender_db->data.count(apsi::Item(k).to_string()) && x.sender_db->data[apsi::Item(k).to_string()] == v;
    }
    ok &= n == (x.sender_db ? x.sender_db->data.size() : 0);
    if (x.sender_db) {
      ok &= x.bucket_id == b && x.oprf_key.id == n + 1;
      opts &= x.sender_db->labeled == labeled && x.sender_db->compress == compress && (!labeled || x.sender_db->nonce == nonce);
    }
    seen += n;
  }
  c.check(ok && seen == rows, "bucket contents", "{} of {} records [{}]", seen, rows, c.desc);
  c.check(opts, "engine settings", "[{}]", c.desc);
  c.check(!vh::Thrown([&] { g->GetBucketDB(buckets); }).empty(), "bucket beyond the end", "[{}]", c.desc);
  // other settings in the same place are refused
  c.check(!vh::Thrown([&] { GroupDB(src, db, groups + 1, buckets, nonce, par, compress); }).empty() && !vh::Thrown([&] { GroupDB(src, db, groups, buckets + 1, nonce, par, compress); }).empty() &&
              !vh::Thrown([&] { GroupDB(src, db, groups, buckets, nonce + 1, par, compress); }).empty(), "other settings", "[{}]", c.desc);
  c.event("records stored", rows);
  c.event("databases built");
  // one level without groups
  {
    auto dir = c.dir / "buckets";
    ApsiCsvReader(src).bucketize(buckets, dir);
    size_t n = 0;
    bool bok = true;
    for (size_t b = 0; b < buckets; ++b) {
      auto rows_b = ReadCsv(Slurp(dir / std::to_string(b)));
      bok &= !rows_b.empty() && rows_b[0] == t[0];
      for (size_t i = 1; bok && i < rows_b.size(); ++i, ++n)
        bok = rows_b[i].size() == t[0].size() && want.count(rows_b[i][0]) && std::hash<std::string>()(rows_b[i][0]) % buckets == b && (!labeled || rows_b[i][1] == want[rows_b[i][0]]);
    }
    c.check(bok && n == rows, "bucket files", "{} of {} [{}]", n, rows, c.desc);
  }
  if (rows > 1 && r.chance(0.3)) {
    auto dupsrc = c.dir / "dup.csv";
    auto d = t;
    d.push_back(t[1 + r.below(rows)]);
    WriteCsv(r, dupsrc, d, 0);
    c.check(!vh::Thrown([&] { GroupDB x(dupsrc, c.dir / "db2", groups, buckets, nonce, par, compress); generate(x); }).empty(), "repeated key accepted", "[{}]", c.desc);
  }
}
}  // namespace

int main(int argc, char** argv) { return vh::Main(argc, argv, {{"convert", Convert}, {"groups", Groups}}); }
