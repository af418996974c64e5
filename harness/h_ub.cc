// Unbalanced PSI histories (P07) and results capped by a threshold (P08).
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>

#include "storage.h"
#include "world.h"

#include "psi/apps/psi_launcher/factory.h"

namespace {
using namespace vw;
using UC = psi::v2::UbPsiConfig;
namespace v2 = psi::v2;

struct Place {
  std::filesystem::path dir;
  std::filesystem::path In(int i) const { return dir / (i ? "client.csv" : "server.csv"); }
  std::filesystem::path Out(int i) const { return dir / "out" / (i ? "client.csv" : "server.csv"); }
  std::filesystem::path Count(int i) const { return dir / "out" / (i ? "client_count.csv" : "server_count.csv"); }
  std::filesystem::path Cache(int i) const { return dir / (i ? "client_cache" : "server_cache"); }
  std::filesystem::path Key(int k) const { return dir / fmt::format("key{}", k); }
};

UC Conf(const Job& j, const Place& p, UC::Mode mode, int side, int key) {
  UC c;
  c.set_mode(mode);
  c.set_role(side ? v2::ROLE_CLIENT : v2::ROLE_SERVER);
  c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_input_config()->set_path(p.In(side));
  c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(p.Out(side));
  for (auto& k : j.side[side].keys) c.add_keys(k);
  if (side == 0 && key >= 0) c.set_server_secret_key_path(p.Key(key));
  c.set_cache_path(p.Cache(side));
  c.set_server_get_result(HasResult(j, 0));
  c.set_client_get_result(HasResult(j, 1));
  c.set_disable_alignment(j.side[0].disable_align);
  c.set_advanced_join_type(j.join);
  if (j.left == v2::ROLE_RECEIVER) c.set_left_side(v2::ROLE_SERVER);
  if (j.left == v2::ROLE_SENDER) c.set_left_side(v2::ROLE_CLIENT);
  if (!j.side[0].null_rep.empty()) c.mutable_output_attr()->set_csv_null_rep(j.side[0].null_rep);
  c.set_intersection_threshold(j.threshold);
  if (j.threshold) c.set_count_path(p.Count(side));
  return c;
}

// Runs one phase; GEN_CACHE needs the server only.
std::array<Party, 2> Phase(const Job& j, const Place& p, UC::Mode mode, int key, World* ww = nullptr) {
  std::filesystem::create_directories(p.dir / "out");
  for (int i = 0; i < 2; ++i) { std::filesystem::remove(p.Out(i)); std::filesystem::remove(p.Count(i)); }
  std::array<Party, 2> out;
  if (mode == UC::MODE_OFFLINE_GEN_CACHE) {
    auto cfg = Conf(j, p, mode, 0, key);
    out[0].error = vh::Thrown([&] { out[0].report = psi::createUbPsiParty(cfg, nullptr)->Run(); });
    out[0].done = out[0].error.empty();
    out[1].done = true;
    return out;
  }
  World own;
  if (!ww) { own = MakeWorld(); ww = &own; }
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(2);
  size_t sr = j.receiver_rank;
  for (int i = 0; i < 2; ++i)
    f[i == 0 ? sr : 1 - sr] = [&, i](const std::shared_ptr<yacl::link::Context>& l) {
      out[i].report = psi::createUbPsiParty(Conf(j, p, mode, i, key), l)->Run();
    };
  auto err = RunRanks(*ww, f);
  for (int i = 0; i < 2; ++i) {
    out[i].error = err[i == 0 ? sr : 1 - sr];
    out[i].done = out[i].error.empty();
    out[i].has_output = std::filesystem::exists(p.Out(i));
    if (out[i].has_output) out[i].output = vh::ReadAll(p.Out(i));
  }
  return out;
}

bool Fine(vh::Case& c, const std::array<Party, 2>& got, const std::string& what) {
  bool ok = true;
  for (int i = 0; i < 2; ++i) ok &= c.check(got[i].done, what + "-failed", "side {}: {} [{}]", i, got[i].error.substr(0, 500), c.desc);
  return ok;
}

void Settings(vh::Rng& r, Job& j) {  // what may differ from one online phase to the next
  using PC = v2::PsiConfig;
  j.results = r.pick({1, 2, 2, 3, 3});
  j.join = PC::ADVANCED_JOIN_TYPE_UNSPECIFIED;
  j.left = v2::ROLE_UNSPECIFIED;
  j.side[0].null_rep = "";
  j.side[0].disable_align = j.side[1].disable_align = r.chance(0.2);
  if (r.chance(0.5)) {
    j.join = r.pick({PC::ADVANCED_JOIN_TYPE_INNER_JOIN, PC::ADVANCED_JOIN_TYPE_LEFT_JOIN, PC::ADVANCED_JOIN_TYPE_RIGHT_JOIN, PC::ADVANCED_JOIN_TYPE_FULL_JOIN, PC::ADVANCED_JOIN_TYPE_DIFFERENCE});
    if (j.join != PC::ADVANCED_JOIN_TYPE_INNER_JOIN) j.left = r.chance(0.5) ? v2::ROLE_RECEIVER : v2::ROLE_SENDER;
    if (r.chance(0.4)) j.side[0].null_rep = r.pick({"NA", "null value", "-"});
  }
}
// A client table of its own over the keys of the server's.
void NewClient(vh::Case& c, Job& j) {
  auto& r = c.rng;
  auto& s = j.side[0];
  auto& t = j.side[1];
  t.tab.rows.clear();
  t.tab.blank_after.clear();
  size_t n = r.range(1, 40);
  std::set<Row> uniq;
  for (size_t i = 0; i < n; ++i) {
    Row k = r.chance(0.6) ? s.tab.Key(r.below(s.tab.rows.size()), s.keys) : Row(s.keys.size(), "x" + r.str(4));
    bool dup = !uniq.insert(k).second;
    if (dup && r.chance(0.5)) continue;
    Row row(t.tab.cols.size());
    for (size_t q = 0; q < row.size(); ++q) {
      auto it = std::find(t.keys.begin(), t.keys.end(), t.tab.cols[q]);
      row[q] = it != t.keys.end() ? k[it - t.keys.begin()] : r.str(r.range(1, 5));
    }
    t.tab.rows.push_back(row);
  }
}
Job Fresh(vh::Case& c, size_t rows) {
  Job j;
  j.ub = true;
  GenOpt o;
  o.max_rows = rows;
  o.joins = false;
  GenTables(c, j, o);
  j.side[0].tab.quote = j.side[1].tab.quote = false;
  j.broadcast = false;
  Settings(c.rng, j);
  return j;
}
std::string Set(const Job& j) {
  return fmt::format("results={} {} left={} null={} {}r/{}r thr={}", j.results, v2::PsiConfig::AdvancedJoinType_Name(j.join).substr(19), v2::Role_Name(j.left), j.side[0].null_rep, j.side[0].tab.rows.size(), j.side[1].tab.rows.size(), j.threshold);
}
// Common keys of the two tables
int64_t Overlap(const Job& j) { return Expect(j).inter_keys; }
uint32_t PickThreshold(vh::Rng& r, int64_t n) {
  switch (r.below(6)) {
    case 0: return std::max<int64_t>(1, n);
    case 1: return n + 1;
    case 2: return std::max<int64_t>(1, n - 1);
    case 3: return 1;
    case 4: return n + r.range(1, 20);
    default: return r.range(1, std::max<int64_t>(1, n));
  }
}

void Run(vh::Case& c, bool capped) {
  auto& r = c.rng;
  Place p{c.dir};
  vh::WriteAll(p.Key(0), r.bytes(32));
  vh::WriteAll(p.Key(1), r.bytes(32));
  // what the server's snapshot and the client's copy were made from
  struct Snap { Side side; int key; uint64_t id; };
  std::optional<Snap> srv, cli;
  uint64_t ids = 0;
  Job j = Fresh(c, r.chance(0.15) ? 200 : 50);
  j.receiver_rank = r.below(2);
  int key = r.range(-1, 1);
  std::string desc;
  auto say = [&](const std::string& s) { desc += s + "; "; c.describe(desc); };
  auto put = [&](int side) { vh::WriteAll(p.In(side), j.side[side].tab.Text()); };
  auto judge = [&](const std::array<Party, 2>& got, const std::string& pre) {
    std::filesystem::path counts[2] = {p.Count(0), p.Count(1)};
    if (j.threshold) JudgeCapped(c, j, got, counts, pre);
    else Judge(c, j, Expect(j), got, pre);
    c.event("online phases judged");
  };
  int steps = r.range(3, 6);
  for (int t = 0; t < steps && !c.failed(); ++t) {
    bool can_online = srv && cli && srv->id == cli->id;
    int op = r.below(10);
    if (op < 4 && t > 0 && r.chance(0.6)) op = 9;
    if (!srv) op = r.below(4);
    j.threshold = 0;
    switch (op) {
      case 0: case 1: case 2: {  // (re)generate, on the same or another table
        if (srv && r.chance(0.5)) {
          Job k = Fresh(c, 50);
          k.receiver_rank = j.receiver_rank;
          j = k;
          int was = key;
          key = r.range(-1, 1);
          if (key == was && r.chance(0.5)) key = (key + 2) % 3 - 1;
        }
        put(0);
        bool offline = op == 2;
        say(fmt::format("{} key={} #{:x}", offline ? "offline" : "gen", key, std::hash<std::string>()(j.side[0].tab.Text()) & 0xffffff));
        auto got = Phase(j, p, offline ? UC::MODE_OFFLINE : UC::MODE_OFFLINE_GEN_CACHE, key);
        if (!Fine(c, got, offline ? "offline" : "gen")) return;
        c.check(got[0].report.original_count() == Expect(j).orig_keys[0] , "gen-report", "{} want {} [{}]", got[0].report.original_count(), Expect(j).orig_keys[0], desc);
        srv = Snap{j.side[0], key, ++ids};
        if (offline) cli = srv;
        c.event(offline ? "offline phases" : "generations");
        break;
      }
      case 3: {
        put(0);
        NewClient(c, j);
        put(1);
        Settings(r, j);
        if (capped) j.threshold = PickThreshold(r, Overlap(j));
        say(fmt::format("full key={} {} #{:x}", key, Set(j), std::hash<std::string>()(j.side[0].tab.Text() + j.side[1].tab.Text()) & 0xffffff));
        auto got = Phase(j, p, UC::MODE_FULL, key);
        srv = Snap{j.side[0], key, ++ids};
        cli = srv;
        judge(got, "full-");
        c.event("full runs");
        break;
      }
      default: {
        if (!can_online && r.chance(0.5) && cli && (srv->key != cli->key || srv->key == -1)) {
          // the server went on to another key: nothing may match
          NewClient(c, j);
          put(1);
          Settings(r, j);
          j.join = v2::PsiConfig::ADVANCED_JOIN_TYPE_UNSPECIFIED;
          say("online with the cache of another key " + Set(j));
          auto got = Phase(j, p, UC::MODE_ONLINE, srv->key);
          for (int i = 0; i < 2; ++i) {
            if (!got[i].done || !HasResult(j, i)) continue;
            auto rows = got[i].has_output ? ParseCsv(got[i].output) : std::vector<Row>{};
            c.check(rows.size() <= 1, "stale-cache-match", "side {} {} rows [{}]", i, rows.size() - 1, desc);
          }
          c.event("stale caches tried");
          break;
        }
        if (!can_online) {
          say("transfer");
          if (r.chance(0.2)) vh::WriteAll(p.In(0), "junk\n1\n");  // the snapshot counts, not the file
          auto got = Phase(j, p, UC::MODE_OFFLINE_TRANSFER_CACHE, srv->key);
          if (!Fine(c, got, "transfer")) return;
          int64_t n = Expect(j).orig_keys[0];
          for (int i = 0; i < 2; ++i)
            c.check(got[i].report.original_count() == n, "transfer-report", "side {} {} want {} [{}]", i, got[i].report.original_count(), n, desc);
          cli = srv;
          c.event("transfers");
          put(0);
        }
        int rounds = r.range(1, 2);
        while (rounds--) {
          NewClient(c, j);
          put(1);
          if (r.chance(0.2)) vh::WriteAll(p.In(0), "junk\n1\n");
          Settings(r, j);
          if (capped) j.threshold = PickThreshold(r, Overlap(j));
          say(fmt::format("online {} #{:x}", Set(j), std::hash<std::string>()(j.side[1].tab.Text()) & 0xffffff));
          judge(Phase(j, p, UC::MODE_ONLINE, srv->key), "online-");
          put(0);
          if (c.failed()) return;
        }
      }
    }
  }
}
void History(vh::Case& c) { Run(c, false); }
void HistoryCapped(vh::Case& c) { Run(c, true); }

// A phase that is cut short and repeated, or followed by an online phase anyway.
void Interrupted(vh::Case& c) {
  auto& r = c.rng;
  Place p{c.dir};
  Job j = Fresh(c, 60);
  j.receiver_rank = r.below(2);
  NewClient(c, j);
  for (int i = 0; i < 2; ++i) vh::WriteAll(p.In(i), j.side[i].tab.Text());
  int key = -1;
  if (r.chance(0.5)) { vh::WriteAll(p.Key(0), r.bytes(32)); key = 0; }
  auto mode = r.pick({UC::MODE_OFFLINE, UC::MODE_OFFLINE_TRANSFER_CACHE, UC::MODE_FULL, UC::MODE_ONLINE, UC::MODE_OFFLINE_GEN_CACHE});
  bool storage = mode == UC::MODE_OFFLINE_GEN_CACHE || r.chance(0.35);  // crash at a storage operation
  size_t rank = r.below(2);
  uint64_t at = r.below(mode == UC::MODE_FULL ? 30 : 14);
  bool crash = storage || r.chance(0.6);
  if (storage) at = r.chance(0.5) ? r.below(16) : r.below(60);
  c.describe(fmt::format("{} key={} {} rank{} at={} {} #{:x}", UC::Mode_Name(mode), key, storage ? "storage crash" : crash ? "crash" : "link", rank, at, Set(j), std::hash<std::string>()(j.side[0].tab.Text() + j.side[1].tab.Text()) & 0xffffff));
  if (mode == UC::MODE_OFFLINE_TRANSFER_CACHE) { if (!Fine(c, Phase(j, p, UC::MODE_OFFLINE_GEN_CACHE, key), "gen")) return; }
  if (mode == UC::MODE_ONLINE) { if (!Fine(c, Phase(j, p, UC::MODE_OFFLINE, key), "offline")) return; }
  auto arm = [&](World& w) {
    auto n = std::make_shared<std::array<std::atomic<uint64_t>, 2>>();
    (*n)[0] = 0; (*n)[1] = 0;
    auto hub = w.hub.get();
    w.hub->hook = [=](const verif::LinkEvent& e) {
      size_t me = e.send ? e.src : e.dst;
      if ((*n)[me]++ != at || me != rank) return;
      if (crash) _exit(77);
      hub->Kill(rank);
      throw std::runtime_error("injected failure");
    };
  };
  bool hit = false;
  std::array<Party, 2> got;
  if (crash) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      auto w = MakeWorld();
      if (storage) { g_storage_ops = 0; g_storage_end = at; g_storage_on = true; } else { arm(w); }
      Phase(j, p, mode, key, &w);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    hit = WIFEXITED(st) && WEXITSTATUS(st) == 77;
  } else {
    auto w = MakeWorld();
    w.hub->recv_timeout_ms = 15000;
    arm(w);
    got = Phase(j, p, mode, key, &w);
    hit = !got[0].done || !got[1].done;
    if (hit) c.check(!got[rank == j.receiver_rank ? 0 : 1].done, "success-without-link", "[{}]", c.desc);
  }
  if (!hit) { c.trivial(); return; }
  c.event(storage ? "interruptions at a storage operation" : "interruptions");
  // Going on without repeating the phase is refused or right.
  if (mode != UC::MODE_ONLINE && r.chance(0.5)) {
    auto g = Phase(j, p, UC::MODE_ONLINE, key);
    if (g[0].done && g[1].done) { Judge(c, j, Expect(j), g, "afterwards-"); c.event("went on correctly"); }
    else c.event("went on: refused");
    if (c.failed()) return;
  }
  // Repeating it makes good.
  if (mode == UC::MODE_OFFLINE_TRANSFER_CACHE || mode == UC::MODE_OFFLINE || mode == UC::MODE_OFFLINE_GEN_CACHE) {
    if (!Fine(c, Phase(j, p, mode, key), "repeated")) return;
    if (mode == UC::MODE_OFFLINE_GEN_CACHE && !Fine(c, Phase(j, p, UC::MODE_OFFLINE_TRANSFER_CACHE, key), "repeated-transfer")) return;
    Judge(c, j, Expect(j), Phase(j, p, UC::MODE_ONLINE, key), "repeated-");
  } else {
    Judge(c, j, Expect(j), Phase(j, p, mode, key), "repeated-");
  }
  c.event("repeated phases judged");
}

// Balanced jobs with a threshold.
void Threshold(vh::Case& c) {
  auto& r = c.rng;
  Job j;
  j.proto = v2::PROTOCOL_ECDH;
  j.curve = r.pick({psi::CURVE_25519, psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_SECP256K1, psi::CURVE_25519_ELLIGATOR2});
  j.batch = r.pick({0, 1, 3, 16, 64});
  GenOpt o;
  o.max_rows = 50;
  GenTables(c, j, o);
  j.threshold = PickThreshold(r, Overlap(j));
  c.describe(j.Text() + fmt::format(" threshold={} of {}", j.threshold, Overlap(j)));
  WriteInputs(j, c.dir);
  auto got = RunJob(j, c.dir);
  auto p = PathsOf(c.dir);
  JudgeCapped(c, j, got, p.count);
}
}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"history", History}, {"history_capped", HistoryCapped}, {"interrupted", Interrupted}, {"threshold", Threshold}});
}
