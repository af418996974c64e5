// Runs whose link or peer fails (P28), and runs resumed afterwards (P04).
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <thread>

#include "storage.h"
#include "world.h"


namespace {
using namespace vw;

struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };

// A fault plan: at the n-th transport operation of one party.
struct Fault {
  int kind = 0;       // 3 both parties end, 4 both end at a storage operation; 0 the party's link goes down for good, 1 one operation fails, 2 both links go down
  size_t rank = 0;
  uint64_t at = 0;
  std::string Text() const { return fmt::format("fault(kind={} rank={} at={})", kind, rank, at); }
};

void Arm(World& w, const Fault& f, std::shared_ptr<std::atomic<bool>> hit, uint64_t jitter_seed = 0) {
  auto n = std::make_shared<std::array<std::atomic<uint64_t>, 2>>();
  (*n)[0] = 0; (*n)[1] = 0;
  auto hub = w.hub.get();
  w.hub->hook = [=](const verif::LinkEvent& e) {
    size_t me = e.send ? e.src : e.dst;
    uint64_t k = (*n)[me]++;
    if (jitter_seed && vh::Mix(jitter_seed + k * 7919 + me) % 9 == 0) std::this_thread::sleep_for(std::chrono::microseconds(vh::Mix(jitter_seed ^ k) % 1500));
    if (me != f.rank || k != f.at) return;
    hit->store(true);
    if (f.kind == 1) throw Boom("injected failure");
    hub->Kill(f.rank);
    if (f.kind == 2) hub->Kill(1 - f.rank);
    throw Boom("injected failure");
  };
}
// operations per rank in an undisturbed run, and those that wait for the peer to finish a step
std::vector<uint64_t> g_sync[2];
std::mutex g_sync_mu;
std::array<uint64_t, 2> CountOps(World& w, std::shared_ptr<std::array<std::atomic<uint64_t>, 2>> n) {
  (*n)[0] = 0; (*n)[1] = 0;
  g_sync[0].clear(); g_sync[1].clear();
  w.hub->hook = [n](const verif::LinkEvent& e) {
    size_t me = e.send ? e.src : e.dst;
    uint64_t k = (*n)[me]++;
    if (!e.send && e.tag.find("sync_wait") != std::string::npos) {
      std::lock_guard<std::mutex> g(g_sync_mu);
      g_sync[me].push_back(k);
    }
  };
  return {};
}
// Some faults go where one party has recorded a step and the other has not yet.
uint64_t PickOp(vh::Rng& r, size_t rank, uint64_t total, double bias) {
  auto& v = g_sync[rank];
  if (!v.empty() && r.chance(bias)) return v[r.below(v.size())];
  return r.below(total);
}

void GenSmall(vh::Case& c, Job& j) {
  GenProtocol(c.rng, j);
  if (j.proto == psi::v2::PROTOCOL_ECDH) {
    j.batch = c.rng.pick({0, 1, 3, 16});
  } else {
    j.bucket = c.rng.pick({1, 3, 7, 1000});
  }
  GenOpt o;
  o.max_rows = 24;
  o.joins = c.rng.chance(0.3);
  GenTables(c, j, o);
}

// A party that reports success has the right answer.
void JudgeSuccess(vh::Case& c, const Job& j, const Want& w1, const std::array<Party, 2>& got, const std::string& f) {
  const char* nm[2] = {"receiver", "sender"};
  for (int i = 0; i < 2; ++i) {
    if (!got[i].done) { c.event("parties ended with an error"); continue; }
    auto& me = got[i];
    if (HasResult(j, i)) {
      c.check(me.report.intersection_count() == w1.inter_rows[i], "success-with-wrong-count", "{} {} want {} {} [{}]", nm[i], me.report.intersection_count(), w1.inter_rows[i], f, j.Text());
      c.check(me.report.intersection_key_count() == w1.inter_keys, "success-with-wrong-count", "{} {} want {} {} [{}]", nm[i], me.report.intersection_key_count(), w1.inter_keys, f, j.Text());
      if (c.check(me.has_output, "success-without-output", "{} {} [{}]", nm[i], f, j.Text())) {
        auto rows = ParseCsv(me.output);
        if (!rows.empty()) rows.erase(rows.begin());
        auto b = w1.rows[i];
        std::sort(rows.begin(), rows.end());
        std::sort(b.begin(), b.end());
        c.check(rows == b, "success-with-wrong-output", "{} {} rows want {} {} [{}]", nm[i], rows.size(), b.size(), f, j.Text());
      }
    }
    c.event("successes judged");
  }
}

void Kill(vh::Case& c) {
  Job j;
  GenSmall(c, j);
  c.describe(j.Text());
  WriteInputs(j, c.dir);
  auto want = Expect(j);
  auto n = std::make_shared<std::array<std::atomic<uint64_t>, 2>>();
  {
    auto w = MakeWorld();
    CountOps(w, n);
    Judge(c, j, want, RunJob(j, c.dir, &w), "clean-");
    if (c.failed()) return;
  }
  auto p = PathsOf(c.dir);
  std::string desc = j.Text();
  for (int rep = 0; rep < 4; ++rep) {
    Fault f;
    f.kind = c.rng.below(3);
    f.rank = c.rng.below(2);
    uint64_t total = (*n)[f.rank];
    f.at = c.rng.chance(0.3) ? total - 1 - c.rng.below(std::min<uint64_t>(total, 8)) : c.rng.below(total);
    for (int i = 0; i < 2; ++i) std::filesystem::remove(p.out[i]);
    auto w = MakeWorld();
    w.hub->stall_ms = 12000;
    // With the links up, a real receive gives up after its time limit.
    w.hub->recv_timeout_ms = f.kind == 1 ? 1500 : 15000;
    auto hit = std::make_shared<std::atomic<bool>>(false);
    Arm(w, f, hit, c.rng.chance(0.4) ? c.rng.u64() : 0);
    desc += " " + f.Text();
    c.describe(desc);
    auto t0 = std::chrono::steady_clock::now();
    auto got = RunJob(j, c.dir, &w);
    double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    const char* nm[2] = {"receiver", "sender"};
    bool any_err = false;
    for (int i = 0; i < 2; ++i) {
      if (f.kind == 1) continue;
      c.check(!vh::Stalled(got[i].error) && got[i].error.find("Get data timeout") == std::string::npos, "waits-forever", "{} {} {} [{}]", nm[i], f.Text(), got[i].error.substr(0, 200), j.Text());
    }
    for (int i = 0; i < 2; ++i) any_err |= !got[i].done;
    if (s > 1) c.event("runs ended by a time limit");
    if (hit->load()) c.event("faults that hit");
    // A party whose own operation failed must not report success.
    size_t victim = f.rank == j.receiver_rank ? 0 : 1;
    if (hit->load() && f.kind != 1)
      c.check(!got[victim].done, "success-without-link", "{} {} [{}]", nm[victim], f.Text(), j.Text());
    JudgeSuccess(c, j, want, got, f.Text());
    if (any_err) c.event("failed runs");
  }
}

// The disk fills up: no file can grow beyond a limit (both parties).
void Full(vh::Case& c) {
  auto& r = c.rng;
  Job j;
  GenProtocol(r, j);
  if (j.proto == psi::v2::PROTOCOL_ECDH) j.batch = r.pick({0, 3, 16}); else j.bucket = r.pick({3, 7, 1000});
  GenOpt o;
  o.max_rows = r.chance(0.3) ? 400 : 30;
  GenTables(c, j, o);
  c.describe(j.Text());
  WriteInputs(j, c.dir);
  auto want = Expect(j);
  auto clean = RunJob(j, c.dir);
  Judge(c, j, want, clean, "clean-");
  if (c.failed()) return;
  size_t big = 0;
  for (auto& p : clean) big = std::max(big, p.output.size());
  auto p = PathsOf(c.dir);
  for (int s = 0; s < 2; ++s) big = std::max<size_t>(big, std::filesystem::file_size(p.in[s]));
  std::string desc = j.Text();
  for (int rep = 0; rep < 4; ++rep) {
    for (int i = 0; i < 2; ++i) std::filesystem::remove(p.out[i]);
    size_t limit = r.chance(0.2) && big > 10 ? big - r.range(1, 9) : r.below(2 * big + 40);
    desc += fmt::format(" limit={}", limit);
    c.describe(desc);
    auto w = MakeWorld();
    w.hub->stall_ms = 12000;
    w.hub->recv_timeout_ms = 2000;
    rlimit old{};
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit now = old;
    now.rlim_cur = limit;
    fflush(nullptr);
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &now);
    auto got = RunJob(j, c.dir, &w);
    setrlimit(RLIMIT_FSIZE, &old);
    JudgeSuccess(c, j, want, got, fmt::format("limit={}", limit));
    if (!got[0].done || !got[1].done) c.event("runs failed on a full disk"); else c.event("runs that fitted");
  }
}

// Runs the job in a child process that ends at once, as if killed, when the
// n-th operation of the given party is about to happen. Both parties die.
// Returns false when the run ended before that.
bool CrashBoth(const Job& j, const std::filesystem::path& dir, const Fault& f) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    auto w = MakeWorld();
    w.hub->stall_ms = 30000;
    auto n = std::make_shared<std::array<std::atomic<uint64_t>, 2>>();
    (*n)[0] = 0; (*n)[1] = 0;
    w.hub->hook = [=](const verif::LinkEvent& e) {
      size_t me = e.send ? e.src : e.dst;
      if ((*n)[me]++ == f.at && me == f.rank && f.kind == 3) _exit(77);
    };
    if (f.kind == 4) { g_storage_ops = 0; g_storage_end = f.at; g_storage_on = true; }
    RunJob(j, dir, &w);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 77;
}

void Recover(vh::Case& c) {
  Job j;
  GenSmall(c, j);
  j.recovery = true;
  c.describe(j.Text());
  WriteInputs(j, c.dir);
  auto want = Expect(j);
  auto n = std::make_shared<std::array<std::atomic<uint64_t>, 2>>();
  uint64_t storage_ops = 0;
  {
    // the length of an undisturbed run, in folders of its own
    auto w = MakeWorld();
    CountOps(w, n);
    auto d = c.dir / "clean";
    std::filesystem::create_directories(d);
    WriteInputs(j, d);
    g_storage_ops = 0;
    g_storage_on = true;
    auto got = RunJob(j, d, &w);
    g_storage_on = false;
    storage_ops = g_storage_ops;
    Judge(c, j, want, got, "clean-");
    if (c.failed()) return;
  }
  std::string desc = j.Text();
  int crashes = c.rng.chance(0.6) ? 1 : c.rng.range(2, 3);
  bool finished = false;
  for (int k = 0; k < crashes && !finished; ++k) {
    Fault f;
    f.kind = c.rng.pick({0, 2, 3, 3, 4, 4});
    f.rank = c.rng.below(2);
    f.at = PickOp(c.rng, f.rank, (*n)[f.rank], 0.4);
    if (f.kind == 4) f.at = c.rng.below(storage_ops);
    if (f.kind >= 3) {
      bool hit = CrashBoth(j, c.dir, f);
      if (hit) c.event(f.kind == 3 ? "crashes" : "crashes at a storage operation");
    } else {
      auto w = MakeWorld();
      w.hub->recv_timeout_ms = 15000;
      auto hit = std::make_shared<std::atomic<bool>>(false);
      Arm(w, f, hit, 0);
      auto got = RunJob(j, c.dir, &w);
      if (hit->load()) c.event("failures");
    }
    desc += " " + f.Text();
    c.describe(desc);
  }
  auto w = MakeWorld();
  w.hub->recv_timeout_ms = 20000;
  Judge(c, j, want, RunJob(j, c.dir, &w), "resume-");
  c.event("resumed runs");
  c.event(fmt::format("resumed {}", psi::v2::Protocol_Name(j.proto)));
}

// A resume with other data or other settings than the interrupted run.
void Changed(vh::Case& c) {
  Job j;
  GenSmall(c, j);
  j.recovery = true;
  auto& r = c.rng;
  WriteInputs(j, c.dir);
  auto n = std::make_shared<std::array<std::atomic<uint64_t>, 2>>();
  bool complete = r.chance(0.4);
  Fault f;
  if (complete) {
    Judge(c, j, Expect(j), RunJob(j, c.dir), "clean-");
    if (c.failed()) return;
  } else {
    auto w = MakeWorld();
    CountOps(w, n);
    auto d = c.dir / "clean";
    std::filesystem::create_directories(d);
    WriteInputs(j, d);
    Judge(c, j, Expect(j), RunJob(j, d, &w), "clean-");
    if (c.failed()) return;
    f.kind = r.pick({0, 2, 3, 3});
    f.rank = r.below(2);
    f.at = (*n)[f.rank] / 3 + r.below((*n)[f.rank] - (*n)[f.rank] / 3);
    if (f.kind == 3) {
      CrashBoth(j, c.dir, f);
    } else {
      auto w2 = MakeWorld();
      w2.hub->recv_timeout_ms = 15000;
      Arm(w2, f, std::make_shared<std::atomic<bool>>(false), 0);
      RunJob(j, c.dir, &w2);
    }
  }
  Job k = j;
  int what = r.below(2);
  std::string did;
  if (what == 0) {
    int side = r.below(2);
    auto& t = k.side[side].tab;
    size_t col = t.Col(k.side[side].keys[r.below(k.side[side].keys.size())]);
    auto before = Expect(j);
    if (r.chance(0.4)) {
      Row extra = t.rows[0];
      extra[col] = "new" + r.str(6);
      t.rows.push_back(extra);
      did = "row added";
    } else if (r.chance(0.3) && t.rows.size() > 1) {
      // drop every row of one key
      auto key = t.Key(r.below(t.rows.size()), k.side[side].keys);
      std::vector<Row> rest;
      for (size_t i = 0; i < t.rows.size(); ++i) if (t.Key(i, k.side[side].keys) != key) rest.push_back(t.rows[i]);
      if (rest.empty()) { t.rows[0][col] = "new" + r.str(6); did = "key changed"; }
      else { t.rows = rest; t.blank_after.clear(); did = "key dropped"; }
    } else {
      auto key = t.Key(r.below(t.rows.size()), k.side[side].keys);
      std::string nv = "new" + r.str(6);
      for (size_t i = 0; i < t.rows.size(); ++i) if (t.Key(i, k.side[side].keys) == key) t.rows[i][col] = nv;
      did = "key changed";
    }
    did += fmt::format(" side {}", side);
  } else {
    switch (r.below(4)) {
      case 0: k.broadcast = !k.broadcast; did = "broadcast"; break;
      case 1:
        if (k.proto == psi::v2::PROTOCOL_ECDH) { k.batch = k.batch + 2; did = "batch"; }
        else { k.bucket = k.bucket + 5; did = "bucket"; }
        break;
      case 2:
        if (k.proto == psi::v2::PROTOCOL_ECDH) { k.curve = k.curve == psi::CURVE_SM2 ? psi::CURVE_25519 : psi::CURVE_SM2; did = "curve"; }
        else { k.proto = psi::v2::PROTOCOL_ECDH; did = "protocol"; }
        break;
      default:
        using PC = psi::v2::PsiConfig;
        k.join = k.join == PC::ADVANCED_JOIN_TYPE_FULL_JOIN ? PC::ADVANCED_JOIN_TYPE_INNER_JOIN : PC::ADVANCED_JOIN_TYPE_FULL_JOIN;
        if (k.left == psi::v2::ROLE_UNSPECIFIED) k.left = psi::v2::ROLE_SENDER;
        did = "join";
    }
  }
  c.describe(j.Text() + (complete ? " complete " : " " + f.Text() + " ") + did);
  WriteInputs(k, c.dir);
  auto p = PathsOf(c.dir);
  for (int i = 0; i < 2; ++i) std::filesystem::remove(p.out[i]);
  auto w = MakeWorld();
  w.hub->recv_timeout_ms = 15000;
  auto got = RunJob(k, c.dir, &w);
  const char* nm[2] = {"receiver", "sender"};
  if (complete) {
    for (int i = 0; i < 2; ++i)
      c.check(!got[i].done && !got[i].has_output, "changed-run-accepted", "{} after {} [{}]", nm[i], did, j.Text());
    c.event("changed resumes refused");
    return;
  }
  // An interruption before anything was recorded leaves an ordinary new run.
  if (got[0].done || got[1].done) {
    Judge(c, k, Expect(k), got, "changed-");
    c.event("changed resumes completed afresh");
  } else {
    for (int i = 0; i < 2; ++i)
      c.check(!got[i].has_output, "changed-run-wrote-output", "{} after {} [{}]", nm[i], did, j.Text());
    c.event("changed resumes refused");
  }
}
}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"kill", Kill}, {"full", Full}, {"recover", Recover}, {"changed", Changed}});
}
