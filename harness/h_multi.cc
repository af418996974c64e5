// Multi-party intersection: every protocol, choice of parties and receiver.
#include <future>

#include "experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.h"
#include "psi/algorithm/nty/nty_mp_psi.h"
#include "psi/legacy/memory_psi.h"
#include "world.h"

namespace {
using namespace vw;
using Items = std::vector<std::string>;

// n lists of distinct items; the intersection of all lists is empty, all of
// the smallest list, or anything in between.
std::vector<Items> GenSets(vh::Rng& r, size_t n, size_t max_items, bool allow_empty) {
  size_t kinds = r.below(6);
  size_t uni = 1 + r.below(max_items);
  std::set<std::string> all;
  static const std::string kAll = [] { std::string s; for (int i = 0; i < 256; ++i) s.push_back(char(i)); return s; }();
  while (all.size() < uni + n) {
    switch (r.below(5)) {
      case 0: all.insert(std::to_string(r.below(uni * 3 + n * 2))); break;
      case 1: all.insert(r.str(r.range(1, 40))); break;
      case 2: all.insert(r.str(r.range(1, 20), kAll)); break;
      case 3: all.insert("prefix-" + std::to_string(r.below(uni * 3 + n))); break;
      default: all.insert(r.bytes(16));
    }
  }
  Items u(all.begin(), all.end());
  r.shuffle(u);
  std::vector<Items> sets(n);
  for (size_t p = 0; p < n; ++p) {
    double keep = kinds == 0 ? 1 : kinds == 1 ? 0.95 : kinds == 2 ? 0.6 : kinds == 3 ? (p ? 1.0 : 0.2) : kinds == 4 ? 0.8 : r.below(11) / 10.0;
    for (size_t i = 0; i < uni; ++i)
      if (r.chance(keep)) sets[p].push_back(u[i]);
    if (sets[p].empty() && !(allow_empty && r.chance(0.5))) sets[p].push_back(u[uni + (r.chance(0.5) ? p : 0)]);
  }
  if (kinds == 4) {  // common to all but one party
    for (auto& s : sets) if (std::find(s.begin(), s.end(), u[0]) == s.end()) s.push_back(u[0]);
    auto& s = sets[r.below(n)];
    s.erase(std::find(s.begin(), s.end(), u[0]));
    if (s.empty()) s.push_back(u[uni]);
  }
  for (auto& s : sets) r.shuffle(s);
  return sets;
}
std::set<std::string> Common(const std::vector<Items>& sets) {
  std::set<std::string> c(sets[0].begin(), sets[0].end());
  for (size_t i = 1; i < sets.size(); ++i) {
    std::set<std::string> s(sets[i].begin(), sets[i].end()), n;
    std::set_intersection(c.begin(), c.end(), s.begin(), s.end(), std::inserter(n, n.end()));
    c.swap(n);
  }
  return c;
}
uint64_t HashOf(const std::vector<Items>& sets) {
  uint64_t h = sets.size();
  for (auto& s : sets) { h = vh::Mix(h ^ s.size()); for (auto& i : s) h = vh::Mix(h ^ std::hash<std::string>()(i)); }
  return h;
}
std::string Shape(const std::vector<Items>& sets) {
  std::string t;
  for (auto& s : sets) t += (t.empty() ? "" : "/") + std::to_string(s.size());
  return t;
}
// `got[p]` against the common items; parties with entitled[p] false get nothing.
void JudgeSets(vh::Case& c, const std::string& name, const std::vector<Items>& sets, const std::vector<std::string>& err,
               const std::vector<Items>& got, const std::vector<bool>& entitled) {
  auto want = Common(sets);
  for (size_t p = 0; p < sets.size(); ++p) {
    if (!err[p].empty()) { c.fail(name + (vh::Stalled(err[p]) ? ":stalled" : ":error"), fmt::format("party {}: {} [{}]", p, err[p].substr(0, 300), c.desc)); continue; }
    std::set<std::string> g(got[p].begin(), got[p].end());
    if (!c.check(g.size() == got[p].size(), name + ":repeated-items", "party {}: {} items, {} distinct [{}]", p, got[p].size(), g.size(), c.desc)) continue;
    if (!entitled[p]) {
      c.check(g.empty(), name + ":result-not-entitled", "party {} got {} items [{}]", p, g.size(), c.desc);
      c.event("parties without result");
      continue;
    }
    c.event("results compared");
    c.event("common items", want.size());
    if (g == want) continue;
    size_t miss = 0, extra = 0;
    for (auto& x : want) miss += !g.count(x);
    for (auto& x : g) extra += !want.count(x);
    c.fail(name + (miss ? extra ? ":missing-and-extra" : ":missing" : ":extra"), fmt::format("party {}: want {}, missing {}, extra {} [{}]", p, want.size(), miss, extra, c.desc));
  }
}

void Memory(vh::Case& c) {  // operators behind the list interface
  auto& r = c.rng;
  psi::MemoryPsiConfig cfg;
  psi::PsiType type = r.pick({psi::ECDH_PSI_3PC, psi::ECDH_PSI_3PC, psi::ECDH_PSI_NPC, psi::ECDH_PSI_NPC, psi::KKRT_PSI_NPC});
  size_t n = type == psi::ECDH_PSI_3PC ? 3 : r.range(2, 7);
  cfg.set_psi_type(type);
  cfg.set_receiver_rank(r.below(n));
  cfg.set_broadcast_result(r.chance(0.5));
  if (r.chance(0.6)) cfg.set_curve_type(r.pick({psi::CURVE_25519, psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_SECP256K1, psi::CURVE_25519_ELLIGATOR2}));
  auto sets = GenSets(r, n, r.chance(0.15) ? 300 : 25, r.chance(0.2));
  c.describe(fmt::format("{} n={} sizes={} receiver={} broadcast={} curve={} {:x}", psi::PsiType_Name(type), n, Shape(sets), cfg.receiver_rank(), cfg.broadcast_result(), int(cfg.curve_type()), HashOf(sets)));
  auto w = MakeWorld(n);
  std::vector<Items> got(n);
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(n);
  for (size_t p = 0; p < n; ++p) f[p] = [&, p](auto& l) { got[p] = psi::MemoryPsi(cfg, l).Run(sets[p]); };
  auto err = RunRanks(w, f);
  std::vector<bool> ent(n);
  for (size_t p = 0; p < n; ++p) ent[p] = cfg.broadcast_result() || p == cfg.receiver_rank();
  JudgeSets(c, psi::PsiType_Name(type), sets, err, got, ent);
}

void Nty(vh::Case& c) {
  auto& r = c.rng;
  size_t n = r.pick({3, 3, 4, 5, 6});
  std::vector<size_t> role(n);
  for (size_t i = 0; i < n; ++i) role[i] = i;
  r.shuffle(role);
  bool bc = r.chance(0.5);
  size_t threads = r.below(4);
  auto raw = GenSets(r, n, r.chance(0.15) ? 600 : 30, false);
  std::map<std::string, uint128_t> ids;
  std::map<uint128_t, std::string> back;
  size_t kind = r.below(3);
  for (auto& s : raw) for (auto& x : s) if (!ids.count(x)) {
    uint128_t v;
    do {
      v = kind == 0 ? (uint128_t(r.u64()) << 64 | r.u64()) : kind == 1 ? uint128_t(r.below(5000)) : uint128_t(r.below(5000)) << r.below(100);
    } while (back.count(v));
    ids[x] = v; back[v] = x;
  }
  c.describe(fmt::format("nty n={} sizes={} roles={}/{}/{} broadcast={} threads={} ids={} {:x}", n, Shape(raw), role[0], role[1], role[2], bc, threads, kind, HashOf(raw)));
  auto w = MakeWorld(n);
  std::vector<Items> got(n);
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(n);
  for (size_t p = 0; p < n; ++p) f[p] = [&, p](auto& l) {
    psi::nty::NtyMPsiOptions o(threads, role[0], role[1], role[2], bc);
    o.link_ctx = l;
    psi::nty::NtyMPsi party(o);
    std::vector<uint128_t> in;
    for (auto& x : raw[p]) in.push_back(ids[x]);
    for (auto v : party.Run(in)) got[p].push_back(back.count(v) ? back[v] : "unknown " + vh::Hex({reinterpret_cast<char*>(&v), 16}));
  };
  auto err = RunRanks(w, f);
  std::vector<bool> ent(n);
  for (size_t p = 0; p < n; ++p) ent[p] = bc || p == role[2];
  JudgeSets(c, n == 3 ? "nty3" : "ntyN", raw, err, got, ent);
}

void Kmprt(vh::Case& c) {
  auto& r = c.rng;
  size_t n = r.range(2, 5);
  size_t leader = r.below(n);
  auto sets = GenSets(r, n, r.chance(0.1) ? 120 : 25, false);
  c.describe(fmt::format("kmprt n={} sizes={} leader={} {:x}", n, Shape(sets), leader, HashOf(sets)));
  auto w = MakeWorld(n);
  std::vector<Items> got(n);
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(n);
  for (size_t p = 0; p < n; ++p) f[p] = [&, p](auto& l) {
    got[p] = psi::psi::KmprtParty({l, leader}).Run(sets[p]);
  };
  auto err = RunRanks(w, f);
  std::vector<bool> ent(n);
  ent[leader] = true;
  JudgeSets(c, "kmprt", sets, err, got, ent);
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"memory", Memory}, {"nty", Nty}, {"kmprt", Kmprt}});
}
