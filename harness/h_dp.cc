// Differentially private intersection: accounting of what is output.
#include <cmath>

#include "psi/legacy/dp_psi/dp_psi.h"
#include "psi/legacy/memory_psi.h"
#include "world.h"

namespace {
using namespace vw;
using Items = std::vector<std::string>;

struct Sets { Items a, b; std::set<std::string> common; };
Sets GenSets(vh::Rng& r, size_t uni) {
  Sets s;
  std::set<std::string> all;
  while (all.size() < uni) all.insert(r.chance(0.5) ? std::to_string(r.below(uni * 4)) : r.bytes(r.range(1, 20)));
  Items u(all.begin(), all.end());
  r.shuffle(u);
  double pa = r.pick({0.9, 0.5, 0.1, 1.0, 0.0}), pb = r.pick({0.9, 0.5, 0.1, 1.0});
  for (auto& x : u) {
    bool ia = r.chance(pa), ib = r.chance(pb);
    if (ia) s.a.push_back(x);
    if (ib) s.b.push_back(x);
    if (ia && ib) s.common.insert(x);
  }
  if (s.a.empty()) s.a.push_back("only a");
  if (s.b.empty()) s.b.push_back("only b");
  r.shuffle(s.b);
  return s;
}
// Draws of n at rate p that came out k: false alarms below 1e-12.
bool Plausible(size_t n, double p, size_t k) {
  p = std::min(1.0, std::max(0.0, p));
  return std::abs(double(k) - n * p) <= 7.5 * std::sqrt(n * p * (1 - p)) + (p == 0 || p == 1 ? 0 : 14);
}

void Accounting(vh::Case& c) {
  auto& r = c.rng;
  bool stats = r.chance(0.05);
  auto s = GenSets(r, stats ? 3000 : r.chance(0.1) ? 400 : 1 + r.below(60));
  double p1 = r.pick({1.0, 1.0, 0.9, 0.5, 0.1, 0.0}), eps = r.pick({3.0, 0.0, 1.0, 60.0, 60.0, 800.0, -60.0, 0.5});
  auto curve = r.pick({psi::CURVE_25519, psi::CURVE_25519, psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_SECP256K1, psi::CURVE_25519_ELLIGATOR2});
  size_t bob = r.below(2);
  c.describe(fmt::format("dp a={} b={} common={} p1={} eps={} curve={} bob={} {:x}", s.a.size(), s.b.size(), s.common.size(), p1, eps, int(curve), bob, c.seed));
  psi::dp_psi::DpPsiOptions o(p1, eps);
  c.check(std::abs(o.p2 + o.q - 1) < 1e-9 && std::abs(o.p2 - 1 / (1 + std::exp(-eps))) < 1e-9 && o.p2 >= 0 && o.p2 <= 1, "dp:rates", "eps={} p2={} q={}", eps, o.p2, o.q);
  auto w = MakeWorld(2);
  size_t asub = 0, aup = 0, bsub = 0, asize = 0;
  std::vector<size_t> idx;
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(2);
  f[bob] = [&](auto& l) { idx = psi::dp_psi::RunDpEcdhPsiBob(o, l, s.b, &bsub, curve); };
  f[1 - bob] = [&](auto& l) { asize = psi::dp_psi::RunDpEcdhPsiAlice(o, l, s.a, &asub, &aup, curve); };
  auto err = RunRanks(w, f);
  for (int p = 0; p < 2; ++p)
    if (!err[p].empty()) c.fail(vh::Stalled(err[p]) ? "dp:stalled" : "dp:error", err[p].substr(0, 300) + " [" + c.desc + "]");
  if (c.failed()) return;
  c.event("dp runs accounted for");
  c.check(idx.size() == asize, "dp:sizes-differ", "{} positions, the peer says {} [{}]", idx.size(), asize, c.desc);
  std::set<size_t> d(idx.begin(), idx.end());
  c.check(d.size() == idx.size() && (d.empty() || *d.rbegin() < s.b.size()), "dp:positions", "{} of {} distinct, last {} of {} [{}]", d.size(), idx.size(), d.empty() ? 0 : *d.rbegin(), s.b.size(), c.desc);
  c.check(std::is_sorted(idx.begin(), idx.end()), "dp:unsorted", "[{}]", c.desc);
  if (c.failed()) return;
  size_t real = 0, fake = 0;
  for (auto i : d) (s.common.count(s.b[i]) ? real : fake)++;
  c.event("common items output", real);
  c.event("added items output", fake);
  size_t sampled = s.b.size() - bsub;  // what bob offered
  if (!c.check(bsub <= s.b.size(), "dp:bob-sampling", "{} dropped of {} [{}]", bsub, s.b.size(), c.desc)) return;
  c.check(Plausible(s.b.size(), p1, sampled), "dp:bob-rate", "{} kept of {} at {} [{}]", sampled, s.b.size(), p1, c.desc);
  size_t others = s.b.size() - s.common.size();
  bool all_common = p1 == 1.0 ? others == 0 : asize == 0 && asub == 0 && aup == 0;  // empty result instead
  if (p1 == 1.0 && others == 0) {
    c.check(idx.empty(), "dp:result-without-cover", "{} [{}]", idx.size(), c.desc);
    c.event("nothing to hide among");
    return;
  }
  c.check(fake == aup, "dp:added", "{} output, {} added [{}]", fake, aup, c.desc);
  if (!all_common) {
    c.check(real + asub <= s.common.size() && real + asub + bsub >= s.common.size(), "dp:common", "{} output, {} and {} dropped, {} common [{}]", real, asub, bsub, s.common.size(), c.desc);
    if (p1 == 1.0) {
      c.check(Plausible(s.common.size(), o.p2, real), "dp:alice-rate", "{} kept of {} at {} [{}]", real, s.common.size(), o.p2, c.desc);
      c.check(Plausible(others, o.q, fake), "dp:alice-up-rate", "{} added of {} at {} [{}]", fake, others, o.q, c.desc);
      if (stats) c.event("rates checked on large sets");
    }
  }
  if (p1 == 1.0 && eps >= 60) {
    c.check(real == s.common.size() && fake == 0, "dp:full", "{} of {} common, {} others [{}]", real, s.common.size(), fake, c.desc);
    c.event("exact intersections");
  }
  if (p1 == 0.0) {
    c.check(idx.empty(), "dp:empty", "{} [{}]", idx.size(), c.desc);
    c.event("empty results");
  }
  if (p1 == 1.0 && eps <= -60) c.check(real == 0 && fake == others, "dp:complement", "{} {} [{}]", real, fake, c.desc);
}

void Operator(vh::Case& c) {  // through the list interface
  auto& r = c.rng;
  auto s = GenSets(r, 1 + r.below(60));
  psi::MemoryPsiConfig cfg;
  cfg.set_psi_type(psi::DP_PSI_2PC);
  size_t rec = r.below(2);
  cfg.set_receiver_rank(rec);
  bool bc = r.chance(0.5), exact = r.chance(0.7);
  cfg.set_broadcast_result(bc);
  if (exact) {
    cfg.mutable_dppsi_params()->set_bob_sub_sampling(1.0);
    cfg.mutable_dppsi_params()->set_epsilon(r.pick({60.0, 800.0}));
  } else if (r.chance(0.5)) {
    cfg.mutable_dppsi_params()->set_bob_sub_sampling(0.5);
    cfg.mutable_dppsi_params()->set_epsilon(1);
  }
  if (r.chance(0.4)) cfg.set_curve_type(r.pick({psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_SECP256K1}));
  c.describe(fmt::format("dp operator a={} b={} common={} exact={} receiver={} broadcast={} curve={} {:x}", s.a.size(), s.b.size(), s.common.size(), exact, rec, bc, int(cfg.curve_type()), c.seed));
  auto w = MakeWorld(2);
  Items got[2];
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(2);
  for (size_t p = 0; p < 2; ++p) f[p] = [&, p](auto& l) { got[p] = psi::MemoryPsi(cfg, l).Run(p == rec ? s.b : s.a); };
  auto err = RunRanks(w, f);
  for (int p = 0; p < 2; ++p)
    if (!err[p].empty()) c.fail(vh::Stalled(err[p]) ? "dp-operator:stalled" : "dp-operator:error", err[p].substr(0, 300) + " [" + c.desc + "]");
  if (c.failed()) return;
  std::set<std::string> b(s.b.begin(), s.b.end()), g(got[rec].begin(), got[rec].end());
  c.check(g.size() == got[rec].size(), "dp-operator:repeated", "[{}]", c.desc);
  for (auto& x : g) c.check(b.count(x), "dp-operator:foreign-item", "[{}]", c.desc);
  if (exact) {
    bool cover = s.common.size() < s.b.size();
    c.check(g == (cover ? s.common : std::set<std::string>()), "dp-operator:full", "{} of {} [{}]", g.size(), s.common.size(), c.desc);
    c.event("exact operator results");
  }
  if (bc) c.check(got[1 - rec] == got[rec], "dp-operator:broadcast", "{} / {} [{}]", got[1 - rec].size(), got[rec].size(), c.desc);
  else c.check(got[1 - rec].empty(), "dp-operator:result-not-entitled", "[{}]", c.desc);
  c.event("operator results compared");
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"accounting", Accounting}, {"operator", Operator}});
}
