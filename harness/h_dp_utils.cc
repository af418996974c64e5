// Differential-privacy calibration: the returned parameters must satisfy the
// equations that define them, evaluated independently in long double.
#include <cmath>

#include "vh.h"
#include "psi/legacy/dp_psi/dp_psi_utils.h"

namespace {
using namespace psi::dp_psi;
using LD = long double;

LD Keep(LD e2) { LD a = std::exp(e2); return a / (1 + a); }
LD Eps1(LD n, LD e2) {
  LD d1 = 1 / (10 * n), p = Keep(e2);
  LD m = n * p - std::sqrt(2 * n * p * std::log(2 / d1));
  return std::sqrt(32 * std::log(4 / d1) / m) * (1 - (n * p - m) / n);
}
void Epsilon(vh::Case& c) {
  auto& r = c.rng;
  size_t n = r.chance(0.2) ? (size_t{1} << r.range(11, 34)) : static_cast<size_t>(std::exp(std::log(2000.0) + (r.below(100000) / 1e5) * std::log(1e7)));
  c.describe(fmt::format("n={}", n));
  double e2p = 2.5 + r.below(1500) / 1000.0;
  double e1 = ComputeEpsilon1(n, e2p);
  LD w1 = Eps1(n, e2p);
  c.check(std::abs(e1 - w1) <= 1e-9L * (1 + std::abs(w1)), "epsilon1", "n={} eps2={} got {} want {}", n, e2p, e1, (double)w1);
  double pk = ComputePSubKeep(e2p);
  c.check(std::abs(pk - Keep(e2p)) < 1e-12L, "psubkeep", "{} got {}", e2p, pk);
  c.check(pk > 0.5 && pk < 1, "psubkeep-range", "{} got {}", e2p, pk);
  // A solution inside the search interval must exist before one is asked for.
  double eps = r.chance(0.6) ? kEpsilonPsi : 2.9 + r.below(1100) / 1000.0;
  LD lo = Eps1(n, 2.5L) + 2.5L, hi = Eps1(n, (LD)kEpsilonPsi) + kEpsilonPsi;
  c.event("epsilon1 values checked");
  if (!(lo < eps - 1e-6L && eps + 1e-6L < hi)) { c.event("no solution for n, not asked"); return; }
  double e2 = eps == kEpsilonPsi && r.chance(0.5) ? ComputeEpsilon2(n) : ComputeEpsilon2(n, eps);
  LD total = Eps1(n, e2) + e2;
  c.check(e2 > 2.5 && e2 < kEpsilonPsi, "epsilon2-range", "n={} eps={} got {}", n, eps, e2);
  c.check(std::abs(total - eps) <= 1e-9L, "budget", "n={} eps={} eps2={} eps1+eps2={}", n, eps, e2, (double)total);
  c.event("privacy budgets solved");
  // a larger set has a smaller eps1 at the same eps2
  double e1b = ComputeEpsilon1(n * 2, e2p);
  c.check(e1b < e1, "epsilon1-monotone", "n={} {} 2n {}", n, e1, e1b);
}
LD PhiL(LD t) { return 0.5L * std::erfc(-t / std::sqrt(2.0L)); }
void Gaussian(vh::Case& c) {
  auto& r = c.rng;
  double eps = std::exp(std::log(0.05) + r.below(100000) / 1e5 * std::log(100.0));  // 0.05 .. 5
  double delta = r.chance(0.3) ? 0.05 + r.below(900) / 1000.0 : std::pow(10.0, -1.0 - r.below(6000) / 1000.0);
  double gs = std::exp((static_cast<double>(r.below(2000)) / 1000.0 - 1) * 3);
  // default tolerance 1e-12 for the larger deltas
  bool dflt = r.chance(0.5);
  double tol = dflt ? kErrorRate : std::pow(10.0, -r.range(9, 12));
  c.describe(fmt::format("eps={:.4g} delta={:.4g} gs={:.4g} tol={:.1g}", eps, delta, gs, tol));
  double sigma = dflt ? CalibrateAnalyticGaussianMechanism(eps, delta, gs) : CalibrateAnalyticGaussianMechanism(eps, delta, gs, tol);
  c.check(std::isfinite(sigma) && sigma > 0, "sigma-invalid", "sigma={}", sigma);
  LD a = gs / (2.0L * sigma), b = static_cast<LD>(eps) * sigma / gs;
  LD got = PhiL(a - b) - std::exp((LD)eps) * PhiL(-a - b);
  // within 1e-5 of the threshold between the two branches the code snaps
  LD thr = PhiL(0) - std::exp((LD)eps) * PhiL(-std::sqrt(2.0L * eps));
  bool snap = std::abs(delta - thr) < 1.01e-5L;
  LD slack = snap ? 1.1e-5L : std::max<LD>(10 * tol, 1e-10L);
  c.check(std::abs(got - delta) <= slack, "delta-not-met", "eps={} delta={} gs={} sigma={} gives delta={}", eps, delta, gs, sigma, (double)got);
  double s2 = CalibrateAnalyticGaussianMechanism(eps, delta, gs * 2, tol);
  c.check(std::abs(s2 - 2 * sigma) <= 1e-3 * sigma || snap, "sensitivity-scaling", "gs={} sigma={} at 2gs {}", gs, sigma, s2);
  if (delta * 2 < 0.9 && !snap && std::abs(2 * delta - thr) > 2e-5L) {
    double s3 = CalibrateAnalyticGaussianMechanism(eps, delta * 2, gs, tol);
    c.check(s3 < sigma, "delta-monotone", "delta={} sigma={} at 2delta {}", delta, sigma, s3);
  }
  c.event(delta > (double)thr ? "calibrations above threshold" : "calibrations below threshold");
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"epsilon", Epsilon}, {"gaussian", Gaussian}});
}
