// The oblivious key-value store: what is put in comes out, and the algebra
// below it is exact.
#include <algorithm>
#include <cmath>
#include <cstring>

#include "absl/types/span.h"
#include "psi/algorithm/rr22/okvs/aes_crhash.h"
#include "psi/algorithm/rr22/okvs/baxos.h"
#include "psi/algorithm/rr22/okvs/dense_mtx.h"
#include "psi/algorithm/rr22/okvs/galois128.h"
#include "psi/algorithm/rr22/okvs/paxos.h"
#include "vh.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/tools/prg.h"

using namespace psi::rr22::okvs;
namespace {
using U = uint128_t;
U R128(vh::Rng& r) { return (U(r.u64()) << 64) | r.u64(); }

// Field elements with few and many bits, at both ends.
U AnyField(vh::Rng& r) {
  switch (r.below(5)) {
    case 0: return r.below(4);
    case 1: return U(1) << r.below(128);
    case 2: return ~U(0) - r.below(3);
    case 3: return ~U(0) << r.below(128);
    default: return R128(r);
  }
}
// Schoolbook product in GF(2)[x] / x^128 + x^7 + x^2 + x + 1.
U FieldMul(U a, U b) {
  U lo = 0, hi = 0;
  for (int i = 0; i < 128; ++i)
    if ((b >> i) & 1) { lo ^= a << i; if (i) hi ^= a >> (128 - i); }
  for (int i = 127; i >= 0; --i)
    if ((hi >> i) & 1) {
      for (int k : {7, 2, 1, 0}) {
        int at = i + k;
        if (at >= 128) hi ^= U(1) << (at - 128); else lo ^= U(1) << at;
      }
    }
  return lo;
}
U V(Galois128 g) { return g.get<U>(0); }

std::vector<U> Keys(vh::Rng& r, size_t n) {
  std::set<U> s;
  U base = R128(r);
  int shape = r.below(4);
  while (s.size() < n) {
    if (shape == 0) s.insert(s.size());                                     // 0, 1, 2 ...
    else if (shape == 1) s.insert(base ^ (U(s.size()) << 64));              // differ in the upper half only
    else s.insert(R128(r));
  }
  std::vector<U> v(s.begin(), s.end());
  r.shuffle(v);
  return v;
}
std::vector<U> Values(vh::Rng& r, size_t n) {
  std::vector<U> v(n);
  int shape = r.below(4);
  for (auto& x : v) x = shape == 0 ? U(0) : shape == 1 ? AnyField(r) : R128(r);
  return v;
}

template <class T> bool Same(const std::vector<T>& a, const std::vector<T>& b) { return a == b; }

template <class I>
void OnePaxos(vh::Case& c, size_t n, size_t w, size_t ssp, PaxosParam::DenseType dt) {
  auto& r = c.rng;
  PaxosParam pp(n, w, ssp, dt);
  if (pp.sparse_size >= std::numeric_limits<I>::max()) { c.trivial(); return; }
  auto keys = Keys(r, n);
  auto vals = Values(r, n);
  U seed = R128(r);
  bool rnd = r.chance(0.5);
  bool u64 = dt == PaxosParam::DenseType::Binary && r.chance(0.4);
  bool twice = r.chance(0.3);
  c.describe(fmt::format("paxos n={} w={} ssp={} binary={} idx={} random={} u64={} twice={} {:x}", n, w, ssp, dt == PaxosParam::DenseType::Binary, sizeof(I), rnd, u64, twice, c.seed));
  auto prng = rnd ? std::make_shared<yacl::crypto::Prg<uint8_t>>(R128(r)) : nullptr;
  Paxos<I> p;
  p.Init(n, w, ssp, dt, seed);
  c.check(p.size() >= n && p.size() == p.sparse_size + p.dense_size, "okvs:size", "{} positions for {} keys", p.size(), n);
  std::vector<U> store(p.size()), got(n);
  std::vector<uint64_t> v64(n), s64(p.size()), g64(n);
  for (size_t i = 0; i < n; ++i) v64[i] = uint64_t(vals[i]);
  auto what = vh::Thrown([&] {
    p.SetInput(absl::MakeSpan(keys));
    if (u64) p.EncodeU64(absl::MakeSpan(v64), absl::MakeSpan(s64), prng);
    else p.Encode(absl::MakeSpan(vals), absl::MakeSpan(store), prng);
    if (twice) {  // "after that, encode can be called more than once"
      p.SetInput(absl::MakeSpan(keys));
      vals = Values(r, n);
      for (size_t i = 0; i < n; ++i) v64[i] = uint64_t(vals[i]);
      std::fill(store.begin(), store.end(), 0);
      std::fill(s64.begin(), s64.end(), 0);
      if (u64) p.EncodeU64(absl::MakeSpan(v64), absl::MakeSpan(s64), prng);
      else p.Encode(absl::MakeSpan(vals), absl::MakeSpan(store), prng);
    }
  });
  if (dt == PaxosParam::DenseType::Binary && p.dense_size > 64) {  // documented limit of the binary kind
    c.check(!what.empty(), "okvs:too-wide", "{} dense columns accepted [{}]", p.dense_size, c.desc);
    return;
  }
  if (!c.check(what.empty(), "okvs:encode-error", "{} [{}]", what.substr(0, 200), c.desc)) return;
  // Another object, as the receiving party has it, decodes.
  Paxos<I> q;
  q.Init(n, w, ssp, dt, seed);
  if (u64) { q.DecodeU64(absl::MakeSpan(keys), absl::MakeSpan(g64), absl::MakeSpan(s64)); c.check(Same(g64, v64), "okvs:paxos-u64", "values differ [{}]", c.desc); }
  else { q.Decode(absl::MakeSpan(keys), absl::MakeSpan(got), absl::MakeSpan(store)); c.check(Same(got, vals), "okvs:paxos", "values differ [{}]", c.desc); }
  // In pieces and in another order.
  std::vector<size_t> ord(n);
  for (size_t i = 0; i < n; ++i) ord[i] = i;
  r.shuffle(ord);
  for (size_t at = 0, pieces = 0; at < n && pieces < 12; ++pieces) {
    size_t k = std::min<size_t>(n - at, r.pick({size_t(1), size_t(31), size_t(32), size_t(33), size_t(1 + r.below(100))}));
    std::vector<U> ks(k), vs(k);
    std::vector<uint64_t> ws(k);
    for (size_t i = 0; i < k; ++i) ks[i] = keys[ord[at + i]];
    if (u64) q.DecodeU64(absl::MakeSpan(ks), absl::MakeSpan(ws), absl::MakeSpan(s64));
    else q.Decode(absl::MakeSpan(ks), absl::MakeSpan(vs), absl::MakeSpan(store));
    for (size_t i = 0; i < k; ++i)
      if (!c.check(u64 ? ws[i] == v64[ord[at + i]] : vs[i] == vals[ord[at + i]], "okvs:pieces", "value {} of a piece of {} [{}]", i, k, c.desc)) return;
    at += k;
  }
  c.event("keys answered", n);
  c.event(u64 ? "64-bit stores" : "128-bit stores");
  // Randomised: every position, also one no key uses, holds something random.
  if (rnd) {
    size_t zero = u64 ? std::count(s64.begin(), s64.end(), 0ull) : std::count(store.begin(), store.end(), U(0));
    c.check(zero == 0, "okvs:unset-positions", "{} of {} positions of a randomised store are zero [{}]", zero, p.size(), c.desc);
    c.event("randomised stores");
  }
  // A key that was not inserted gets an unrelated answer.
  if (!u64 && rnd) {
    std::vector<U> ks(40), vs(40);
    for (auto& k : ks) k = R128(r);
    q.Decode(absl::MakeSpan(ks), absl::MakeSpan(vs), absl::MakeSpan(store));
    std::set<U> d(vs.begin(), vs.end()), in(vals.begin(), vals.end());
    c.check(d.size() == ks.size(), "okvs:foreign-keys", "{} different answers to {} foreign keys [{}]", d.size(), ks.size(), c.desc);
    for (auto& v : vs) if (!c.check(!in.count(v), "okvs:foreign-keys", "a foreign key decodes to a stored value [{}]", c.desc)) return;
    c.event("foreign keys", ks.size());
  }
}

void PaxosScn(vh::Case& c) {
  auto& r = c.rng;
  size_t w = r.chance(0.7) ? 3 : r.pick({2, 4, 5});
  size_t n = r.chance(0.5) ? r.range(20, 150) : r.chance(0.9) ? r.range(20, 1500) : r.range(1500, 6000);
  size_t lo = w == 2 ? 20 : 4;
  if (r.chance(0.15)) n = r.range(lo, 20);
  auto dt = r.chance(0.5) ? PaxosParam::DenseType::Binary : PaxosParam::DenseType::GF128;
  size_t ssp = r.chance(0.8) ? 40 : 30;
  switch (r.below(4)) {
    case 0: n = std::min<size_t>(n, 100); return OnePaxos<uint8_t>(c, n, w, ssp, dt);
    case 1: return OnePaxos<uint16_t>(c, n, w, ssp, dt);
    case 2: return OnePaxos<uint32_t>(c, n, w, ssp, dt);
    default: return OnePaxos<uint64_t>(c, n, w, ssp, dt);
  }
}

void BaxosScn(vh::Case& c) {
  auto& r = c.rng;
  size_t n = r.chance(0.6) ? r.range(30, 800) : r.chance(0.9) ? r.range(300, 5000) : r.range(5000, 20000);
  size_t bin = r.pick({n, n * 2, n / 2 + 1, n / 4 + 1, std::max<size_t>(20, n / 8), size_t(64), size_t(1) << 14});
  size_t threads = r.pick({0, 1, 1, 2, 3, 4, 7}), dthreads = r.pick({0, 1, 2, 3, 4, 7});
  auto dt = r.chance(0.3) ? PaxosParam::DenseType::Binary : PaxosParam::DenseType::GF128;
  bool rnd = r.chance(0.6);
  U seed = R128(r);
  c.describe(fmt::format("baxos n={} bin={} threads={}/{} binary={} random={} {:x}", n, bin, threads, dthreads, dt == PaxosParam::DenseType::Binary, rnd, c.seed));
  auto keys = Keys(r, n);
  auto vals = Values(r, n);
  auto prng = rnd ? std::make_shared<yacl::crypto::Prg<uint8_t>>(R128(r)) : nullptr;
  Baxos b, q;
  b.Init(n, bin, 3, 40, dt, seed);
  q.Init(n, bin, 3, 40, dt, seed);
  std::vector<U> store(b.size()), got(n);
  auto what = vh::Thrown([&] { b.Solve(absl::MakeSpan(keys), absl::MakeSpan(vals), absl::MakeSpan(store), prng, threads); });
  if (!c.check(what.empty(), "okvs:solve-error", "{} [{}]", what.substr(0, 200), c.desc)) return;
  q.Decode(absl::MakeSpan(keys), absl::MakeSpan(got), absl::MakeSpan(store), dthreads);
  c.check(Same(got, vals), "okvs:baxos", "values differ [{}]", c.desc);
  // Fewer or foreign keys, one or many threads: the same answers.
  std::vector<U> ks, a, d;
  size_t k = 1 + r.below(n);
  for (size_t i = 0; i < k; ++i) ks.push_back(r.chance(0.5) ? r.pick(keys) : R128(r));
  a.resize(k);
  d.resize(k);
  q.Decode(absl::MakeSpan(ks), absl::MakeSpan(a), absl::MakeSpan(store), 1);
  q.Decode(absl::MakeSpan(ks), absl::MakeSpan(d), absl::MakeSpan(store), 1 + r.below(6));
  c.check(Same(a, d), "okvs:decode-threads", "answers depend on the number of threads [{}]", c.desc);
  std::map<U, U> of;
  for (size_t i = 0; i < n; ++i) of[keys[i]] = vals[i];
  for (size_t i = 0; i < k; ++i)
    if (of.count(ks[i]) && !c.check(a[i] == of[ks[i]], "okvs:subset", "key {} of {} [{}]", i, k, c.desc)) return;
  c.event("keys answered", n);
  c.event(b.num_bins_ > 1 ? "stores in several bins" : "stores in one bin");
  if (threads > 1 && b.num_bins_ > 1) c.event("solved by several threads");
  if (rnd) {
    size_t zero = std::count(store.begin(), store.end(), U(0));
    c.check(zero == 0, "okvs:unset-positions", "{} of {} positions of a randomised store are zero [{}]", zero, store.size(), c.desc);
    std::set<U> uniq(store.begin(), store.end());
    c.check(uniq.size() == store.size(), "okvs:repeated-positions", "{} different among {} positions of a randomised store [{}]", uniq.size(), store.size(), c.desc);
    c.event("randomised stores");
  }
}

void Algebra(vh::Case& c) {
  auto& r = c.rng;
  c.describe(fmt::format("algebra {:x}", c.seed));
  for (int k = 0; k < 40; ++k) {
    U a = AnyField(r), b = AnyField(r);
    U want = FieldMul(a, b);
    c.check(V(Galois128(a) * Galois128(b)) == want, "gf128:mul", "{:x},{:x}", uint64_t(a), uint64_t(b));
    c.check(V(Galois128(a) * b) == want, "gf128:mul-int", "{:x},{:x}", uint64_t(a), uint64_t(b));
    c.check(cc_gf128Mul(a, b) == want, "gf128:mul-portable", "{:x},{:x}", uint64_t(a), uint64_t(b));
    if (a) c.check(FieldMul(V(Galois128(a).Inv()), a) == 1, "gf128:inv", "{:x}", uint64_t(a));
    uint64_t e = r.below(70);
    U p = 1;
    for (uint64_t i = 0; i < e; ++i) p = FieldMul(p, a);
    if (a) c.check(V(Galois128(a).Pow(e)) == p, "gf128:pow", "{:x}^{}", uint64_t(a), e);
    c.check(V(Galois128(uint64_t(a >> 64), uint64_t(a))) == a && V(Galois128(uint64_t(a))) == U(uint64_t(a)), "gf128:value", "{:x}", uint64_t(a));
    c.event("field products", 3);
  }
  // Hashing in bulk and one at a time.
  AesCrHash h(R128(r));
  size_t n = r.below(70);
  std::vector<U> in(n), out(n), bytes(n);
  for (auto& x : in) x = AnyField(r);
  h.Hash(absl::MakeConstSpan(in), absl::MakeSpan(out));
  if (n) h.Hash(absl::MakeConstSpan(reinterpret_cast<uint8_t*>(in.data()), n * 16), absl::MakeSpan(reinterpret_cast<uint8_t*>(bytes.data()), n * 16));
  c.check(out == bytes, "crhash:bytes", "{} blocks", n);
  for (size_t i = 0; i < n; ++i) c.check(h.Hash(in[i]) == out[i], "crhash:bulk", "block {} of {}", i, n);
  // Rows of the store's matrix.
  auto rows = [&](auto idx) {
    using I = decltype(idx);
    uint64_t w = r.pick({2, 3, 3, 3, 4, 5}), cap = std::min<uint64_t>(std::numeric_limits<I>::max() - 1, 1 << 20);
    uint64_t m = r.pick({w, w + 1, uint64_t(r.range(w, 254)), uint64_t(r.range(w, cap)), cap});
    PaxosHash<I> ph;
    ph.init(R128(r), w, m);
    std::vector<U> ks(32), hs(32);
    for (auto& k : ks) k = AnyField(r);
    std::vector<I> rs(32 * w), one(w);
    ph.HashBuildRow32(absl::MakeConstSpan(ks), absl::MakeSpan(rs), absl::MakeSpan(hs));
    for (int i = 0; i < 32; ++i) {
      U hh;
      ph.HashBuildRow1(ks[i], absl::MakeSpan(one), &hh);
      std::set<I> d(one.begin(), one.end());
      c.check(hh == hs[i] && std::equal(one.begin(), one.end(), rs.begin() + i * w), "rows:bulk", "weight {} size {} idx {}", w, m, sizeof(I));
      c.check(d.size() == w && *d.rbegin() < m, "rows:distinct", "weight {} size {} idx {}", w, m, sizeof(I));
    }
    c.event("rows built", 32);
  };
  rows(uint8_t{}); rows(uint16_t{}); rows(uint32_t{}); rows(uint64_t{});
}

void Matrices(vh::Case& c) {
  auto& r = c.rng;
  size_t n = r.chance(0.5) ? r.range(1, 12) : r.range(1, 140), m = r.range(1, 140);
  c.describe(fmt::format("matrices {}x{} {:x}", n, m, c.seed));
  auto fill = [&](DenseMtx& x) { for (size_t i = 0; i < x.rows(); ++i) for (size_t j = 0; j < x.cols(); ++j) x(i, j) = uint8_t(r.below(2)); };
  auto get = [](const DenseMtx& x) { std::vector<std::string> v; for (size_t i = 0; i < x.rows(); ++i) { std::string s; for (size_t j = 0; j < x.cols(); ++j) s += '0' + uint8_t(x(i, j)); v.push_back(s); } return v; };
  DenseMtx a(n, m), b(m, n), d(n, m);
  fill(a); fill(b); fill(d);
  auto ga = get(a), gb = get(b), gd = get(d);
  {
    auto p = get(a * b);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      int s = 0;
      for (size_t k = 0; k < m; ++k) s ^= (ga[i][k] & gb[k][j]) & 1;
      if (!c.check(p[i][j] - '0' == s, "matrix:product", "{}x{} at {},{}", n, m, i, j)) return;
    }
    auto s = get(a + d);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j)
      if (!c.check((s[i][j] ^ ga[i][j] ^ gd[i][j]) == '0', "matrix:sum", "{}x{} at {},{}", n, m, i, j)) return;
    c.check(get(a) == ga && get(b) == gb && get(d) == gd, "matrix:operands", "changed by products or sums {}x{}", n, m);
    DenseMtx e = a;
    size_t i = r.below(n), j = r.below(m);
    e(i, j) = uint8_t(1 - uint8_t(a(i, j)));
    c.check(get(a) == ga, "matrix:copy", "changing a copy changes the original {}x{}", n, m);
    c.check(!(e == a), "matrix:equal", "different matrices are equal");
  }
  DenseMtx q(n, n);
  fill(q);
  auto gq = get(q);
  auto inv = q.Invert();
  c.check(get(q) == gq, "matrix:invert-operand", "inverting a matrix changes it {}x{}", n, n);
  if (inv.rows() == n) {
    auto gi = get(inv);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      int s = 0;
      for (size_t k = 0; k < n; ++k) s ^= (gq[i][k] & gi[k][j]) & 1;
      if (!c.check(s == (i == j), "matrix:inverse", "{}x{}", n, n)) return;
    }
    c.event("matrices inverted");
  } else {
    // singular: verify by elimination
    std::vector<std::string> g = gq;
    size_t rank = 0;
    for (size_t col = 0; col < n; ++col) {
      size_t p = rank;
      while (p < n && g[p][col] == '0') ++p;
      if (p == n) continue;
      std::swap(g[p], g[rank]);
      for (size_t i = 0; i < n; ++i) if (i != rank && g[i][col] == '1') for (size_t k = 0; k < n; ++k) g[i][k] = '0' + ((g[i][k] ^ g[rank][k]) & 1);
      ++rank;
    }
    c.check(rank < n, "matrix:not-inverted", "a regular {}x{} matrix is called singular", n, n);
    c.event("singular matrices refused");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"paxos", PaxosScn}, {"baxos", BaxosScn}, {"algebra", Algebra}, {"matrices", Matrices}});
}
