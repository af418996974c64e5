// Lattice arithmetic (against plain 128-bit and schoolbook computations) and
// Spiral retrieval (against the database itself).
#include <fcntl.h>
#include <unistd.h>

#include <cmath>
#include <fstream>

#include "google/protobuf/io/zero_copy_stream_impl.h"
#include "psi/algorithm/spiral/arith/arith_params.h"
#include "psi/algorithm/spiral/arith/ntt.h"
#include "psi/algorithm/spiral/arith/number_theory.h"
#include "psi/algorithm/spiral/gadget.h"
#include "psi/algorithm/spiral/poly_matrix_utils.h"
#include "psi/algorithm/spiral/serialize.h"
#include "psi/algorithm/spiral/spiral_client.h"
#include "psi/algorithm/spiral/spiral_server.h"
#include "psi/algorithm/spiral/util.h"
#include "vh.h"

using namespace psi::spiral;
using u128 = unsigned __int128;
using i128 = __int128;

namespace {
const uint64_t kPrimes[] = {12289, 61441, 786433, 7340033, 67043329, 132120577, 249561089, 268369921, 469762049};

uint64_t Mod(u128 x, uint64_t q) { return static_cast<uint64_t>(x % q); }
uint64_t Pow(uint64_t a, uint64_t e, uint64_t q) {
  u128 r = 1 % q, b = a % q;
  for (; e; e >>= 1, b = b * b % q) if (e & 1) r = r * b % q;
  return static_cast<uint64_t>(r);
}
Params MakeParams(vh::Rng& r, size_t n, bool one = false) {
  uint64_t p = kPrimes[r.below(9)], q = p;
  while (q == p) q = kPrimes[r.below(9)];
  if (r.chance(0.5)) p = 268369921, q = 249561089;
  std::vector<uint64_t> m{p};
  if (!one) m.push_back(q);
  PolyMatrixParams pm(2, r.pick({2, 16, 256, 512}), r.range(14, 36), r.range(2, 8), 8, 8, r.range(2, 8));
  return Params(n, m, 6.4, pm, QueryParams(r.range(2, 6), r.range(1, 4), 1));
}
// an interesting value below q
uint64_t Val(vh::Rng& r, uint64_t q) {
  if (r.chance(0.25)) return r.pick({uint64_t{0}, uint64_t{1} % q, q - 1, q / 2, (q + 1) / 2, q / 2 - (q > 3)});
  return r.u64() % q;
}
PolyMatrixRaw AnyRaw(vh::Rng& r, const Params& p, size_t rows, size_t cols, bool sparse = false) {
  PolyMatrixRaw m(p.PolyLen(), rows, cols);
  int kind = r.below(5);
  for (auto& x : m.Data()) {
    if (sparse && !r.chance(6.0 / p.PolyLen())) continue;
    x = kind == 0 ? p.Modulus() - 1 : kind == 1 ? (r.chance(0.5) ? 0 : 1) : Val(r, p.Modulus());
  }
  return m;
}
using Poly = std::vector<uint64_t>;
Poly Mul(const Poly& a, const Poly& b, uint64_t q) {  // mod x^n + 1
  size_t n = a.size();
  Poly o(n, 0);
  for (size_t j = 0; j < n; ++j) {
    if (!b[j]) continue;
    for (size_t i = 0; i < n; ++i) {
      uint64_t v = Mod(u128(a[i]) * b[j], q);
      size_t k = i + j;
      if (k >= n) { k -= n; v = v ? q - v : 0; }
      o[k] = Mod(u128(o[k]) + v, q);
    }
  }
  return o;
}
Poly At(const PolyMatrixRaw& m, size_t i, size_t j) { auto s = m.Poly(i, j); return Poly(s.begin(), s.end()); }
// equal modulo q, entry by entry
bool Same(absl::Span<const uint64_t> a, absl::Span<const uint64_t> b, uint64_t q) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i] % q != b[i] % q) return false;
  return true;
}
bool Same(const PolyMatrixRaw& a, const PolyMatrixRaw& b, uint64_t q) {
  return a.Rows() == b.Rows() && a.Cols() == b.Cols() && a.PolyLen() == b.PolyLen() && Same(a.Data(), b.Data(), q);
}
size_t AnyLen(vh::Rng& r, bool big) { return r.pick({4, 8, 16, 32, 64, 128, big ? 2048 : 256}); }
size_t Bits(u128 v) { size_t k = 0; while (v >> k) ++k; return k; }

void Scalars(vh::Case& c) {
  auto& r = c.rng;
  auto p = MakeParams(r, 8);
  uint64_t Q = p.Modulus();
  c.describe(fmt::format("Q={} {:x}", Q, r.u64()));
  c.check(p.CrtCount() == 2 && p.Moduli(0) * p.Moduli(1) == Q, "params:moduli", "{}", c.desc);
  c.check(p.ModulusLog2() == Bits(Q - 1), "params:log", "{} [{}]", p.ModulusLog2(), c.desc);
  for (int k = 0; k < 60; ++k) {
    size_t m = r.below(2);
    uint64_t q = p.Moduli(m);
    uint64_t x = r.chance(0.3) ? ~uint64_t{0} - r.below(3) : r.chance(0.5) ? r.u64() : r.u64() >> r.below(64);
    c.check(arith::BarrettCoeffU64(p, x, m) == x % q, "barrett64", "{} mod {}", x, q);
    c.check(arith::ModularReduce(p, x, m) == x % q, "reduce64", "{} mod {}", x, q);
    c.check(arith::BarrettU64(p, x) == x % Q, "barrett64-Q", "{} mod {}", x, Q);
    u128 w = (u128(r.u64()) << 64 | r.u64()) >> r.below(128);
    if (r.chance(0.2)) w = ~u128{0} - r.below(3);
    if (r.chance(0.2)) w = u128(Q) * Q - r.below(3);
    c.check(arith::BarrettReductionU128(p, w) == Mod(w, Q), "barrett128", "{:x}{:016x} mod {}", uint64_t(w >> 64), uint64_t(w), Q);
    c.check(arith::BarrettReductionU128Raw(w, p.BarrettCr0(m), p.BarrettCr1(m), q) == Mod(w, q), "barrett128-q", "{:x}{:016x} mod {}", uint64_t(w >> 64), uint64_t(w), q);
    auto [c0, c1] = arith::GetBarrettCrs(q);
    c.check(c0 == p.BarrettCr0(m) && c1 == p.BarrettCr1(m), "barrett-constants", "{}", q);
    uint64_t a = Val(r, q), b = Val(r, q), d = Val(r, q);
    c.check(arith::MultiplyModular(p, a, b, m) == Mod(u128(a) * b, q), "mul", "{}*{} mod {}", a, b, q);
    c.check(arith::MultiplyAddModular(p, a, b, d, m) == Mod(u128(a) * b + d, q), "muladd", "{}*{}+{} mod {}", a, b, d, q);
    c.check(arith::AddModular(p, a, b, m) == (a + b) % q, "add", "{}+{} mod {}", a, b, q);
    c.check(arith::InvertModular(p, a, m) % q == (q - a) % q, "neg", "{} mod {}", a, q);
    uint64_t A = Val(r, Q), B = Val(r, Q);
    c.check(arith::MultiplyUintMod(A, B, Q) == Mod(u128(A) * B, Q), "mul-Q", "{}*{} mod {}", A, B, Q);
    c.check(arith::MultiplyUintMod(A, B, Q, p.BarrettCr0Modulus(), p.BarrettCr1Modulus()) == Mod(u128(A) * B, Q), "mul-Q-barrett", "{}*{} mod {}", A, B, Q);
    c.check(arith::Div2UintMod(a, q) == Mod(u128(a) * ((q + 1) / 2), q), "half", "{} mod {}", a, q);
    uint64_t e = r.u64() >> r.below(64);
    c.check(arith::ExponentitateUintMod(a, e, q) == Pow(a, e, q), "power", "{}^{} mod {}", a, e, q);
    if (a) c.check(Mod(u128(arith::InvertUintMod(a, q)) * a, q) == 1, "inverse", "{} mod {}", a, q);
    c.check(p.CrtCompose({A % p.Moduli(0), 0, 0, 0, 0, 0, 0, 0, A % p.Moduli(1)}, 0) == A, "crt", "{}", A);
    c.check(p.CrtCompose2(A % p.Moduli(0), A % p.Moduli(1)) == A, "crt2", "{}", A);
    size_t bits = r.range(1, 32);
    uint64_t rv = r.u64() & ((uint64_t{1} << bits) - 1), want = 0;
    for (size_t i = 0; i < bits; ++i) want |= (rv >> i & 1) << (bits - 1 - i);
    c.check(arith::ReverseBits(rv, bits) == want, "bit reversal", "{} in {} bits", rv, bits);
    // recentring keeps the centred representative
    uint64_t to = r.pick({p.PtModulus(), kQ2Values[p.Q2Bits()], q});
    if (to <= Q) {
      i128 v = A >= Q / 2 ? i128(A) - Q : i128(A);
      i128 w2 = v % i128(to); if (w2 < 0) w2 += to;
      c.check(arith::Recenter(A, Q, to) == uint64_t(w2), "recenter", "{} from {} to {}", A, Q, to);
      // rescaling rounds the centred value to the nearest
      uint64_t got = arith::Rescale(A, Q, to);
      i128 num = v * i128(to), fl = num / i128(Q) - 1;
      bool ok = false;
      for (i128 t = fl; t <= fl + 2; ++t) {
        i128 dist = t * i128(Q) - num; if (dist < 0) dist = -dist;
        i128 tm = t % i128(to); if (tm < 0) tm += to;
        ok |= 2 * dist <= i128(Q) + 1 && uint64_t(tm) == got;
      }
      c.check(ok, "rescale", "{} from {} to {}: {}", A, Q, to, got);
    }
    uint64_t sm = p.PtModulus(), y = Val(r, sm);
    uint64_t rc = arith::RecenertMod(y, sm, Q);
    c.check(rc == (y > sm / 2 ? Q - (sm - y) : y), "recenter up", "{} from {} to {}: {}", y, sm, Q, rc);
    size_t len = r.below(1000), ul = r.range(1, 64);
    c.check(arith::UintNum(len, ul) == (len + ul - 1) / ul, "count", "{} {}", len, ul);
    c.event("scalar operations", 20);
  }
  // roots of unity
  size_t deg = 2 * AnyLen(r, true);
  uint64_t q = p.Moduli(r.below(2)), g = arith::GetPrimitiveRoot(deg, q), mg = arith::GetMinimalPrimitiveRoot(deg, q);
  c.check(Pow(g, deg / 2, q) == q - 1, "root", "{} of {} mod {}", g, deg, q);
  c.check(Pow(mg, deg / 2, q) == q - 1 && mg <= g, "minimal root", "{} of {} mod {}", mg, deg, q);
  c.check(arith::IsPrimitiveRoot(g, deg, q) && !arith::IsPrimitiveRoot(0, deg, q) && !arith::IsPrimitiveRoot(1, deg, q), "root test", "{} of {} mod {}", g, deg, q);
  // packing bytes into coefficients of logt bits, as one bit string
  for (int k = 0; k < 6; ++k) {
    size_t logt = r.range(1, 24), size = r.range(1, 90), off = r.below(20);
    std::vector<uint8_t> bytes(off + size + r.below(5));
    for (auto& x : bytes) x = r.chance(0.2) ? 0xff : r.u64();
    auto bit = [&](size_t i) -> unsigned { return i < 8 * size ? bytes[off + i / 8] >> (7 - i % 8) & 1 : 0; };
    auto co = psi::spiral::util::ConvertBytesToCoeffs(logt, off, size, bytes);
    bool ok = co.size() == (8 * size + logt - 1) / logt;
    for (size_t i = 0; ok && i < co.size(); ++i) {
      uint64_t w = 0;
      for (size_t b = 0; b < logt; ++b) w = w << 1 | bit(i * logt + b);
      ok = co[i] == w;
    }
    c.check(ok, "bytes to coefficients", "{} bytes at {}, {} bits", size, off, logt);
    auto back = psi::spiral::util::ConvertCoeffsToBytes(co, logt);
    auto back2 = psi::spiral::util::ConvertCoeffsToBytes(absl::MakeSpan(co), logt);
    ok = back == back2 && back.size() >= size && std::equal(bytes.begin() + off, bytes.begin() + off + size, back.begin());
    c.check(ok, "coefficients to bytes", "{} bytes at {}, {} bits", size, off, logt);
    if (logt <= 8) {
      auto u8 = psi::spiral::util::ConvertBytesToU8Coeffs(logt, off, size, bytes);
      c.check(std::vector<uint64_t>(u8.begin(), u8.end()) == co, "bytes to small coefficients", "{} bytes at {}, {} bits", size, off, logt);
    }
    c.event("packings compared");
  }
  std::vector<size_t> dims(r.range(1, 5)), idx;
  size_t want = 0;
  for (auto& d : dims) { d = r.range(1, 9); idx.push_back(r.below(d)); want = want * d + idx.back(); }
  c.check(psi::spiral::util::CalcIndex(idx, dims) == want, "index", "{} in {}", fmt::join(idx, ","), fmt::join(dims, ","));
}

void Polys(vh::Case& c) {
  auto& r = c.rng;
  size_t n = AnyLen(r, r.chance(0.3));
  auto p = MakeParams(r, n);
  uint64_t Q = p.Modulus();
  size_t R = r.range(1, 3), K = r.range(1, 3), C = r.range(1, 3);
  if (n > 300) R = K = C = 1;
  c.describe(fmt::format("n={} Q={} {}x{}x{} {:x}", n, Q, R, K, C, r.u64()));
  bool sparse = n > 300;
  auto A = AnyRaw(r, p, R, K), A2 = AnyRaw(r, p, R, K), B = AnyRaw(r, p, K, C, sparse);
  // transforms
  for (int k = 0; k < 4; ++k) {
    Poly a(2 * n);
    int kind = r.below(4);
    for (size_t i = 0; i < 2 * n; ++i) { uint64_t q = p.Moduli(i / n); a[i] = kind == 0 ? q - 1 : kind == 1 ? 0 : kind == 2 ? (i % n == 1) : Val(r, q); }
    auto f = a, g = a;
    arith::NttForward(p, absl::MakeSpan(f));
    auto in = f;
    arith::NttInverse(p, absl::MakeSpan(in));
    c.check(in == a, "transform:inverse", "[{}]", c.desc);
    arith::NttInverse(p, absl::MakeSpan(g));
    arith::NttForward(p, absl::MakeSpan(g));
    bool ok = true;
    for (size_t i = 0; i < 2 * n; ++i) ok &= g[i] % p.Moduli(i / n) == a[i] && g[i] <= p.Moduli(i / n) && f[i] <= p.Moduli(i / n);
    c.check(ok, "transform:forward", "[{}]", c.desc);
    // the transform lists the values at the odd powers of a 2n-th root, in some order
    size_t m = r.below(2);
    uint64_t q = p.Moduli(m), w = p.GetNttForwardTable(m)[n / 2 ? n / 2 : 1];
    (void)w;
    uint64_t psi = arith::GetMinimalPrimitiveRoot(2 * n, q);
    for (int t = 0; t < 3; ++t) {
      size_t i = r.below(n);
      uint64_t rev = 0;
      for (size_t b = 0; (size_t{1} << b) < n; ++b) rev = rev << 1 | (i >> b & 1);
      uint64_t x = Pow(psi, 2 * rev + 1, q), y = 0;
      for (size_t j = n; j-- > 0;) y = Mod(u128(y) * x + a[m * n + j], q);
      c.check(f[m * n + i] % q == y, "transform:value", "entry {} [{}]", i, c.desc);
    }
    c.event("transforms compared");
  }
  auto a = ToNtt(p, A), a2 = ToNtt(p, A2), b = ToNtt(p, B);
  c.check(Same(FromNtt(p, a), A, Q) && FromNtt(p, a) == A, "ntt round trip", "[{}]", c.desc);
  {
    auto want = PolyMatrixRaw(n, R, C);
    for (size_t i = 0; i < R; ++i)
      for (size_t j = 0; j < C; ++j) {
        auto o = want.Poly(i, j);
        for (size_t k = 0; k < K; ++k) {
          auto t = Mul(At(A, i, k), At(B, k, j), Q);
          for (size_t z = 0; z < n; ++z) o[z] = Mod(u128(o[z]) + t[z], Q);
        }
      }
    c.check(FromNtt(p, Multiply(p, a, b)) == want, "product", "[{}]", c.desc);
    PolyMatrixNtt res = ToNtt(p, AnyRaw(r, p, R, C));  // must be overwritten
    Multiply(p, res, a, b);
    c.check(FromNtt(p, res) == want, "product into", "[{}]", c.desc);
    c.event("products compared", R * C);
  }
  {
    PolyMatrixRaw s(n, R, K);
    for (size_t i = 0; i < s.Data().size(); ++i) s.Data()[i] = (A.Data()[i] + A2.Data()[i]) % Q;
    c.check(FromNtt(p, Add(p, a, a2)) == s, "sum", "[{}]", c.desc);
    auto t = a;
    AddInto(p, t, a2);
    c.check(FromNtt(p, t) == s, "sum into", "[{}]", c.desc);
    PolyMatrixNtt u(2, n, R, K);
    Add(p, u, a, a2);
    c.check(FromNtt(p, u) == s, "sum to", "[{}]", c.desc);
    size_t r0 = r.below(3), c0 = r.below(3);
    auto base = AnyRaw(r, p, R + r0 + r.below(2), K + c0 + r.below(2));
    auto bn = ToNtt(p, base);
    AddIntoAt(p, bn, a, r0, c0);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < K; ++j) {
      auto d = base.Poly(r0 + i, c0 + j);
      auto src = A.Poly(i, j);
      for (size_t z = 0; z < n; ++z) d[z] = (d[z] + src[z]) % Q;
    }
    c.check(FromNtt(p, bn) == base, "sum at", "[{}]", c.desc);
    // copies and views
    auto cp = base;
    cp.CopyInto(A2, r0, c0);
    c.check(cp.SubMatrix(r0, c0, R, K) == A2, "copy", "[{}]", c.desc);
    bool rest = true;
    for (size_t i = 0; i < base.Rows(); ++i) for (size_t j = 0; j < base.Cols(); ++j)
      if (i < r0 || j < c0 || i >= r0 + R || j >= c0 + K) rest &= At(cp, i, j) == At(base, i, j);
    c.check(rest, "copy:rest", "[{}]", c.desc);
    auto cn = ToNtt(p, base);
    cn.CopyInto(a2, r0, c0);
    c.check(FromNtt(p, cn) == cp && cn.SubMatrix(r0, c0, R, K) == a2, "copy transformed", "[{}]", c.desc);
    auto st = Stack(A, A2);
    c.check(st.Rows() == 2 * R && st.SubMatrix(0, 0, R, K) == A && st.SubMatrix(R, 0, R, K) == A2, "stack", "[{}]", c.desc);
    auto sn = StackNtt(a, a2);
    c.check(sn.Rows() == 2 * R && sn.SubMatrix(0, 0, R, K) == a && sn.SubMatrix(R, 0, R, K) == a2, "stack transformed", "[{}]", c.desc);
    auto sh = ShiftRowsByOne(sn);
    bool shok = true;
    for (size_t i = 0; i < 2 * R; ++i) shok &= sh.SubMatrix((i + 1) % (2 * R), 0, 1, K) == sn.SubMatrix(i, 0, 1, K);
    c.check(shok && ShiftRowsByOne(sn.SubMatrix(0, 0, 1, K)) == sn.SubMatrix(0, 0, 1, K), "row shift", "[{}]", c.desc);
    auto pt = A.PadTop(r0);
    bool padok = pt.Rows() == R + r0 && pt.SubMatrix(r0, 0, R, K) == A;
    for (size_t i = 0; i < r0 * K * n; ++i) padok &= pt.Data()[i] == 0;
    auto pn = a.PadTop(r0);
    padok &= pn.Rows() == R + r0 && pn.SubMatrix(r0, 0, R, K) == a;
    c.check(padok, "padding", "[{}]", c.desc);
    auto col = A.SubMatrix(0, 0, R, 1);
    auto wi = MatrixWithIdentity(col);
    bool wok = wi.Rows() == R && wi.Cols() == R + 1 && wi.SubMatrix(0, 0, R, 1) == col && wi.SubMatrix(0, 1, R, R) == PolyMatrixRaw::Identity(n, R, R);
    c.check(wok, "identity", "[{}]", c.desc);
    auto inv = Invert(p, A);
    bool iok = true;
    for (size_t i = 0; i < A.Data().size(); ++i) iok &= (inv.Data()[i] + A.Data()[i]) % Q == 0;
    PolyMatrixRaw inv2(n, R, K);
    Invert(p, inv2, A);
    c.check(iok && inv2 == inv, "negation", "[{}]", c.desc);
    auto id = ToNtt(p, PolyMatrixRaw::Identity(n, K, K));
    c.check(FromNtt(p, Multiply(p, a, id)) == A, "identity product", "[{}]", c.desc);
    auto sc = AnyRaw(r, p, 1, 1, sparse);
    auto sm = FromNtt(p, ScalarMultiply(p, ToNtt(p, sc), a));
    bool sok = true;
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < K; ++j) sok &= At(sm, i, j) == Mul(At(A, i, j), At(sc, 0, 0), Q);
    c.check(sok, "scalar product", "[{}]", c.desc);
    size_t t2 = 2 * r.below(n) + 1;
    auto au = Automorphism(p, A, t2);
    bool aok = true;
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < K; ++j) {
      Poly want(n);
      auto src = A.Poly(i, j);
      for (size_t z = 0; z < n; ++z) { size_t e = z * t2 % (2 * n); want[e % n] = e >= n ? (Q - src[z]) % Q : src[z]; }
      aok &= Same(au.Poly(i, j), want, Q);
    }
    c.check(aok, "automorphism", "x -> x^{} [{}]", t2, c.desc);
    auto m = AnyRaw(r, p, R, K);
    for (auto& x : m.Data()) x = r.u64();
    auto m1 = m, m2 = m;
    m1.ReduceMod(p.ModulusSeal());
    uint64_t small = r.range(1, 1000);
    m2.ReduceMod(small);
    bool rok = true;
    for (size_t i = 0; i < m.Data().size(); ++i) rok &= m1.Data()[i] == m.Data()[i] % Q && m2.Data()[i] == m.Data()[i] % small;
    c.check(rok, "reduction", "[{}]", c.desc);
    uint64_t to = kQ2Values[14 + r.below(15)];
    size_t s0 = r.below(R), s1 = r.range(s0 + 1, R);
    if (to <= Q) {
      auto rs = A;
      rs.Rescale(s0, s1, Q, to);
      bool ok = true;
      for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < K; ++j) for (size_t z = 0; z < n; ++z)
        ok &= rs.Poly(i, j)[z] == (i >= s0 && i < s1 ? arith::Rescale(A.Poly(i, j)[z], Q, to) : A.Poly(i, j)[z]);
      c.check(ok, "rescaled rows", "[{}]", c.desc);
    }
    c.event("matrix operations", 18);
  }
  // the gadget times its inverse is the identity
  {
    size_t rd = r.range(1, 2), el = r.range(2, 20);
    if (r.chance(0.2)) el = p.ModulusLog2();
    if (n > 300) el = 4;
    auto g = psi::spiral::util::BuildGadget(p, rd, rd * el);
    auto in = AnyRaw(r, p, rd, C);
    PolyMatrixRaw out(n, rd * el, C);
    psi::spiral::util::GadgetInvertRdim(p, out, in, rd);
    size_t bits = psi::spiral::util::GetBitsPer(p, el);
    bool small = bits * el >= p.ModulusLog2();
    for (auto x : out.Data()) small &= x < (uint64_t{1} << bits);
    c.check(small, "gadget digits", "{} digits of {} bits [{}]", el, bits, c.desc);
    c.check(FromNtt(p, Multiply(p, ToNtt(p, g), ToNtt(p, out))) == in, "gadget", "{} digits of {} bits [{}]", el, bits, c.desc);
    if (bits <= 27 && p.Moduli(0) >> bits && p.Moduli(1) >> bits) {
      PolyMatrixNtt nr(2, n, rd * el, C);
      ToNttNoReduce(p, nr, out);
      c.check(FromNtt(p, nr) == FromNtt(p, ToNtt(p, out)), "transform of small values", "[{}]", c.desc);
    }
    c.event("gadget decompositions");
  }
  // encodings
  {
    auto buf = SerializePolyMatrixRaw(A);
    c.check(DeserializePolyMatrixRaw(p, buf) == A, "encoding", "[{}]", c.desc);
    c.check(DeserializePolyMatrixRaw(p, SerializePolyMatrixRawToStr(A)) == A, "encoding as text", "[{}]", c.desc);
    c.check(PolyMatrixRaw::FromProto(A.ToProto(), p) == A, "encoding as proto", "[{}]", c.desc);
    std::vector<PolyMatrixRaw> rs;
    for (size_t i = r.below(4); i; --i) rs.push_back(AnyRaw(r, p, r.range(1, 3), r.range(1, 3)));
    c.check(DeserializeResponse(p, SerializeResponse(rs)) == rs && DeserializeResponse(p, SerializeResponseToStr(rs)) == rs, "encoding of responses", "[{}]", c.desc);
    // the first row may be left out when it is the negated stream of a seed
    u128 seed = u128(r.u64()) << 64 | r.u64();
    yacl::crypto::Prg<uint64_t> g1(seed), g2(seed), g3(seed);
    auto full = Stack(PolyMatrixRaw(n, 1, K), A);
    for (size_t i = 0; i < K * n; ++i) full.Data()[i] = Q - g1() % Q;
    c.check(DeserializePolyMatrixRawRng(SerializePolyMatrixRawRng(full, p), p, g2) == full, "encoding with a seed", "[{}]", c.desc);
    c.check(PolyMatrixRaw::FromProtoRng(full.ToProtoRng(), p, g3) == full, "proto with a seed", "[{}]", c.desc);
    PublicKeys pk, pk2;
    auto some = [&] { std::vector<PolyMatrixNtt> v; for (size_t i = r.range(1, 3); i; --i) v.push_back(ToNtt(p, AnyRaw(r, p, r.range(1, 3), r.range(1, 3)))); return v; };
    pk.v_packing_ = some(); pk.v_expansion_left_ = some(); pk.v_expansion_right_ = some(); pk.v_conversion_ = some();
    auto eq = [&](auto& x, auto& y) {
      bool ok = x.size() == y.size();
      for (size_t i = 0; ok && i < x.size(); ++i) ok = FromNtt(p, x[i]) == FromNtt(p, y[i]);
      return ok;
    };
    for (int k = 0; k < 2; ++k) {
      pk2 = k ? DeserializePublicKeys(p, SerializePublicKeysToStr(p, pk)) : DeserializePublicKeys(p, SerializePublicKeys(p, pk));
      c.check(eq(pk.v_packing_, pk2.v_packing_) && eq(pk.v_expansion_left_, pk2.v_expansion_left_) && eq(pk.v_expansion_right_, pk2.v_expansion_right_) && eq(pk.v_conversion_, pk2.v_conversion_),
              "encoding of keys", "[{}]", c.desc);
    }
    c.event("encodings compared", 8);
  }
  // samplers stay in their range
  {
    DiscreteGaussian dg(6.4);
    yacl::crypto::Prg<uint64_t> g(r.u64());
    double s = 0, s2 = 0;
    int N = 3000;
    int64_t far = 0;
    for (int i = 0; i < N; ++i) {
      uint64_t v = dg.Sample(Q, g);
      int64_t x = v > Q / 2 ? int64_t(v) - int64_t(Q) : int64_t(v);
      far = std::max<int64_t>(far, std::abs(x));
      s += x; s2 += double(x) * x;
    }
    double var = 6.4 * 6.4 / (2 * M_PI);
    c.check(far < 40 && std::abs(s / N) < 0.5 && std::abs(s2 / N - var) < 1.5, "noise", "mean {} variance {} largest {}", s / N, s2 / N, far);
    size_t h = n / 4;
    PolyMatrixRaw t(n, 1, 2);
    GenTernaryMatrix(p, t, h, g);
    for (size_t j = 0; j < 2; ++j) {
      size_t plus = 0, minus = 0, zero = 0;
      for (auto x : t.Poly(0, j)) (x == 1 ? plus : x == Q - 1 ? minus : x == 0 ? zero : h) += 1;
      c.check(plus == n / 4 && minus == n / 4 && zero == n - 2 * (n / 4), "ternary", "{} {} {} of {}", plus, minus, zero, n);
    }
    c.event("samplers checked");
  }
}

void Retrieve(vh::Case& c) {
  auto& r = c.rng;
  size_t row = r.pick({1, 7, 31, 256, 257, 1000, 4096, 8191, 8192, 8193, 9000, 20000, int(r.range(1, 3000))});
  int kind = r.below(3);
  auto base = kind == 0 ? psi::spiral::util::GetDefaultParam() : r.chance(0.5) ? psi::spiral::util::GetTestParam() : psi::spiral::util::GetDefaultParam();
  size_t cap = base.ElementSizeOfPt(std::min(row, base.MaxByteLenOfPt()));
  size_t rows = r.pick({size_t(1), size_t(2), cap, cap + 1, 3 * cap, 4 * cap, 4 * cap + 1, 9 * cap - 1, size_t(r.range(1, 12 * cap))});
  size_t budget = c.thorough ? 1500000 : 300000;
  rows = std::max<size_t>(1, std::min(rows, budget / row));
  std::vector<std::vector<uint8_t>> db(rows);
  for (auto& x : db) {
    auto b = r.bytes(row);
    x.assign(b.begin(), b.end());
    if (r.chance(0.1)) std::fill(x.begin(), x.end(), r.pick({0, 255, 128, 127}));
  }
  int path = kind == 0 ? 2 : r.below(2);  // 0 objects, 1 buffers, 2 dump, load, buffers
  c.describe(fmt::format("rows={} row bytes={} path={} q2 bits={} {:x}", rows, row, path, base.Q2Bits(), r.u64()));
  DatabaseMetaInfo info(rows, row);
  base.UpdateByDatabaseInfo(info);
  SpiralClient cl{Params(base), info};
  psi::pir::RawDatabase raw(db);
  std::unique_ptr<SpiralServer> sv = std::make_unique<SpiralServer>(Params(base), info);
  if (path == 2) {
    bool table = r.chance(0.4);
    if (table) sv->GenerateFromSimpleHashTable(raw); else sv->GenerateFromRawData(raw);
    auto file = c.dir / "server.bin";
    { std::ofstream o(file, std::ios::binary); sv->Dump(o); }
    int fd = ::open(file.c_str(), O_RDONLY);
    google::protobuf::io::FileInputStream in(fd);
    sv = SpiralServer::Load(in);
    ::close(fd);
    c.event("loaded databases");
  } else {
    sv->GenerateFromRawDataAndReorient(raw);
  }
  c.check(sv->DbSeted(), "not set", "[{}]", c.desc);
  auto keys = cl.GenPublicKeys();
  auto kb = path ? cl.GeneratePksBuffer() : yacl::Buffer();
  auto ks = path ? cl.GeneratePksString() : std::string();
  std::set<size_t> idx{0, rows - 1};
  for (int k = 0; k < 2; ++k) idx.insert(r.below(rows));
  if (rows > cap) idx.insert(r.pick({cap - 1, cap}));
  for (size_t i : idx) {
    std::vector<uint8_t> got;
    if (!path) {
      auto q = cl.GenQuery(i);
      if (r.chance(0.5)) {
        c.check(SpiralQuery::DeserializeRng(base, q.SerializeRng()) == q && SpiralQuery::DeserializeRng(base, q.SerializeRngToStr()) == q &&
                    SpiralQuery::Deserialize(base, q.Serialize()) == q && SpiralQuery::Deserialize(base, q.SerializeToStr()) == q,
                "query encoding", "[{}]", c.desc);
        c.event("queries re-encoded");
      }
      got = cl.DecodeResponse(sv->ProcessQuery(q, keys), i);
    } else if (r.chance(0.5)) {
      got = cl.DecodeIndexResponse(sv->Response(cl.GenerateIndexQuery(i), kb), i);
    } else {
      got = cl.DecodeIndexResponse(sv->Response(cl.GenerateIndexQueryStr(i), ks), i);
    }
    c.check(got == db[i], "row", "row {} of {}: {} bytes, {} differ [{}]", i, rows, got.size(), [&] { size_t d = 0; for (size_t k = 0; k < std::min(got.size(), row); ++k) d += got[k] != db[i][k]; return d; }(), c.desc);
    c.event("rows retrieved");
    if (row > 8192) c.event("rows in several pieces");
  }
  c.check(!vh::Thrown([&] { cl.GenQuery(rows); }).empty(), "index beyond the end", "[{}]", c.desc);
  // partitions hold every byte in order
  size_t part = r.range(1, row + 3);
  auto parts = raw.Partition(part);
  for (int k = 0; k < 3; ++k) {
    size_t i = r.below(rows);
    std::vector<std::vector<uint8_t>> pieces;
    for (auto& x : parts) pieces.push_back(x.Db()[i]);
    c.check(psi::pir::RawDatabase::Combine(pieces, row) == db[i], "partition", "{} by {} [{}]", row, part, c.desc);
  }
}
}  // namespace

int main(int argc, char** argv) { return vh::Main(argc, argv, {{"scalars", Scalars}, {"polys", Polys}, {"retrieve", Retrieve}}); }
