// The oblivious functions behind the protocols: both sides' values agree for
// equal items and only for them.
#include <cstring>

#include "psi/algorithm/ecdh/ub_psi/ecdh_oprf_selector.h"
#include "psi/algorithm/kkrt/kkrt_psi.h"
#include "psi/algorithm/rr22/okvs/galois128.h"
#include "psi/algorithm/rr22/rr22_oprf.h"
#include "world.h"
#include "yacl/crypto/hash/hash_utils.h"

namespace {
using u128 = uint128_t;
namespace rr = psi::rr22;
u128 R128(vh::Rng& r) { return yacl::MakeUint128(r.u64(), r.u64()); }
std::string Hx(u128 v) { return fmt::format("{:016x}{:016x}", uint64_t(v >> 64), uint64_t(v)); }

// n distinct values: random, small, or differing in a few bits only.
std::vector<u128> Distinct(vh::Rng& r, size_t n, std::set<u128>& used, bool hashed = false) {
  std::vector<u128> v;
  int kind = hashed ? 3 : r.below(4);
  u128 base = R128(r);
  while (v.size() < n) {
    u128 x = kind == 0 ? u128(r.below(4 * n + 8)) : kind == 1 ? base ^ (u128(r.below(4 * n + 8)) << 64) : kind == 2 ? base ^ u128(r.below(4 * n + 8)) : R128(r);
    if (used.insert(x).second) v.push_back(x);
  }
  return v;
}

void Rr22(vh::Case& c) {
  auto& r = c.rng;
  size_t n = r.pick({1, 2, 3, 5, 17, 64, int(r.range(1, 300)), int(r.range(1, 300)), r.chance(0.1) ? 3000 : 40});
  size_t m = r.chance(0.3) ? n : r.chance(0.3) ? r.range(1, 4) : r.range(1, 300);
  bool low = r.chance(0.35), mal = !low && r.chance(0.4);
  size_t bin = r.pick({1 << 14, 1 << 14, 50, 200, 1000});
  size_t ssp = r.pick({40, 40, 30});
  size_t ts = r.below(5), tr = r.below(5);
  auto code = r.pick({yacl::crypto::CodeType::ExAcc7, yacl::crypto::CodeType::ExAcc11, yacl::crypto::CodeType::ExAcc21, yacl::crypto::CodeType::ExAcc40, yacl::crypto::CodeType::Silver5, yacl::crypto::CodeType::Silver11});
  auto mode = low ? rr::Rr22PsiMode::LowCommMode : rr::Rr22PsiMode::FastMode;
  std::set<u128> used;
  auto pool = Distinct(r, n + m, used);
  std::vector<u128> rec(pool.begin(), pool.begin() + n), snd(pool.begin() + n, pool.end());
  double share = r.pick({0.0, 0.5, 1.0});
  for (auto& x : snd) if (r.chance(share)) x = rec[r.below(n)];  // may repeat
  r.shuffle(snd);
  bool early = r.chance(0.5);
  c.describe(fmt::format("n={} m={} low={} malicious={} bin={} ssp={} threads={}/{} code={} share={} early={} {:x}", n, m, low, mal, bin, ssp, ts, tr, int(code), share, early, r.u64()));
  std::vector<u128> out_s, out_r, hs;
  auto w = vw::MakeWorld(2);
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(2);
  size_t size_s = 0, size_r = 0;
  f[0] = [&](auto& l) {
    rr::Rr22OprfSender o(bin, ssp, mode, code, mal);
    o.Init(l, n, ts);
    hs = o.Send(l, snd);
    size_s = o.GetPaxosSize();
    out_s = early ? o.Eval(snd, absl::MakeSpan(hs)) : o.Eval(snd);
  };
  f[1] = [&](auto& l) {
    rr::Rr22OprfReceiver o(bin, ssp, mode, code, mal);
    o.Init(l, n, tr);
    out_r = o.Recv(l, rec);
    size_r = o.GetPaxosSize();
  };
  auto e = vw::RunRanks(w, f);
  if (!c.check(e[0].empty() && e[1].empty(), "rr22:error", "{} / {} [{}]", e[0].substr(0, 200), e[1].substr(0, 200), c.desc)) return;
  if (!c.check(out_s.size() == m && out_r.size() == n && size_s == size_r, "rr22:size", "{} {} [{}]", out_s.size(), out_r.size(), c.desc)) return;
  std::map<u128, u128> val;
  for (size_t i = 0; i < n; ++i) val[rec[i]] = out_r[i];
  size_t equal = 0, other = 0;
  for (size_t i = 0; i < m; ++i) {
    auto it = val.find(snd[i]);
    if (it != val.end()) {
      ++equal;
      if (!c.check(it->second == out_s[i], "rr22:values-differ", "item {} sender {} receiver {} [{}]", Hx(snd[i]), Hx(out_s[i]), Hx(it->second), c.desc)) return;
    } else {
      val[snd[i]] = out_s[i];
      ++other;
    }
  }
  std::set<u128> dis;
  for (auto& [k, v] : val) dis.insert(v);
  c.check(dis.size() == val.size(), "rr22:values-collide", "{} of {} [{}]", dis.size(), val.size(), c.desc);
  c.event("common items compared", equal);
  c.event("foreign items compared", other);
  if (low) c.event("low-communication runs"); else c.event(mal ? "runs with the consistency check" : "fast runs");
}

void Refused(vh::Case& c) {
  auto code = yacl::crypto::CodeType::ExAcc7;
  c.describe("malicious with low communication");
  c.check(!vh::Thrown([&] { rr::Rr22OprfSender(1 << 14, 40, rr::Rr22PsiMode::LowCommMode, code, true); }).empty(), "rr22:accepted", "sender");
  c.check(!vh::Thrown([&] { rr::Rr22OprfReceiver(1 << 14, 40, rr::Rr22PsiMode::LowCommMode, code, true); }).empty(), "rr22:accepted", "receiver");
  c.event("settings refused", 2);
}

void Mock(vh::Case& c) {  // stand-in correlation used for measurements: c ^ b = delta * a
  auto& r = c.rng;
  size_t n = r.range(1, 400);
  u128 seed = R128(r);
  c.describe(fmt::format("n={} seed={}", n, Hx(seed)));
  auto w = vw::MakeWorld(2);
  rr::MocRr22VoleSender s(seed);
  rr::MocRr22VoleReceiver v(seed);
  std::vector<u128> cc(n), a(n), b(n), c2(n), b2(n);
  std::vector<uint64_t> a64(n);
  s.Send(w.ctx[0], absl::MakeSpan(cc));
  v.Recv(w.ctx[1], absl::MakeSpan(a), absl::MakeSpan(b));
  s.SendF64(w.ctx[0], absl::MakeSpan(c2));
  v.RecvF64(w.ctx[1], absl::MakeSpan(a64), absl::MakeSpan(b2));
  rr::okvs::Galois128 d(s.GetDelta());
  for (size_t i = 0; i < n; ++i) {
    if (!c.check((cc[i] ^ b[i]) == (d * a[i]).get<u128>(0), "mock:relation", "at {} [{}]", i, c.desc)) return;
    if (!c.check((c2[i] ^ b2[i]) == (d * a64[i]).get<u128>(0), "mock:relation64", "at {} [{}]", i, c.desc)) return;
  }
  c.event("correlations compared", 2 * n);
}

void Ecdh(vh::Case& c) {
  auto& r = c.rng;
  auto curve = r.pick({psi::CURVE_SM2, psi::CURVE_SECP256K1, psi::CURVE_FOURQ});
  size_t n = r.pick({0, 1, 2, 5, 9, 33, int(r.below(60))});
  auto T = psi::ecdh::OprfType::Basic;
  std::string key = r.bytes(32);
  if (curve == psi::CURVE_FOURQ) key[31] &= 0x1f;
  bool given = r.chance(0.5);
  c.describe(fmt::format("{} n={} key given={} {:x}", psi::CurveType_Name(curve), n, given, r.u64()));
  std::set<std::string> u;
  while (u.size() < n) u.insert(r.chance(0.1) ? "" : r.chance(0.4) ? std::to_string(r.below(4 * n + 9)) : r.bytes(r.range(1, 80)));
  std::vector<std::string> items(u.begin(), u.end());
  r.shuffle(items);
  std::string err = vh::Thrown([&] {
    auto s = given ? psi::ecdh::CreateEcdhOprfServer(key, T, curve) : psi::ecdh::CreateEcdhOprfServer(T, curve);
    auto cl = psi::ecdh::CreateEcdhOprfClient(T, curve), c2 = psi::ecdh::CreateEcdhOprfClient(T, curve);
    size_t len = 0;
    if (r.chance(0.4)) {
      len = r.range(8, 32);
      s->SetCompareLength(len); cl->SetCompareLength(len); c2->SetCompareLength(len);
      c.check(!vh::Thrown([&] { s->SetCompareLength(33); }).empty(), "oprf:length-accepted", "33 [{}]", c.desc);
    }
    c.check(s->GetCompareLength() == cl->GetCompareLength() && (!len || s->GetCompareLength() == len), "oprf:compare-length", "{} {} [{}]", s->GetCompareLength(), cl->GetCompareLength(), c.desc);
    auto kb = s->GetPrivateKey();
    auto s2 = psi::ecdh::CreateEcdhOprfServer(yacl::ByteContainerView(kb.data(), kb.size()), T, curve);
    if (len) s2->SetCompareLength(len);
    if (given) c.check(!std::memcmp(kb.data(), key.data(), 32), "oprf:key-not-kept", "[{}]", c.desc);
    auto blind = cl->Blind(items), blind2 = c2->Blind(items);
    auto ev = s->Evaluate(blind), ev2 = s2->Evaluate(blind2);
    auto fin = cl->Finalize(items, ev), fin2 = c2->Finalize(items, ev2), fins = cl->Finalize(ev);
    auto full = s->FullEvaluate(items);
    if (!c.check(blind.size() == n && ev.size() == n && fin.size() == n && fins.size() == n && full.size() == n, "oprf:count", "[{}]", c.desc)) return;
    for (size_t i = 0; i < n; ++i) {
      bool ok = c.check(fin[i] == full[i], "oprf:client-and-server-differ", "{} vs {} item {} [{}]", vh::Hex(fin[i]), vh::Hex(full[i]), vh::Hex(items[i]), c.desc) &&
                c.check(fin2[i] == full[i], "oprf:other-client-differs", "[{}]", c.desc) &&
                c.check(fins[i] == s->SimpleEvaluate(items[i]), "oprf:simple-differs", "[{}]", c.desc) &&
                c.check(full[i] == s->FullEvaluate(yacl::ByteContainerView(items[i])), "oprf:bulk-differs", "full [{}]", c.desc) &&
                c.check(blind[i] == cl->Blind(absl::string_view(items[i])), "oprf:bulk-differs", "blind [{}]", c.desc) &&
                c.check(ev[i] == s->Evaluate(absl::string_view(blind[i])), "oprf:bulk-differs", "evaluate [{}]", c.desc) &&
                c.check(fin[i] == cl->Finalize(absl::string_view(items[i]), absl::string_view(ev[i])), "oprf:bulk-differs", "finalize [{}]", c.desc) &&
                c.check(fins[i] == cl->Finalize(absl::string_view(ev[i])), "oprf:bulk-differs", "simple finalize [{}]", c.desc) &&
                c.check(cl->Unblind(ev[i]) == c2->Unblind(ev2[i]), "oprf:unblinded-differ", "[{}]", c.desc) &&
                c.check(blind[i].size() == s->GetEcPointLength() && ev[i].size() == s->GetEcPointLength() && fin[i].size() == s->GetCompareLength(), "oprf:length", "[{}]", c.desc) &&
                c.check(blind[i] != blind2[i], "oprf:not-blinded", "[{}]", c.desc);
      if (!ok) return;
    }
    c.check(std::set<std::string>(full.begin(), full.end()).size() == n && std::set<std::string>(fins.begin(), fins.end()).size() == n, "oprf:collision", "[{}]", c.desc);
    c.event("client and server values compared", n);
    // Bytes of a hostile client: an error or an answer, nothing else.
    for (int i = 0; i < 4; ++i) {
      std::string bad = n && r.chance(0.4) ? blind[r.below(n)] : r.bytes(r.pick({0, 1, 15, 16, 31, 32, 33, 34, 65}));
      if (r.chance(0.4)) bad.resize(r.below(40));
      else if (!bad.empty()) bad[r.below(bad.size())] ^= char(1 << r.below(8));
      std::string t = vh::Thrown([&] {
        std::string q(bad.begin(), bad.end());
        q.shrink_to_fit();
        std::unique_ptr<char[]> exact(new char[q.size()]);
        std::memcpy(exact.get(), q.data(), q.size());
        s->Evaluate(absl::string_view(exact.get(), q.size()));
      });
      c.event(t.empty() ? "foreign bytes evaluated" : "foreign bytes refused");
    }
  });
  c.check(err.empty(), "oprf:error", "{} [{}]", err.substr(0, 300), c.desc);
}

void Kkrt(vh::Case& c) {
  auto& r = c.rng;
  size_t n = r.pick({0, 1, 2, 7, 30, 127, 128, 129, int(r.below(400))}), m = r.pick({0, 1, 2, 7, 30, 128, 129, int(r.below(400))});
  psi::kkrt::KkrtPsiOptions o = psi::kkrt::GetDefaultKkrtPsiOptions();
  o.ot_batch_size = r.pick({1, 2, 7, 128, 1000});
  o.psi_batch_size = r.pick({1, 3, 128, 1000});
  std::set<u128> used;
  auto pool = Distinct(r, n + m, used, true)  /* the bins are cut from the items, which must be hashes */;
  std::vector<u128> rec(pool.begin(), pool.begin() + n), snd(pool.begin() + n, pool.end());
  double share = r.pick({0.0, 0.5, 1.0});
  size_t k = 0;
  for (auto& x : snd) if (k < n && r.chance(share)) x = rec[k++];
  r.shuffle(snd);
  r.shuffle(rec);
  c.describe(fmt::format("n={} m={} ot batch={} psi batch={} common={} {:x}", n, m, o.ot_batch_size, o.psi_batch_size, k, r.u64()));
  std::vector<psi::PsiItemHash> items;
  std::map<u128, uint32_t> cnt;
  for (auto& x : snd) {
    psi::PsiItemHash h{};
    h.data = x;
    h.cnt = r.chance(0.3) ? r.range(1, 5) : 1;
    cnt[x] = h.cnt;
    items.push_back(h);
  }
  auto w = vw::MakeWorld(2);
  std::pair<std::vector<size_t>, std::vector<uint32_t>> got;
  std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>> f(2);
  f[0] = [&](auto& l) {
    auto ot = psi::kkrt::GetKkrtOtSenderOptions(l, 512);
    psi::kkrt::KkrtPsiSend(l, o, ot, items);
  };
  f[1] = [&](auto& l) {
    auto ot = psi::kkrt::GetKkrtOtReceiverOptions(l, 512);
    got = psi::kkrt::KkrtPsiRecv(l, o, ot, rec);
  };
  auto e = vw::RunRanks(w, f);
  if (!n || !m) {
    c.check(!e[0].empty() && !e[1].empty() && !vh::Stalled(e[0]) && !vh::Stalled(e[1]), "kkrt:empty-side", "{} / {} [{}]", e[0], e[1], c.desc);
    c.event("empty inputs refused");
    return;
  }
  if (!c.check(e[0].empty() && e[1].empty(), "kkrt:error", "{} / {} [{}]", e[0].substr(0, 200), e[1].substr(0, 200), c.desc)) return;
  std::map<size_t, uint32_t> res;
  c.check(got.first.size() == got.second.size(), "kkrt:shape", "[{}]", c.desc);
  for (size_t i = 0; i < got.first.size(); ++i)
    c.check(res.emplace(got.first[i], got.second[i]).second, "kkrt:repeated-index", "{} [{}]", got.first[i], c.desc);
  size_t want = 0;
  for (size_t i = 0; i < n; ++i) {
    auto it = cnt.find(rec[i]);
    auto g = res.find(i);
    if (it == cnt.end()) { c.check(g == res.end(), "kkrt:extra", "index {} [{}]", i, c.desc); continue; }
    ++want;
    if (!c.check(g != res.end(), "kkrt:missing", "index {} [{}]", i, c.desc)) continue;
    c.check(g->second == it->second - 1, "kkrt:multiplicity", "index {}: {} want {} [{}]", i, g->second, it->second - 1, c.desc);
  }
  c.check(res.size() == want, "kkrt:size", "{} want {} [{}]", res.size(), want, c.desc);
  c.event("matches compared", want);
  c.event("non-matches compared", n - want);
}
}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"rr22", Rr22}, {"refused", Refused}, {"mock", Mock}, {"ecdh", Ecdh}, {"kkrt", Kkrt}});
}
