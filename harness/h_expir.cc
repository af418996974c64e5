// Experimental retrieval schemes (simplepir, pps, piano) against the database.
#include <cmath>
#include <future>

#include "experiment/pir/piano/client.h"
#include "experiment/pir/piano/server.h"
#include "experiment/pir/pps/client.h"
#include "experiment/pir/pps/receiver.h"
#include "experiment/pir/pps/sender.h"
#include "experiment/pir/pps/server.h"
#include "experiment/pir/simplepir/client.h"
#include "experiment/pir/simplepir/network_util.h"
#include "experiment/pir/simplepir/server.h"
#include "fmt/format.h"
#include "vh.h"
#include "yacl/link/test_util.h"

namespace {

template <class S, class R>
void Pass(S s, R r) {
  auto a = std::async(std::launch::async, s);
  auto b = std::async(std::launch::async, r);
  a.get();
  b.get();
}

void Simple(vh::Case& c) {
  using namespace pir::simple;
  auto& r = c.rng;
  struct P { uint64_t q, p; };
  size_t side = r.pick({size_t(1), size_t(2), size_t(r.range(3, 30)), size_t(64)}), N = side * side;
  uint64_t p = r.pick({uint64_t(2), uint64_t(3), uint64_t(256), uint64_t(991), uint64_t(r.range(2, 5000)), uint64_t(65536), uint64_t(65537)});
  int radius = r.pick({4, 1, 6});
  double sigma = r.pick({6.8, 3.2, 1.0});
  // the modulus leaves room for the noise of one whole row
  double noise = double(side) * p * radius * sigma;
  int least = std::ceil(std::log2(2.5 * p * (noise + 2) + p)) + 1;
  if (least > 52) { p = 991; least = 40; }
  int bits = r.range(least, 52);
  uint64_t q = uint64_t{1} << bits;
  if (r.chance(0.5)) q = q - 1 - r.below(uint64_t{1} << (bits - 2));
  if (r.chance(0.2) && least <= 32) q = uint64_t{1} << 32;
  size_t dim = r.pick({1, 2, 16, int(r.range(3, 200)), 256});
  c.describe(fmt::format("side={} q={} p={} dim={} radius={} sigma={} {:x}", side, q, p, dim, radius, sigma, r.u64()));
  SimplePirServer sv(dim, q, N, p);
  SimplePirClient cl(dim, q, N, p, radius, sigma);
  std::vector<std::vector<uint64_t>> db(side, std::vector<uint64_t>(side));
  int fill = r.below(3);
  for (auto& x : db) for (auto& y : x) y = fill == 0 ? r.below(p) : fill == 1 ? p - 1 : r.chance(0.5) ? 0 : p - 1;
  sv.SetDatabase(db);
  auto w = yacl::link::test::SetupWorld(2);
  int setups = r.chance(0.2) ? 2 : 1;
  for (int s = 0; s < setups; ++s) {
    sv.GenerateLweMatrix();
    uint128_t seed = 0;
    std::vector<uint64_t> hint;
    Pass([&] { SendUint128(sv.GetSeed(), w[0]); SendVector(sv.GetHint(), w[0]); }, [&] { RecvUint128(seed, w[1]); RecvVector(hint, w[1]); });
    c.check(seed == sv.GetSeed() && hint == sv.GetHint(), "transport", "[{}]", c.desc);
    cl.Setup(seed, hint);
    std::vector<size_t> idx{0, N - 1, side - 1};
    for (int k = 0; k < 20; ++k) idx.push_back(r.below(N));
    idx.push_back(idx[3]);
    for (size_t i : idx) {
      auto q1 = cl.Query(i);
      bool in = q1.size() == side;
      for (auto x : q1) in &= x < q;
      c.check(in, "query range", "[{}]", c.desc);
      std::vector<uint64_t> q2, a2;
      Pass([&] { SendVector(q1, w[1]); }, [&] { RecvVector(q2, w[0]); });
      Pass([&] { SendVector(sv.Answer(q2), w[0]); }, [&] { RecvVector(a2, w[1]); });
      auto got = cl.Recover(a2);
      c.check(got == db[i / side][i % side] && sv.GetValue(i) == db[i / side][i % side], "simplepir entry", "entry {}: {} for {} [{}]", i, got, db[i / side][i % side], c.desc);
      c.event("simplepir entries");
    }
  }
  c.check(!vh::Thrown([&] { cl.Query(N); }).empty(), "index beyond the end", "[{}]", c.desc);
  size_t odd = N + 1 + r.below(2 * side);
  c.check(!vh::Thrown([&] { SimplePirServer(dim, q, odd == (side + 1) * (side + 1) ? odd + 1 : odd, p); }).empty(), "size that is no square", "{} [{}]", odd, c.desc);
}

void Pps(vh::Case& c) {
  using namespace pir::pps;
  auto& r = c.rng;
  uint64_t n = r.pick({uint64_t(64), uint64_t(256), uint64_t(r.range(100, 1500)), uint64_t(4096)});
  uint64_t lo = std::ceil(std::sqrt(n / 2.0)), hi = std::floor(std::sqrt(2.0 * n));
  while (lo * lo < n / 2) ++lo;
  uint64_t s = r.pick({lo, hi, uint64_t(r.range(lo, hi)), uint64_t(std::sqrt(n))});
  bool multi = r.chance(0.6);
  c.describe(fmt::format("n={} set={} multi={} {:x}", n, s, multi, r.u64()));
  yacl::dynamic_bitset<> bits(n);
  for (uint64_t i = 0; i < n; ++i) bits[i] = r.chance(0.5);
  PpsPirClient cl(1000, n, s);
  PpsPirServer off(n, s), on(n, s);
  auto w = yacl::link::test::SetupWorld(2), wo = yacl::link::test::SetupWorld(2);
  auto ask = [&](PIRPuncKey& k) {
    PIRPuncKey got;
    Pass([&] { ClientSendToOnlineServer(k, wo[0]); }, [&] { OnlineServerRecvFromClient(got, wo[1]); });
    return got;
  };
  auto reply = [&](bool a) {
    bool got = !a;
    Pass([&] { OnlineServerSendToClient(a, wo[1]); }, [&] { ClientRecvFromOnlineServer(got, wo[0]); });
    return got;
  };
  size_t queries = 0, aborted = 0;
  // the set a punctured key stands for: s - 1 shifted elements
  auto shape = [&](PIRPuncKey& k) {
    PPS p(n, s);
    std::set<uint64_t> got;
    p.Eval(k, got);
    c.check(got.size() == s - 1, "punctured set", "{} elements [{}]", got.size(), c.desc);
  };
  if (multi) {
    std::vector<PIRKeyUnion> ck, ck2;
    std::vector<std::unordered_set<uint64_t>> v;
    cl.Setup(ck, v);
    Pass([&] { ClientSendToOfflineServerM(ck, w[0]); }, [&] { OfflineServerRecvFromClientM(ck2, w[1]); });
    yacl::dynamic_bitset<> h0, h;
    off.Hint(ck2, bits, h0);
    Pass([&] { OfflineServerSendToClient(h0, w[1]); }, [&] { ClientRecvFromOfflineServer(h, w[0]); });
    c.check(h == h0 && h.size() == cl.MM(), "hint transport", "[{}]", c.desc);
    std::vector<uint64_t> idx;
    int shape_of = r.below(3);
    uint64_t rounds = r.pick({60, 120});
    for (uint64_t k = 0; k < rounds; ++k) idx.push_back(shape_of == 0 ? r.below(n) : shape_of == 1 ? k % n : n - 1 - k % 3);
    for (uint64_t i : idx) {
      PIRPuncKey l, rr;
      PIRQueryParam prm;
      cl.Query(i, ck, v, prm, l, rr);
      auto l2 = ask(l), r2 = ask(rr);
      c.check(l2.k_ == l.k_ && l2.pos_ == l.pos_ && l2.delta_ == l.delta_, "key transport", "[{}]", c.desc);
      shape(l2);
      shape(r2);
      bool al = false, ar = false, bit = false;
      on.AnswerMulti(l2, r2, al, ar, bits);
      al = reply(al);
      ar = reply(ar);
      ++queries;
      if (cl.Reconstruct(prm, h, al, ar, bit) == PIR_ABORT) { ++aborted; continue; }
      c.check(bit == bool(bits[i]), "pps entry", "bit {} after {} queries [{}]", i, queries, c.desc);
      c.event("pps entries");
      // the refreshed hint is the parity of the set that replaced the used one
      PPS p(n, s);
      std::set<uint64_t> e;
      p.Eval(ck[prm.j_].k_, e);
      bool par = false;
      bool same = e.size() == v[prm.j_].size();
      for (auto x : e) { par ^= bool(bits[(x + ck[prm.j_].delta_) % n]); same &= v[prm.j_].count(x) > 0; }
      c.check(same && par == bool(h[prm.j_]), "refreshed hint", "hint {} after {} queries [{}]", prm.j_, queries, c.desc);
      c.event("hints refreshed");
    }
  } else {
    int rounds = c.thorough ? 12 : 6;
    for (int k = 0; k < rounds; ++k) {
      PIRKey sk = 0, sk2 = 0;
      std::set<uint64_t> d, d2;
      cl.Setup(sk, d);
      Pass([&] { ClientSendToOfflineServer(sk, d, w[0]); }, [&] { OfflineServerRecvFromClient(sk2, d2, w[1]); });
      c.check(sk == sk2 && d == d2 && d.size() == cl.M(), "setup transport", "[{}]", c.desc);
      yacl::dynamic_bitset<> h0, h;
      off.Hint(sk2, d2, bits, h0);
      Pass([&] { OfflineServerSendToClient(h0, w[1]); }, [&] { ClientRecvFromOfflineServer(h, w[0]); });
      for (int m = 0; m < 8; ++m) {
        uint64_t i = m == 0 ? 0 : m == 1 ? n - 1 : r.below(n);
        PIRPuncKey pk;
        PIRQueryParam prm;
        cl.Query(i, sk, d, prm, pk);
        auto pk2 = ask(pk);
        shape(pk2);
        bool a = reply(on.Answer(pk2, bits)), bit = false;
        ++queries;
        if (cl.Reconstruct(prm, h, a, bit) == PIR_ABORT) { ++aborted; continue; }
        c.check(bit == bool(bits[i]), "pps entry", "bit {} [{}]", i, c.desc);
        c.event("pps entries");
      }
    }
  }
  c.check(aborted * 2 <= queries + 10, "queries without an answer", "{} of {} [{}]", aborted, queries, c.desc);
}

void Piano(vh::Case& c) {
  using namespace pir::piano;
  auto& r = c.rng;
  uint64_t n = r.pick({1, 2, 3, 16, 17, int(r.range(4, 200)), int(r.range(200, c.thorough ? 3000 : 700))});
  uint64_t es = r.pick({1, 4, 8, 9, int(r.range(2, 40))});
  uint64_t th = r.pick({0, 1, 2, 3, 8});
  c.describe(fmt::format("entries={} size={} threads={} {:x}", n, es, th, r.u64()));
  std::vector<uint8_t> db(n * es);
  for (auto& x : db) x = r.below(256);
  auto copy = db;
  QueryServiceServer sv(copy, n, es);
  QueryServiceClient cl(n, th, es);
  auto [chunk, sets] = GenChunkParams(n);
  c.check(cl.GetChunkNumber() == sets && chunk * sets >= n, "chunks", "[{}]", c.desc);
  for (uint64_t k = 0; k < cl.GetChunkNumber(); ++k) cl.PreprocessDBChunk(sv.GetDBChunk(k));
  uint64_t limit = std::min<uint64_t>(cl.GetTotalQueryNumber(), c.thorough ? 2000 : 400);
  int mode = r.below(4);
  uint64_t hot = r.below(n);
  size_t repeated = 0, direct = 0;
  std::set<uint64_t> seen;
  for (uint64_t k = 0; k < limit; ++k) {
    uint64_t i = mode == 0 ? r.below(n) : mode == 1 ? k % n : mode == 2 ? (r.chance(0.5) ? hot : r.below(n)) : std::min(n - 1, r.below(chunk));
    auto q = cl.GenerateIndexQuery(i);
    auto ids = DeserializeSetParityQuery(q);
    bool ok = ids.size() == sets;
    for (size_t z = 0; ok && z < ids.size(); ++z) ok = ids[z] / chunk == z;
    c.check(ok, "query shape", "[{}]", c.desc);
    if (!seen.count(i)) direct += ids[i / chunk] == i;
    auto got = cl.RecoverIndexReply(sv.GenerateIndexReply(q)).GetData();
    c.check(got == std::vector<uint8_t>(db.begin() + i * es, db.begin() + (i + 1) * es), "piano entry", "entry {} at query {} (asked before: {}) [{}]", i, k, seen.count(i), c.desc);
    repeated += !seen.insert(i).second;
    c.event("piano entries");
  }
  // a fresh query hides its index behind a random element of the same chunk
  double mean = double(seen.size()) / chunk;
  c.check(direct <= mean + 8 * std::sqrt(mean) + 12, "queried entry in the request", "{} of {} [{}]", direct, seen.size(), c.desc);
  if (repeated) c.event("repeated queries", repeated);
}
}  // namespace

int main(int argc, char** argv) { return vh::Main(argc, argv, {{"simple", Simple}, {"pps", Pps}, {"piano", Piano}}); }
