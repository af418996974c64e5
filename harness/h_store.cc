// Storage and bookkeeping structures: every item that goes in comes out
// exactly once, unchanged, and in the documented place.
#include <cmath>
#include <cstring>
#include <memory>

#include "vh.h"
#include "absl/strings/escaping.h"
#include "psi/utils/arrow_csv_batch_provider.h"
#include "psi/utils/batch_provider_impl.h"
#include "psi/utils/communication.h"
#include "psi/utils/cuckoo_index.h"
#include "psi/utils/ec_point_store.h"
#include "psi/utils/hash_bucket_cache.h"
#include "psi/utils/index_store.h"
#include "psi/utils/serialize.h"
#include "verif/shim_ctl.h"

using namespace psi;
namespace {
namespace fs = std::filesystem;

size_t AnySize(vh::Rng& r, size_t big) {
  switch (r.below(5)) {
    case 0: return r.below(3);
    case 1: return r.range(1, 20);
    case 2: return (size_t{1} << r.below(static_cast<size_t>(std::log2(big)) + 1)) + r.range(-1, 1) % (big + 1);
    default: return r.below(big + 1);
  }
}
std::string AnyBytes(vh::Rng& r, size_t max = 40) { return r.chance(0.5) ? r.bytes(r.below(max + 1)) : r.str(r.below(max + 1)); }

// ---------------------------------------------------------------- messages
void Messages(vh::Case& c) {
  auto& r = c.rng;
  static const uint64_t edge[] = {0, 1, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, ~0ull >> 1, ~0ull};
  auto any64 = [&] { return r.chance(0.4) ? edge[r.below(14)] : r.u64() >> r.below(64); };
  uint64_t s = any64();
  c.check(utils::DeserializeSize(utils::SerializeSize(s)) == s, "size-roundtrip", "{}", s);
  {
    std::vector<uint64_t> v(AnySize(r, 200));
    for (auto& x : v) x = any64();
    c.check(utils::DeserializeIndexes<uint64_t>(utils::SerializeIndexes(v)) == v, "indexes64", "{} values", v.size());
    std::vector<uint32_t> w(AnySize(r, 200));
    for (auto& x : w) x = static_cast<uint32_t>(any64());
    c.check(utils::DeserializeIndexes<uint32_t>(utils::SerializeIndexes(w)) == w, "indexes32", "{} values", w.size());
  }
  {
    std::vector<std::string> items(AnySize(r, 60));
    for (auto& x : items) x = AnyBytes(r);
    std::unordered_map<ItemIndexType, ItemCntType> dup, got_dup, only;
    for (size_t i = r.below(20); i; --i) dup[any64()] = static_cast<uint32_t>(any64());
    std::vector<std::string> got;
    utils::DeserializeStrItems(utils::SerializeStrItems(items, dup), &got, &got_dup);
    c.check(got == items, "items", "sent {} items, got {}", items.size(), got.size());
    c.check(got_dup == dup, "items-dup", "sent {} counts, got {}", dup.size(), got_dup.size());
    got.clear();
    utils::DeserializeStrItems(utils::SerializeStrItems(items), &got);
    c.check(got == items, "items-plain", "sent {} items, got {}", items.size(), got.size());
    only = utils::DeserializeItemsCnt(utils::SerializeItemsCnt(dup));
    c.check(only == dup, "counts", "sent {} counts, got {}", dup.size(), only.size());
  }
  {
    PsiDataBatch b, g;
    b.item_num = static_cast<uint32_t>(any64());
    b.flatten_bytes = r.bytes(r.below(300));
    b.batch_index = static_cast<int32_t>(any64());
    b.is_last_batch = r.chance(0.5);
    b.type = r.pick({std::string(""), std::string("enc"), std::string("dual.enc")});
    for (size_t i = r.below(20); i; --i) b.duplicate_item_cnt[static_cast<uint32_t>(any64())] = static_cast<uint32_t>(any64());
    g = PsiDataBatch::Deserialize(b.Serialize());
    c.check(g.item_num == b.item_num && g.flatten_bytes == b.flatten_bytes && g.batch_index == b.batch_index && g.is_last_batch == b.is_last_batch && g.type == b.type && g.duplicate_item_cnt == b.duplicate_item_cnt,
            "batch-roundtrip", "batch {} items {}", b.batch_index, b.item_num);
  }
  {
    // enough bytes that a false match is at most 2^-stat likely, and no more than needed
    auto clog = [](uint64_t v) { size_t k = 0; while ((1ull << k) < v) ++k; return k; };
    uint64_t a = 1 + (r.u64() >> r.range(16, 63)), b = 1 + (r.u64() >> r.range(16, 63));
    if (r.chance(0.3)) a = (1ull << r.below(40)) + (r.chance(0.5) ? 1 : 0);
    size_t stat = r.chance(0.5) ? 40 : r.range(0, 128);
    size_t got = stat == 40 && r.chance(0.5) ? utils::GetCompareBytesLength(a, b) : utils::GetCompareBytesLength(a, b, stat);
    c.check(got == (clog(a) + clog(b) + stat + 7) / 8, "compare-bytes", "a={} b={} stat={} got {}", a, b, stat, got);
  }
  {
    // a damaged encoding is refused or decodes to something; ASan watches the decoding
    std::vector<std::string> items(r.below(8));
    for (auto& x : items) x = AnyBytes(r);
    std::unordered_map<ItemIndexType, ItemCntType> dup;
    for (size_t i = r.below(6); i; --i) dup[any64()] = static_cast<uint32_t>(any64());
    std::vector<uint64_t> v(r.below(12));
    for (auto& x : v) x = any64();
    PsiDataBatch b;
    b.item_num = items.size();
    b.flatten_bytes = r.bytes(r.below(200));
    b.type = "enc";
    b.duplicate_item_cnt[1] = 2;
    std::vector<yacl::Buffer> sent{utils::SerializeSize(s), utils::SerializeIndexes(v), utils::SerializeStrItems(items, dup), utils::SerializeItemsCnt(dup), b.Serialize()};
    for (int k = 0; k < 12; ++k) {
      const auto& whole = sent[r.below(sent.size())];
      std::vector<char> d(whole.data<char>(), whole.data<char>() + whole.size());  // exactly sized: an overread is caught
      if (r.chance(0.5) && !d.empty()) d.resize(r.below(d.size()));
      for (size_t n = r.below(4); n && !d.empty(); --n) d[r.below(d.size())] ^= static_cast<char>(1 << r.below(8));
      if (r.chance(0.2)) for (size_t n = r.below(12); n; --n) d.push_back(static_cast<char>(r.u64()));
      d.shrink_to_fit();
      yacl::Buffer bad(d.data(), d.size());
      try { utils::DeserializeSize(bad); } catch (const std::exception&) {}
      try { utils::DeserializeIndexes<uint64_t>(bad); utils::DeserializeIndexes<uint32_t>(bad); } catch (const std::exception&) {}
      std::vector<std::string> got;
      std::unordered_map<ItemIndexType, ItemCntType> gd;
      try { utils::DeserializeStrItems(bad, &got, &gd); } catch (const std::exception&) {}
      try { utils::DeserializeItemsCnt(bad); } catch (const std::exception&) {}
      try { PsiDataBatch::Deserialize(bad); } catch (const std::exception&) {}
      c.event("damaged messages decoded");
    }
  }
  c.event("messages round-tripped", 7);
  c.describe(fmt::format("{}", c.seed));
}

// ---------------------------------------------------------------- cuckoo
void Cuckoo(vh::Case& c) {
  auto& r = c.rng;
  uint64_t n = std::max<uint64_t>(1, AnySize(r, c.thorough ? 60000 : 6000));
  CuckooIndex::Options o;
  bool selected = r.chance(0.6);
  if (selected) {
    o = CuckooIndex::SelectParams(n, 0, r.chance(0.5) ? 3 : 0);
    c.check(o.num_input == n && o.num_stash == 0 && o.num_hash == 3 && o.NumBins() > n, "params", "n={} bins={}", n, o.NumBins());
  } else {
    o = CuckooIndex::Options{n, r.below(9), static_cast<uint64_t>(r.range(2, 5)), 1.3 + r.below(200) / 100.0};
    if (o.NumBins() == 0) o.scale_factor = 3;
  }
  c.describe(fmt::format("n={} stash={} hashes={} scale={:.3f} seed={}", n, o.num_stash, o.num_hash, o.scale_factor, c.seed % 997));
  std::vector<uint128_t> codes(n);
  for (auto& x : codes) x = (static_cast<uint128_t>(r.u64()) << 64) | r.u64();
  if (r.chance(0.15) && n > 3)  // crowd some bins
    for (size_t i = 0; i < std::min<size_t>(n, 4); ++i) codes[i] = (codes[i] >> 64 << 64) | (static_cast<uint64_t>(codes[0]) & 0xffffffffull);
  CuckooIndex idx(o);
  std::vector<CuckooIndex::HashType> feed;
  size_t done = 0;
  auto what = vh::Thrown([&] {
    while (done < n) {
      size_t k = r.chance(0.5) ? n - done : std::min<size_t>(n - done, 1 + r.below(n));
      idx.Insert(absl::MakeSpan(codes.data() + done, k));
      done += k;
    }
  });
  if (!what.empty()) {
    c.check(what.find("stash") != std::string::npos, "insert-throws", "{}", what);
    c.event("tables that overflowed");
    // Statistical: with the selected parameters this needs a crowded tiny table.
    c.check(!selected || n < 256, "overflow", "n={} bins={}", n, o.NumBins());
    return;
  }
  std::vector<int> seen(n, 0);
  size_t bins = o.NumBins(), used = 0;
  c.check(idx.bins().size() == bins && idx.stash().size() == o.num_stash && idx.hashes().size() == n, "shape", "{} {} {}", idx.bins().size(), idx.stash().size(), idx.hashes().size());
  auto hash = [&](uint64_t in, size_t h) {
    uint64_t v = static_cast<uint64_t>(codes[in] >> (16 * h));
    return v;
  };
  for (size_t b = 0; b < idx.bins().size(); ++b) {
    auto& x = idx.bins()[b];
    if (x.IsEmpty()) continue;
    ++used;
    if (!c.check(x.InputIdx() < n && x.HashIdx() < o.num_hash, "bin-range", "bin {} input {} hash {}", b, x.InputIdx(), x.HashIdx())) return;
    seen[x.InputIdx()]++;
    if (!c.check(hash(x.InputIdx(), x.HashIdx()) % bins == b, "wrong-bin", "input {} via hash {} sits in bin {}", x.InputIdx(), x.HashIdx(), b)) return;
    size_t want = 0;
    while (hash(x.InputIdx(), want) % bins != b) ++want;
    if (!c.check(idx.MinCollidingHashIdx(b) == want, "min-hash", "bin {} got {} want {}", b, idx.MinCollidingHashIdx(b), want)) return;
  }
  for (auto& x : idx.stash())
    if (!x.IsEmpty()) {
      c.event("stashed inputs");
      if (!c.check(x.InputIdx() < n, "stash-range", "{}", x.InputIdx())) return;
      seen[x.InputIdx()]++;
    }
  for (size_t i = 0; i < n; ++i)
    if (!c.check(seen[i] == 1, "not-exactly-once", "input {} stored {} times of n={}", i, seen[i], n)) return;
  auto sane = vh::Thrown([&] { idx.SanityCheck(); });
  c.check(sane.empty(), "sanity-check", "{}", sane);
  for (size_t i = 0; i < std::min<size_t>(n, 50); ++i)
    for (size_t h = 0; h < o.num_hash; ++h) c.check(idx.hashes()[i].GetHash(h) == hash(i, h), "hash-slice", "input {} hash {}", i, h);
  c.event("cuckoo inputs located", n);
  if (used == 0) c.trivial();
}

// ---------------------------------------------------------------- buckets
struct DupProvider : IBasicBatchProvider {
  std::vector<std::string> items;
  std::vector<uint32_t> dup;
  size_t at = 0, batch = 1;
  std::vector<std::string> ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> p;
    for (size_t i = 0; i < batch && at < items.size(); ++i, ++at) {
      p.first.push_back(items[at]);
      if (dup[at]) p.second[i] = dup[at];
    }
    return p;
  }
  [[nodiscard]] size_t batch_size() const override { return batch; }
};
std::vector<std::string> DistinctItems(vh::Rng& r, size_t n) {
  std::set<std::string> s;
  while (s.size() < n) s.insert(r.chance(0.5) ? r.bytes(r.range(1, 33)) : r.str(r.range(1, 20)));
  std::vector<std::string> v(s.begin(), s.end());
  r.shuffle(v);
  return v;
}
void CheckCache(vh::Case& c, HashBucketCache& cache, const std::vector<std::string>& items, const std::vector<uint32_t>& dup, uint32_t bins, std::map<std::string, uint32_t>* where) {
  c.check(cache.BucketNum() == bins && cache.ItemCount() == items.size(), "bucket-counts", "{} {}", cache.BucketNum(), cache.ItemCount());
  std::vector<int> seen(items.size(), 0);
  for (uint32_t b = 0; b < bins; ++b) {
    uint64_t last = 0;
    bool first = true;
    for (auto& it : cache.LoadBucketItems(b)) {
      if (!c.check(it.index < items.size(), "bucket-index", "bucket {} index {}", b, it.index)) return;
      c.check(first || it.index > last, "bucket-order", "bucket {} index {} after {}", b, it.index, last);
      first = false;
      last = it.index;
      seen[it.index]++;
      std::string raw;
      c.check(absl::Base64Unescape(it.base64_data, &raw) && raw == items[it.index], "bucket-data", "index {}", it.index);
      c.check(it.extra_dup_cnt == dup[it.index], "bucket-dup", "index {} got {} want {}", it.index, it.extra_dup_cnt, dup[it.index]);
      auto [p, fresh] = where->emplace(items[it.index], b);
      c.check(fresh || p->second == b, "bucket-place", "same item in buckets {} and {}", p->second, b);
    }
  }
  for (size_t i = 0; i < seen.size(); ++i)
    if (!c.check(seen[i] == 1, "bucket-lost", "item {} found {} times", i, seen[i])) return;
  c.event("bucketed items", items.size());
}
void Buckets(vh::Case& c) {
  auto& r = c.rng;
  auto items = DistinctItems(r, AnySize(r, c.thorough ? 3000 : 600));
  uint32_t bins = r.chance(0.2) ? 1 : r.range(1, 70);
  std::vector<uint32_t> dup(items.size());
  for (auto& d : dup) d = r.chance(0.3) ? r.range(1, r.chance(0.1) ? 0x7fffffff : 5) : 0;
  c.describe(fmt::format("items={} bins={} seed={}", items.size(), bins, c.seed % 997));
  std::map<std::string, uint32_t> where;
  auto dir = c.dir / "cache" / "deep";
  bool scoped = r.chance(0.6);
  {
    std::unique_ptr<HashBucketCache> cache;
    if (r.chance(0.5)) {
      cache = std::make_unique<HashBucketCache>(dir.string(), bins, scoped);
      for (size_t i = 0; i < items.size(); ++i) dup[i] || r.chance(0.5) ? cache->WriteItem(items[i], dup[i]) : cache->WriteItem(items[i]);
      cache->Flush();
    } else {
      auto p = std::make_shared<DupProvider>();
      p->items = items;
      p->dup = dup;
      p->batch = r.range(1, 97);
      cache = CreateCacheFromProvider(p, dir.string(), bins, scoped);
    }
    CheckCache(c, *cache, items, dup, bins, &where);
  }
  if (scoped) c.check(vh::ListDir(dir).empty(), "scratch-left", "{} entries", vh::ListDir(dir).size());
  {  // the other party puts the same items into the same buckets
    auto other = items;
    r.shuffle(other);
    other.resize(other.size() / 2 + (other.empty() ? 0 : 1));
    HashBucketCache cache((c.dir / "other").string(), bins, true);
    for (auto& x : other) cache.WriteItem(x);
    cache.Flush();
    CheckCache(c, cache, other, std::vector<uint32_t>(other.size(), 0), bins, &where);
  }
  // from csv
  if (!items.empty()) {
    size_t cols = r.range(1, 3);
    std::string csv = "pad";
    std::vector<std::string> keys, joined;
    for (size_t i = 0; i < cols; ++i) { keys.push_back(fmt::format("k{}", i)); csv += "," + keys.back(); }
    csv += "\n";
    for (size_t i = 0; i < items.size(); ++i) {
      std::vector<std::string> f;
      for (size_t k = 0; k < cols; ++k) f.push_back(r.str(r.range(1, 9)) + std::to_string(i));
      csv += fmt::format("x,{}\n", fmt::join(f, ","));
      joined.push_back(fmt::format("{}", fmt::join(f, ",")));
    }
    vh::WriteAll(c.dir / "in.csv", csv);
    auto cache = CreateCacheFromCsv((c.dir / "in.csv").string(), keys, (c.dir / "csvc").string(), bins, r.range(1, 300), true);
    std::map<std::string, uint32_t> w2;
    CheckCache(c, *cache, joined, std::vector<uint32_t>(joined.size(), 0), bins, &w2);
    cache.reset();
    c.check(vh::ListDir(c.dir / "csvc").empty(), "scratch-left", "csv cache left files");
  }
}

// Matching two stores, every store kind, against a plain set intersection.
void Match(vh::Case& c) {
  auto& r = c.rng;
  size_t na = AnySize(r, c.thorough ? 2000 : 400), nb = AnySize(r, c.thorough ? 2000 : 400);
  auto pool = DistinctItems(r, std::max(na, nb) + r.below(std::min(na, nb) + 2));
  for (auto& p : pool) p.resize(32, 'p');
  {
    std::set<std::string> s(pool.begin(), pool.end());
    pool.assign(s.begin(), s.end());
  }
  r.shuffle(pool);
  na = std::min(na, pool.size());
  nb = std::min(nb, pool.size());
  std::vector<std::string> a(pool.begin(), pool.begin() + na), b(pool.end() - nb, pool.end());
  r.shuffle(b);
  std::vector<uint32_t> da(na), db(nb);
  for (auto& d : da) d = r.chance(0.3) ? r.range(1, 6) : 0;
  for (auto& d : db) d = r.chance(0.3) ? r.range(1, 6) : 0;
  std::map<std::string, size_t> ia, ib;
  for (size_t i = 0; i < na; ++i) ia[a[i]] = i;
  for (size_t i = 0; i < nb; ++i) ib[b[i]] = i;
  std::map<uint64_t, uint64_t> want;  // index in a -> count in b
  uint32_t total = 0, inter = 0;
  for (size_t i = 0; i < nb; ++i) {
    total += db[i] + 1;
    auto it = ia.find(b[i]);
    if (it != ia.end()) { want[it->second] = db[i]; inter += db[i] + 1; }
  }
  c.describe(fmt::format("a={} b={} common={} seed={}", na, nb, want.size(), c.seed % 997));
  if (want.empty()) c.trivial();
  c.event("matches expected", want.size());
  size_t bins = r.range(1, 20);
  auto save = [&](IEcPointStore& s, const std::vector<std::string>& v, const std::vector<uint32_t>& d, bool counts) {
    size_t at = 0;
    while (at < v.size()) {
      size_t k = std::min<size_t>(v.size() - at, r.range(1, 60));
      std::vector<std::string> part(v.begin() + at, v.begin() + at + k);
      std::unordered_map<uint32_t, uint32_t> m;
      for (size_t i = 0; i < k; ++i) if (d[at + i]) m[i] = d[at + i];
      if (counts) s.Save(part, m); else s.Save(part);
      at += k;
    }
  };
  {
    auto sa = std::make_shared<HashBucketEcPointStore>((c.dir / "a").string(), bins);
    auto sb = std::make_shared<HashBucketEcPointStore>((c.dir / "b").string(), bins);
    save(*sa, a, da, true);
    save(*sb, b, db, true);
    c.check(sa->ItemCount() == na && sb->ItemCount() == nb, "store-count", "{} {}", sa->ItemCount(), sb->ItemCount());
    std::vector<uint64_t> w;
    for (auto& [i, n] : want) w.push_back(i);
    auto got = FinalizeAndComputeIndices(sa, sb);
    c.check(got == w, "indices", "got {} want {}", got.size(), w.size());
    std::pair<uint32_t, uint32_t> rep;
    {
      IndexWriter wr(c.dir / "idx.csv", r.chance(0.5) ? kIndexWriterCacheSize : r.range(1, 50), true);
      rep = FinalizeAndComputeIndices(sa, sb, &wr);
      c.check(wr.write_cnt() == want.size(), "written", "{}", wr.write_cnt());
      wr.Close();
    }
    c.check(rep == std::make_pair(total, inter), "report", "got {},{} want {},{}", rep.first, rep.second, total, inter);
    std::map<uint64_t, uint64_t> back;
    FileIndexReader rd(c.dir / "idx.csv");
    while (auto x = rd.GetNextWithPeerCnt()) c.check(back.insert(*x).second, "index-twice", "{}", x->first);
    c.check(back == want, "index-file", "got {} want {}", back.size(), want.size());
  }
  {
    MemoryEcPointStore m;
    save(m, a, da, true);
    c.check(m.content() == a && m.ItemCount() == na, "memory-store", "{}", m.content().size());
    std::unordered_map<uint32_t, uint32_t> w;
    for (size_t i = 0; i < na; ++i) if (da[i]) w[i] = da[i];
    c.check(m.GetDupMap() == w, "memory-dup", "{} vs {}", m.GetDupMap().size(), w.size());
  }
  {
    size_t len = r.chance(0.5) ? 32 : r.range(16, 32);
    std::set<std::string> cut;
    auto trim = [&](std::vector<std::string> v) { for (auto& x : v) x = x.substr(x.size() - len); return v; };
    // keep distinctness after trimming: prefix bytes carry the entropy
    auto head = [&](std::vector<std::string> v) { for (auto& x : v) x.resize(len); return v; };
    (void)trim;
    auto ha = head(a), hb = head(b);
    for (auto& x : pool) cut.insert(x.substr(0, len));
    if (cut.size() == pool.size()) {
      auto path = c.dir / "ub" / "cache.bin";
      size_t split = r.below(nb + 1);
      std::shared_ptr<UbPsiClientCacheFileStore> peer;
      {
        auto p = std::make_shared<UbPsiClientCacheFileStore>(path.string(), len);
        for (size_t i = 0; i < split; ++i) p->Save(hb[i], db[i]);
        if (r.chance(0.5)) p->Flush();
      }
      peer = std::make_shared<UbPsiClientCacheFileStore>(path.string(), len);  // reopen, append
      c.check(peer->ItemCount() == split, "cache-reopen", "{} vs {}", peer->ItemCount(), split);
      for (size_t i = split; i < nb; ++i) peer->Save(hb[i], db[i]);
      peer->Flush();
      c.check(peer->ItemCount() == nb && peer->PeerCount() == total, "cache-count", "items {} want {}, peer {} want {}", peer->ItemCount(), nb, peer->PeerCount(), total);
      auto prov = peer->GetBatchProvider(r.range(1, 90));
      std::vector<std::string> read;
      std::vector<uint32_t> rd;
      while (true) {
        auto [it, dc] = prov->ReadNextBatchWithDupCnt();
        if (it.empty()) break;
        c.check(it.size() <= prov->batch_size(), "cache-batch", "{}", it.size());
        for (size_t i = 0; i < it.size(); ++i) { read.push_back(it[i]); rd.push_back(dc.count(i) ? dc[i] : 0); }
      }
      c.check(read == hb && rd == db, "cache-content", "{} vs {}", read.size(), nb);
      auto self = std::make_shared<UbPsiClientCacheMemoryStore>();
      save(*self, ha, da, true);
      auto info = ComputeIndicesWithDupCnt(self, peer, r.range(1, 90));
      std::map<uint64_t, std::array<uint64_t, 3>> got, w;
      for (auto& [i, n] : want) w[i] = {ib[a[i]], da[i], n};
      if (c.check(info.self_indices.size() == info.peer_indices.size() && info.self_indices.size() == info.self_dup_cnt.size() && info.self_indices.size() == info.peer_dup_cnt.size(), "ub-shape", "{}", info.self_indices.size()))
        for (size_t i = 0; i < info.self_indices.size(); ++i)
          c.check(got.emplace(info.self_indices[i], std::array<uint64_t, 3>{info.peer_indices[i], info.self_dup_cnt[i], info.peer_dup_cnt[i]}).second, "ub-twice", "{}", info.self_indices[i]);
      c.check(got == w, "ub-match", "got {} want {}", got.size(), w.size());
      if (len > 16) {
        auto bad = vh::Thrown([&] { UbPsiClientCacheFileStore x(path.string(), len - 1); });
        c.check(!bad.empty(), "cache-length-accepted", "{} opened as {}", len, len - 1);
      }
      c.event("cache stores compared");
    }
  }
  {
    std::string csv = "x,key\n";
    std::vector<std::string> ka;
    for (size_t i = 0; i < na; ++i) { ka.push_back(vh::Hex(a[i], 99)); csv += fmt::format("{},{}\n", i, ka.back()); }
    vh::WriteAll(c.dir / "k.csv", csv);
    if (na) {
      std::vector<std::string> q;
      for (auto& x : b) q.push_back(vh::Hex(x, 99));
      auto got = GetIndicesByItems((c.dir / "k.csv").string(), {"key"}, q, r.range(1, 200));
      std::sort(got.begin(), got.end());
      std::vector<uint64_t> w;
      for (auto& [i, n] : want) w.push_back(i);
      c.check(got == w, "indices-by-items", "got {} want {}", got.size(), w.size());
    }
  }
}

// ---------------------------------------------------------------- batches
void Batches(vh::Case& c) {
  auto& r = c.rng;
  size_t n = AnySize(r, c.thorough ? 5000 : 1000), batch = r.chance(0.3) ? r.range(1, 5) : r.range(1, 700);
  if (r.chance(0.2) && n) batch = r.pick({n, n + 1, n > 1 ? n - 1 : n, (n + 1) / 2});
  c.describe(fmt::format("n={} batch={} seed={}", n, batch, c.seed % 997));
  std::vector<std::string> items(n), labels(n);
  for (auto& x : items) x = AnyBytes(r, 20);
  for (auto& x : labels) x = AnyBytes(r, 20);
  {
    MemoryBatchProvider p(items, batch);
    std::vector<std::string> got;
    while (true) {
      auto b = p.ReadNextBatch();
      if (b.empty()) break;
      c.check(b.size() == std::min(batch, n - got.size()), "memory-batch-size", "{}", b.size());
      got.insert(got.end(), b.begin(), b.end());
    }
    c.check(got == items && p.ReadNextBatch().empty() && p.items() == items && p.batch_size() == batch, "memory-batches", "{} of {}", got.size(), n);
  }
  if (n) {
    MemoryBatchProvider p(items, batch, labels);
    std::vector<std::string> gi, gl;
    while (true) {
      auto [a, b] = p.ReadNextLabeledBatch();
      if (a.empty()) break;
      c.check(a.size() == b.size() && a.size() <= batch, "labeled-size", "{} {}", a.size(), b.size());
      gi.insert(gi.end(), a.begin(), a.end());
      gl.insert(gl.end(), b.begin(), b.end());
    }
    c.check(gi == items && gl == labels && p.labels() == labels, "labeled-batches", "{} of {}", gi.size(), n);
    MemoryBatchProvider q(items, batch);
    std::vector<std::string> d;
    while (true) {
      size_t k = r.range(1, 300);
      auto v = q.ReadNext(k);
      if (v.empty()) break;
      c.check(v.size() == std::min(k, n - d.size()), "read-next-size", "{} asked {}", v.size(), k);
      for (auto& x : v) { d.push_back(x.buf); c.check(x.cnt == 1, "read-next-cnt", "{}", x.cnt); }
    }
    c.check(d == items, "read-next", "{} of {}", d.size(), n);
    auto all = q.ReadAll();
    bool same = all.size() == n;
    for (size_t i = 0; same && i < n; ++i) same = all[i].buf == items[i];
    c.check(same, "read-all", "{} of {}", all.size(), n);
  }
  auto shuffled = [&](IShuffledBatchProvider& p, const std::vector<uint32_t>* dup, const char* kind, bool* moved) {
    std::vector<int> seen(n, 0);
    size_t pos = 0;
    while (true) {
      auto b = p.ReadNextShuffledBatch();
      if (b.batch_items.empty()) break;
      size_t k = b.batch_items.size();
      if (!c.check(b.batch_indices.size() == k && b.shuffled_indices.size() == k, fmt::format("{}-shape", kind), "{} {} {}", k, b.batch_indices.size(), b.shuffled_indices.size())) return;
      if (!c.check(k == std::min(batch, n - pos), fmt::format("{}-size", kind), "{} at {}", k, pos)) return;
      if (dup && !c.check(b.dup_cnts.size() == k, fmt::format("{}-dup-shape", kind), "{}", b.dup_cnts.size())) return;
      for (size_t i = 0; i < k; ++i) {
        size_t s = b.shuffled_indices[i];
        if (!c.check(b.batch_indices[i] == pos + i, fmt::format("{}-order", kind), "slot {} numbered {}", pos + i, b.batch_indices[i])) return;
        if (!c.check(s < n && b.batch_items[i] == items[s], fmt::format("{}-wrong-index", kind), "slot {} says row {}", pos + i, s)) return;
        if (dup && !c.check(b.dup_cnts[i] == (*dup)[s], fmt::format("{}-dup", kind), "row {} got {} want {}", s, b.dup_cnts[i], (*dup)[s])) return;
        seen[s]++;
        if (s != pos + i) *moved = true;
      }
      pos += k;
    }
    for (size_t i = 0; i < n; ++i) if (!c.check(seen[i] == 1, fmt::format("{}-lost", kind), "row {} delivered {} times", i, seen[i])) return;
    c.check(p.ReadNextShuffledBatch().batch_items.empty(), fmt::format("{}-end", kind), "data after the end");
    c.event("shuffled rows delivered", n);
  };
  bool moved = false;
  if (n) {
    MemoryBatchProvider p(items, batch, {}, true);
    shuffled(p, nullptr, "memshuffle", &moved);
    auto s = p.shuffled_indices();
    std::sort(s.begin(), s.end());
    bool perm = s.size() == n;
    for (size_t i = 0; perm && i < n; ++i) perm = s[i] == i;
    c.check(perm, "permutation", "{}", s.size());
    c.check(n < 30 || moved, "not-shuffled", "n={} in input order", n);
  }
  for (auto& x : items) if (x.empty()) x = "e";
  {
    auto src = std::make_shared<DupProvider>();
    src->items = items;
    src->dup.resize(n);
    for (auto& d : src->dup) d = r.chance(0.3) ? r.range(1, 9) : 0;
    src->batch = r.chance(0.3) ? r.range(1, 3) : r.range(1, 400);
    auto dup = src->dup;
    bool mv = false;
    size_t inner = src->batch;
    SimpleShuffledBatchProvider p(src, batch);
    c.check(p.batch_size() == batch, "batch-size", "{}", p.batch_size());
    shuffled(p, &dup, "shuffle", &mv);
    c.check(n < 30 || inner < 30 || mv, "not-shuffled", "n={} inner={} in input order", n, inner);
  }
}

std::string Field(vh::Rng& r) {
  switch (r.below(8)) {
    case 0: return r.str(r.range(1, 6), "0123456789");
    case 1: return "0" + r.str(3, "0123456789");
    case 2: return r.pick({std::string("true"), std::string("null"), std::string("NA"), std::string("1e5"), std::string("-0"), std::string("2020-01-01")});
    case 3: return r.str(r.range(1, 4)) + "," + r.str(2);
    case 4: return r.str(2) + "\"" + r.str(2);
    case 5: return "\xe4\xb8\xad" + r.str(2);
    default: return r.str(r.range(1, 12));
  }
}
std::string Quote(const std::string& s) {
  if (s.find_first_of(",\"\n") == std::string::npos) return s;
  std::string o = "\"";
  for (char ch : s) { if (ch == '"') o += '"'; o += ch; }
  return o + "\"";
}
void CsvBatches(vh::Case& c) {
  auto& r = c.rng;
  size_t n = AnySize(r, c.thorough ? 20000 : 2500), cols = r.range(1, 6), batch = r.chance(0.4) ? r.range(1, 20) : r.range(1, 3000);
  if (n && r.chance(0.3)) batch = r.pick({n, n + 1, n > 1 ? n - 1 : n, (n + 1) / 2});
  std::vector<std::string> names;
  for (size_t i = 0; i < cols; ++i) names.push_back(fmt::format("c{}", i));
  std::vector<size_t> order(cols);
  std::iota(order.begin(), order.end(), 0);
  r.shuffle(order);
  size_t nk = r.range(1, cols), nl = r.below(cols - nk + 1);
  std::vector<std::string> keys, labels;
  for (size_t i = 0; i < nk; ++i) keys.push_back(names[order[i]]);
  for (size_t i = 0; i < nl; ++i) labels.push_back(names[order[nk + i]]);
  char delim = r.chance(0.7) ? ',' : '|';
  std::string csv = fmt::format("{}\n", fmt::join(names, ","));
  std::vector<std::string> wk, wl;
  bool crlf = r.chance(0.1);
  for (size_t i = 0; i < n; ++i) {
    std::vector<std::string> row, q;
    for (size_t k = 0; k < cols; ++k) { row.push_back(Field(r)); q.push_back(Quote(row.back())); }
    csv += fmt::format("{}{}", fmt::join(q, ","), crlf ? "\r\n" : "\n");
    std::vector<std::string> a, b;
    for (size_t k = 0; k < nk; ++k) a.push_back(row[order[k]]);
    for (size_t k = 0; k < nl; ++k) b.push_back(row[order[nk + k]]);
    wk.push_back(fmt::format("{}", fmt::join(a, std::string(1, delim))));
    wl.push_back(fmt::format("{}", fmt::join(b, std::string(1, delim))));
  }
  vh::WriteAll(c.dir / "in.csv", csv);
  c.describe(fmt::format("n={} batch={} cols={} keys={} labels={} seed={}", n, batch, cols, nk, nl, c.seed % 997));
  if (n == 0) c.trivial();
  ArrowCsvBatchProvider p((c.dir / "in.csv").string(), keys, batch, labels, delim);
  std::vector<std::string> gk, gl;
  bool lab = r.chance(0.6);
  while (true) {
    std::vector<std::string> a, b;
    if (lab) std::tie(a, b) = p.ReadNextLabeledBatch(); else a = p.ReadNextBatch();
    if (a.empty()) break;
    if (!c.check(a.size() == std::min(batch, n - gk.size()), "csv-batch-size", "{} at {} of {}", a.size(), gk.size(), n)) return;
    if (lab && nl) c.check(a.size() == b.size(), "csv-label-count", "{} {}", a.size(), b.size());
    gk.insert(gk.end(), a.begin(), a.end());
    gl.insert(gl.end(), b.begin(), b.end());
  }
  c.check(gk == wk, "csv-keys", "{} rows of {}", gk.size(), n);
  if (lab && nl) c.check(gl == wl, "csv-labels", "{} rows of {}", gl.size(), n);
  c.check(p.ReadNextBatch().empty(), "csv-end", "data after the end");
  c.check(p.row_cnt() == n, "csv-row-count", "{} of {}", p.row_cnt(), n);
  c.event("csv rows read", n);
}

// ---------------------------------------------------------------- index store
void IndexStore(vh::Case& c) {
  auto& r = c.rng;
  auto path = c.dir / "idx.csv";
  std::vector<std::pair<uint64_t, uint64_t>> want;
  size_t sessions = r.range(1, 4);
  std::string trace;
  for (size_t s = 0; s < sessions; ++s) {
    bool trunc = r.chance(0.2);
    if (trunc) want.clear();
    size_t cache = r.pick({size_t{1}, size_t{2}, size_t{64}, kIndexWriterCacheSize});
    IndexWriter w(path, cache, trunc);
    c.check(w.path() == path && w.cache_size() == cache, "writer-props", "{}", w.cache_size());
    size_t cnt = 0, cached = 0;
    for (size_t ops = r.below(8); ops; --ops) {
      switch (r.below(4)) {
        case 0: {
          uint64_t i = r.u64() >> r.range(1, 63), d = r.chance(0.5) ? 0 : r.below(1000);
          auto ret = d ? w.WriteCache(i, d) : w.WriteCache(i);
          want.emplace_back(i, d); ++cnt; ++cached;
          c.check(ret == cnt, "write-count", "{} vs {}", ret, cnt);
          break;
        }
        case 1: {
          std::vector<uint64_t> v(AnySize(r, 3000)), d(v.size());
          for (size_t i = 0; i < v.size(); ++i) { v[i] = r.u64() >> r.range(1, 63); d[i] = r.below(9); want.emplace_back(v[i], d[i]); }
          w.WriteCache(v, d); cnt += v.size(); cached += v.size();
          break;
        }
        case 2: {
          std::vector<uint64_t> v(AnySize(r, 100));
          for (auto& x : v) { x = r.u64() >> r.range(1, 63); want.emplace_back(x, 0); }
          w.WriteCache(v); cnt += v.size(); cached += v.size();
          break;
        }
        case 3: {
          w.Commit(); cached = 0;
          // what was committed survives a crash here
          std::vector<std::pair<uint64_t, uint64_t>> now;
          FileIndexReader rd(path);
          while (auto x = rd.GetNextWithPeerCnt()) now.push_back(*x);
          c.check(now == want, "commit-not-durable", "{} of {}", now.size(), want.size());
          c.event("commits read back");
        }
      }
      c.check(w.cache_cnt() == cached && w.write_cnt() == cnt, "writer-counts", "{}/{} {}/{}", w.cache_cnt(), cached, w.write_cnt(), cnt);
    }
    if (r.chance(0.5)) { w.Close(); w.Close(); c.check(!vh::Thrown([&] { w.WriteCache(1); }).empty(), "write-after-close", "accepted"); }
    trace += fmt::format("{}{} ", trunc ? "T" : "A", cnt);
  }
  c.describe(trace + std::to_string(c.seed % 997));
  bool cnts = r.chance(0.5);
  FileIndexReader rd(path);
  std::vector<std::pair<uint64_t, uint64_t>> got;
  while (r.chance(0.2) ? (rd.HasNext() && rd.HasNext()) : rd.HasNext()) {
    if (cnts) { auto x = rd.GetNextWithPeerCnt(); if (!x) break; got.push_back(*x); }
    else { auto x = rd.GetNext(); if (!x) break; got.emplace_back(*x, 0); }
  }
  auto w = want;
  if (!cnts) for (auto& x : w) x.second = 0;
  c.check(got == w && rd.read_cnt() == w.size(), "read-back", "{} of {}", got.size(), w.size());
  c.check(!rd.GetNext().has_value() && !rd.GetNextWithPeerCnt().has_value(), "read-past-end", "value after the end");
  c.event("indexes read back", w.size());
  {
    std::map<uint32_t, uint32_t> m;
    for (size_t i = r.below(200); i; --i) m[static_cast<uint32_t>(r.u64() >> r.range(32, 60))] = r.below(10);
    std::vector<std::pair<uint32_t, uint32_t>> v(m.begin(), m.end());
    r.shuffle(v);
    std::vector<uint32_t> a, b;
    for (auto& x : v) { a.push_back(x.first); b.push_back(x.second); }
    MemoryIndexReader mr(a, b);
    bool two = r.chance(0.5);
    auto it = m.begin();
    while (mr.HasNext()) {
      if (two) { auto x = mr.GetNextWithPeerCnt(); c.check(it != m.end() && x && x->first == it->first && x->second == it->second, "memory-reader", "order or value"); }
      else { auto x = mr.GetNext(); c.check(it != m.end() && x && *x == it->first, "memory-reader", "order or value"); }
      if (it != m.end()) ++it;
    }
    c.check(it == m.end() && mr.read_cnt() == m.size() && !mr.GetNext(), "memory-reader-end", "{} of {}", mr.read_cnt(), m.size());
    c.check(a.empty() || !vh::Thrown([&] { std::vector<uint32_t> s(b.begin(), b.end() - 1); MemoryIndexReader x(a, s); }).empty(), "memory-reader-mismatch", "accepted");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"messages", Messages}, {"cuckoo", Cuckoo}, {"buckets", Buckets}, {"match", Match}, {"batches", Batches}, {"csv_batches", CsvBatches}, {"index", IndexStore}});
}
