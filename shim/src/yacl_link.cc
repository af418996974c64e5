#include "yacl/link/link.h"
#include "yacl/link/test_util.h"

#include <cstdlib>
#include <thread>

namespace verif {
std::atomic<uint64_t> Hub::total_msgs{0};
namespace {
// VERIF_JITTER_US: random delays before operations, to vary interleavings.
unsigned JitterMax() {
  static const unsigned v = [] { const char* e = std::getenv("VERIF_JITTER_US"); return e ? (unsigned)std::atoi(e) : 0u; }();
  return v;
}
void Jitter() {
  unsigned m = JitterMax();
  if (m == 0) return;
  static std::atomic<uint64_t> seq{0};
  thread_local uint64_t x = 0x9E3779B97F4A7C15ULL * (++seq + 77);
  x ^= x << 13; x ^= x >> 7; x ^= x << 17;
  if (x % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds((x >> 20) % m));
  else if (x % 4 == 1) std::this_thread::yield();
}
}  // namespace
Hub::Hub(size_t n) : n_(n), dead_(n, 0), left_(n, 0) {}
void Hub::Check(size_t r) {
  if (dead_[r]) throw yacl::LinkError(fmt::format("link of party {} is down", r));
}
bool Hub::Dead(size_t r) { std::lock_guard<std::mutex> g(mu_); return dead_[r]; }
void Hub::Kill(size_t r) {
  std::lock_guard<std::mutex> g(mu_);
  dead_[r] = 1; ++act_;
  cv_.notify_all();
}
void Hub::Leave(size_t r) {
  std::lock_guard<std::mutex> g(mu_);
  left_[r] = 1; ++act_;
  cv_.notify_all();
}
template <class P>
void Hub::Wait(std::unique_lock<std::mutex>& lk, size_t self, size_t peer, P ready, const char* what, const std::string& tag) {
  uint64_t seen = act_;
  auto t = std::chrono::steady_clock::now();
  const auto t0 = t;
  while (!ready()) {
    Check(self);
    if (dead_[peer] || left_[peer])
      throw yacl::LinkError(fmt::format("{}: peer {} is gone (tag {})", what, peer, tag));
    cv_.wait_for(lk, std::chrono::milliseconds(200));
    auto now = std::chrono::steady_clock::now();
    if (recv_timeout_ms > 0 && now - t0 > std::chrono::milliseconds(recv_timeout_ms) && !ready())
      throw yacl::IoError(fmt::format("Get data timeout, {} self={} peer={} tag={}", what, self, peer, tag));
    if (act_ != seen) { seen = act_; t = now; }
    else if (now - t > std::chrono::milliseconds(stall_ms))
      throw yacl::IoError(fmt::format("STALL {} self={} peer={} tag={}", what, self, peer, tag));
  }
}
void Hub::Send(const std::string& ctx, size_t src, size_t dst, std::string data, std::string tag, bool throttled, bool coll) {
  ops_++;
  Jitter();
  LinkEvent ev{true, ctx, tag, src, dst, {}, 0};
  if (record) ev.data = data;
  if (hook) hook(ev);
  if (rewrite) rewrite(ev, &data);
  std::unique_lock<std::mutex> lk(mu_);
  Check(src);
  total_msgs++;
  ++act_;
  if (record) { ev.no = log_.size(); log_.push_back(std::move(ev)); }
  q_[Key{ctx, src, dst, coll}].push_back({std::move(data), tag});
  uint64_t mine = ++sent_[{src, dst}];
  cv_.notify_all();
  if (throttled && window > 0)
    Wait(lk, src, dst, [&] { return acked_[{src, dst}] + window > mine || left_[dst]; }, "throttle", tag);
}
std::string Hub::Recv(const std::string& ctx, size_t src, size_t dst, std::string tag, bool coll) {
  ops_++;
  Jitter();
  LinkEvent ev{false, ctx, tag, src, dst, {}, 0};
  if (hook) hook(ev);
  std::unique_lock<std::mutex> lk(mu_);
  Check(dst);
  auto& q = q_[Key{ctx, src, dst, coll}];
  Wait(lk, dst, src, [&] { return !q.empty(); }, "recv", tag);
  Msg m = std::move(q.front());
  q.pop_front();
  ++acked_[{src, dst}];
  ++act_;
  if (record) { ev.no = log_.size(); ev.data = m.data; log_.push_back(std::move(ev)); }
  cv_.notify_all();
  return std::move(m.data);
}
std::vector<LinkEvent> Hub::Log() { std::lock_guard<std::mutex> g(mu_); return log_; }
bool Hub::AllDrained() { return Undelivered().empty(); }
std::vector<std::string> Hub::Undelivered() {
  std::lock_guard<std::mutex> g(mu_);
  std::vector<std::string> r;
  for (auto& [k, q] : q_) for (auto& m : q) r.push_back(k.ctx + ":" + m.tag);
  return r;
}
}  // namespace verif

namespace yacl::link {
Context::Context(ContextDesc desc, size_t rank, std::shared_ptr<verif::Hub> hub, std::vector<size_t> global)
    : desc_(std::move(desc)), id_(desc_.id), rank_(rank), hub_(std::move(hub)), global_(std::move(global)),
      recv_timeout_(desc_.recv_timeout_ms), child_(std::make_shared<std::atomic<size_t>>(0)) {}
void Context::SetThrottleWindowSize(uint32_t) {}
std::unique_ptr<Context> Context::Spawn(const std::string& id) {
  ContextDesc d = desc_;
  d.id = id.empty() ? fmt::format("{}-{}", id_, (*child_)++) : fmt::format("{}-{}", id_, id);
  return std::make_unique<Context>(d, rank_, hub_, global_);
}
std::unique_ptr<Context> Context::SubWorld(std::string_view suffix, const std::vector<std::string>& ids) {
  ContextDesc d = desc_;
  d.id = fmt::format("{}-{}", id_, suffix);
  d.parties.clear();
  std::vector<size_t> g;
  size_t rank = SIZE_MAX;
  for (const auto& id : ids) {
    size_t i = 0;
    for (; i < desc_.parties.size(); ++i) if (desc_.parties[i].id == id) break;
    YACL_ENFORCE(i < desc_.parties.size(), "no such party {}", id);
    if (i == rank_) rank = g.size();
    g.push_back(global_[i]);
    d.parties.push_back(desc_.parties[i]);
  }
  YACL_ENFORCE(rank != SIZE_MAX, "self not in subworld");
  return std::make_unique<Context>(d, rank, hub_, g);
}
void Context::SendImpl(size_t dst, ByteContainerView v, std::string_view tag, bool thr, bool coll) {
  YACL_ENFORCE(dst < WorldSize(), "rank out of range");
  hub_->Send(id_, global_[rank_], global_[dst], std::string(v), std::string(tag), thr, coll);
}
Buffer Context::RecvImpl(size_t src, std::string_view tag, bool coll) {
  YACL_ENFORCE(src < WorldSize(), "rank out of range");
  auto s = hub_->Recv(id_, global_[src], global_[rank_], std::string(tag), coll);
  return Buffer(s.data(), s.size());
}
void Context::ConnectToMesh() {
  for (size_t i = 0; i < WorldSize(); ++i) if (i != rank_) SendImpl(i, "connect", "connect", false, true);
  for (size_t i = 0; i < WorldSize(); ++i) if (i != rank_) RecvImpl(i, "connect", true);
}

std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, ByteContainerView in, std::string_view tag) {
  std::vector<Buffer> r(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); ++i) if (i != c->Rank()) c->SendImpl(i, in, tag, false, true);
  for (size_t i = 0; i < c->WorldSize(); ++i)
    r[i] = i == c->Rank() ? Buffer(in.data(), in.size()) : c->RecvImpl(i, tag, true);
  return r;
}
std::vector<Buffer> Gather(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  std::vector<Buffer> r;
  if (c->Rank() == root) {
    r.resize(c->WorldSize());
    for (size_t i = 0; i < c->WorldSize(); ++i)
      r[i] = i == c->Rank() ? Buffer(in.data(), in.size()) : c->RecvImpl(i, tag, true);
  } else {
    c->SendImpl(root, in, tag, false, true);
  }
  return r;
}
Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  if (c->Rank() == root) {
    for (size_t i = 0; i < c->WorldSize(); ++i) if (i != root) c->SendImpl(i, in, tag, false, true);
    return Buffer(in.data(), in.size());
  }
  return c->RecvImpl(root, tag, true);
}
Buffer Scatter(const std::shared_ptr<Context>& c, const std::vector<Buffer>& in, size_t root, std::string_view tag) {
  if (c->Rank() == root) {
    YACL_ENFORCE(in.size() == c->WorldSize());
    for (size_t i = 0; i < c->WorldSize(); ++i) if (i != root) c->SendImpl(i, in[i], tag, false, true);
    return in[root];
  }
  return c->RecvImpl(root, tag, true);
}
void Barrier(const std::shared_ptr<Context>& c, std::string_view tag) { AllGather(c, "b", tag); }

namespace {
std::mutex g_mu;
std::map<std::string, std::pair<std::shared_ptr<verif::Hub>, size_t>> g_hubs;
}  // namespace
std::shared_ptr<Context> FactoryMem::CreateContext(const ContextDesc& desc, size_t rank) {
  std::string k = desc.id;
  for (const auto& p : desc.parties) k += "|" + p.id + "@" + p.host;
  std::lock_guard<std::mutex> g(g_mu);
  auto& e = g_hubs[k];
  if (!e.first) e = {std::make_shared<verif::Hub>(desc.parties.size()), 0};
  auto hub = e.first;
  if (++e.second == desc.parties.size()) g_hubs.erase(k);
  std::vector<size_t> gl(desc.parties.size());
  for (size_t i = 0; i < gl.size(); ++i) gl[i] = i;
  return std::make_shared<Context>(desc, rank, hub, gl);
}
namespace test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n) {
  ContextDesc d;
  d.id = id;
  for (size_t i = 0; i < n; ++i) d.parties.emplace_back(fmt::format("party{}", i), fmt::format("dummy{}", i));
  auto hub = std::make_shared<verif::Hub>(n);
  std::vector<size_t> gl(n);
  for (size_t i = 0; i < n; ++i) gl[i] = i;
  std::vector<std::shared_ptr<Context>> r;
  for (size_t i = 0; i < n; ++i) r.push_back(std::make_shared<Context>(d, i, hub, gl));
  return r;
}
std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) { return SetupWorld("world", n); }
}  // namespace test
}  // namespace yacl::link
