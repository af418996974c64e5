#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "verif/hub.h"

namespace yacl::link {
inline constexpr size_t kAllRank = std::numeric_limits<size_t>::max();

struct SSLOptions { int verify_depth = 0; };
struct RetryOptions { uint32_t max_retry = 3; };
struct ContextDesc {
  struct Party {
    std::string id, host;
    Party() = default;
    Party(std::string i, std::string h) : id(std::move(i)), host(std::move(h)) {}
    template <class PB, class = decltype(std::declval<const PB&>().id())>
    Party(const PB& pb) : id(pb.id()), host(pb.host()) {}  // NOLINT
    bool operator==(const Party& o) const { return id == o.id && host == o.host; }
  };
  std::string id = "root";
  std::vector<Party> parties;
  uint32_t connect_retry_times = 10;
  uint32_t connect_retry_interval_ms = 1000;
  uint64_t recv_timeout_ms = 30000;
  uint32_t http_max_payload_size = 32 * 1024;
  uint32_t http_timeout_ms = 20000;
  uint32_t throttle_window_size = 10;
  std::string brpc_channel_protocol = "baidu_std";
  std::string brpc_channel_connection_type;
  std::string link_type = "normal";
  bool enable_ssl = false;
  bool disable_msg_seq_id = false;
  ContextDesc() = default;
  template <class PB, class = decltype(std::declval<const PB&>().parties())>
  ContextDesc(const PB& pb) : id(pb.id()) {
    for (const auto& p : pb.parties()) parties.emplace_back(p);
    if (pb.recv_timeout_ms()) recv_timeout_ms = pb.recv_timeout_ms();
  }
};

struct Statistics { std::atomic<size_t> sent_actions{0}, sent_bytes{0}, recv_actions{0}, recv_bytes{0}; };

class Context {
 public:
  Context(ContextDesc desc, size_t rank, std::shared_ptr<verif::Hub> hub, std::vector<size_t> global);
  ~Context() = default;
  std::string Id() const { return id_; }
  size_t WorldSize() const { return global_.size(); }
  size_t Rank() const { return rank_; }
  const std::string& PartyIdByRank(size_t r) const { return desc_.parties.at(r).id; }
  size_t PrevRank(size_t stride = 1) const { return (rank_ + WorldSize() - stride % WorldSize()) % WorldSize(); }
  size_t NextRank(size_t stride = 1) const { return (rank_ + stride) % WorldSize(); }
  void ConnectToMesh();
  void WaitLinkTaskFinish() {}
  std::unique_ptr<Context> Spawn(const std::string& id = "");
  std::unique_ptr<Context> SubWorld(std::string_view id_suffix, const std::vector<std::string>& party_ids);
  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag) { SendImpl(dst, v, tag, false, false); }
  void SendAsync(size_t dst, Buffer&& v, std::string_view tag) { SendImpl(dst, v, tag, false, false); }
  void SendAsync(size_t dst, const Buffer& v, std::string_view tag) { SendImpl(dst, v, tag, false, false); }
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view tag) { SendImpl(dst, v, tag, true, false); }
  void SendAsyncThrottled(size_t dst, Buffer&& v, std::string_view tag) { SendImpl(dst, v, tag, true, false); }
  void SendAsyncThrottled(size_t dst, const Buffer& v, std::string_view tag) { SendImpl(dst, v, tag, true, false); }
  void Send(size_t dst, ByteContainerView v, std::string_view tag) { SendImpl(dst, v, tag, false, false); }
  Buffer Recv(size_t src, std::string_view tag) { return RecvImpl(src, tag, false); }
  void SetRecvTimeout(uint64_t ms) { recv_timeout_ = ms; }
  uint64_t GetRecvTimeout() const { return recv_timeout_; }
  void SetThrottleWindowSize(uint32_t w);
  void SetChunkParallelSendSize(uint32_t) {}
  void SetHttpMaxPayloadSize(uint32_t) {}
  void PrintStats() const {}
  std::shared_ptr<const Statistics> GetStats() const { return std::make_shared<Statistics>(); }
  ContextDesc GetDesc() const { return desc_; }
  // shim only
  void SendImpl(size_t dst, ByteContainerView v, std::string_view tag, bool throttled, bool coll);
  Buffer RecvImpl(size_t src, std::string_view tag, bool coll);
  const std::shared_ptr<verif::Hub>& hub() const { return hub_; }
  size_t GlobalRank(size_t r) const { return global_.at(r); }

 private:
  ContextDesc desc_;
  std::string id_;
  size_t rank_;
  std::shared_ptr<verif::Hub> hub_;
  std::vector<size_t> global_;
  uint64_t recv_timeout_;
  std::shared_ptr<std::atomic<size_t>> child_;
};

class RecvTimeoutGuard {
 public:
  RecvTimeoutGuard(const std::shared_ptr<Context>& c, uint64_t ms) : c_(c), old_(c->GetRecvTimeout()) { c->SetRecvTimeout(ms); }
  ~RecvTimeoutGuard() { c_->SetRecvTimeout(old_); }
 private:
  std::shared_ptr<Context> c_;
  uint64_t old_;
};
}  // namespace yacl::link
