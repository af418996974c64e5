// In-memory transport used by the yacl::link stand-in: FIFO per
// (context, src, dst), optional throttle window, fault injection, event log.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <tuple>
#include <vector>

namespace verif {
struct LinkEvent {
  bool send;
  std::string ctx, tag;
  size_t src, dst;  // global ranks
  std::string data;
  uint64_t no;  // global sequence number
};
class Hub {
 public:
  explicit Hub(size_t n);
  void Send(const std::string& ctx, size_t src, size_t dst, std::string data, std::string tag, bool throttled, bool coll);
  std::string Recv(const std::string& ctx, size_t src, size_t dst, std::string tag, bool coll);
  void Kill(size_t rank);       // every later operation of `rank` throws
  bool Dead(size_t rank);
  void Leave(size_t rank);      // the party returned; messages stay readable
  // Called for every operation, outside the lock, before it takes effect.
  // May throw (the operation then does not happen) or sleep.
  std::function<void(const LinkEvent&)> hook;
  // May replace the bytes of a message on its way.
  std::function<void(const LinkEvent&, std::string*)> rewrite;
  bool record = false;
  std::vector<LinkEvent> Log();
  uint64_t Ops() { return ops_.load(); }
  bool AllDrained();            // no message left unread
  std::vector<std::string> Undelivered();
  size_t window = 10;
  int stall_ms = 40000;         // no activity for that long: declared stuck
  int recv_timeout_ms = 0;      // a receive waiting that long fails, as on a real link (0: never)
  static std::atomic<uint64_t> total_msgs;

 private:
  struct Key {
    std::string ctx; size_t s, d; bool coll;
    bool operator<(const Key& o) const { return std::tie(ctx, s, d, coll) < std::tie(o.ctx, o.s, o.d, o.coll); }
  };
  struct Msg { std::string data, tag; };
  void Check(size_t rank);
  template <class P> void Wait(std::unique_lock<std::mutex>& lk, size_t self, size_t peer, P ready, const char* what, const std::string& tag);
  std::mutex mu_;
  std::condition_variable cv_;
  size_t n_;
  std::map<Key, std::deque<Msg>> q_;
  std::map<std::pair<size_t, size_t>, uint64_t> sent_, acked_;
  std::vector<char> dead_, left_;
  std::vector<LinkEvent> log_;
  std::atomic<uint64_t> ops_{0};
  uint64_t act_ = 0;
};
}  // namespace verif
