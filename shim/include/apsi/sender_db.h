// Stand-in: a sender database is the records it was given, in the clear.
#pragma once
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "apsi/item.h"
#include "apsi/oprf/oprf_sender.h"
#include "apsi/psi_params.h"
namespace apsi::sender {
class SenderDB {
 public:
  SenderDB(PSIParams p, size_t label_bytes, size_t nonce, bool compress) : params(std::move(p)), label_bytes(label_bytes), nonce(nonce), compress(compress) {}
  void set_data(const std::vector<std::pair<Item, Label>>& d) {
    labeled = true;
    for (auto& [k, l] : d) {
      if (l.size() > label_bytes) throw std::invalid_argument("label too long");
      if (!data.emplace(k.to_string(), std::string(l.begin(), l.end())).second) throw std::invalid_argument("repeated item");
    }
  }
  void set_data(const std::vector<Item>& d) {
    for (auto& k : d) if (!data.emplace(k.to_string(), "").second) throw std::invalid_argument("repeated item");
  }
  oprf::OPRFKey strip() { return {data.size() + 1}; }
  PSIParams params;
  size_t label_bytes, nonce;
  bool compress, labeled = false;
  std::map<std::string, std::string> data;
};
}  // namespace apsi::sender
