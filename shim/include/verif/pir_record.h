#pragma once
#include <optional>
#include "psi/algorithm/dkpir/entry.h"
#include "psi/wrapper/apsi/cli/entry.h"
namespace verif {
// What the launcher last handed to the PIR engines.
struct PirRecord {
  std::optional<psi::apsi_wrapper::cli::ReceiverOptions> apsi_receiver;
  std::optional<psi::apsi_wrapper::cli::SenderOptions> apsi_sender;
  std::optional<psi::dkpir::DkPirReceiverOptions> dk_receiver;
  std::optional<psi::dkpir::DkPirSenderOptions> dk_sender;
  bool dk_offline = false;
  int match_cnt = 0, rc = 0;
  void Clear() { *this = PirRecord(); }
};
PirRecord& Pir();
}  // namespace verif
