#include "verif/pir_record.h"

namespace verif {
PirRecord& Pir() { static PirRecord r; return r; }
}
namespace psi::dkpir {
int SenderOffline(const DkPirSenderOptions& o) { verif::Pir().dk_sender = o; verif::Pir().dk_offline = true; return verif::Pir().rc; }
int SenderOnline(const DkPirSenderOptions& o, std::shared_ptr<yacl::link::Context>) { verif::Pir().dk_sender = o; return verif::Pir().rc; }
int ReceiverOnline(const DkPirReceiverOptions& o, std::shared_ptr<yacl::link::Context>) { verif::Pir().dk_receiver = o; return verif::Pir().rc; }
}  // namespace psi::dkpir
namespace psi::apsi_wrapper::cli {
int RunReceiver(const ReceiverOptions& o, const std::shared_ptr<yacl::link::Context>&, int* m) {
  verif::Pir().apsi_receiver = o;
  if (m) *m = verif::Pir().match_cnt;
  return verif::Pir().rc;
}
int RunSender(const SenderOptions& o, const std::shared_ptr<yacl::link::Context>&) { verif::Pir().apsi_sender = o; return verif::Pir().rc; }
}  // namespace psi::apsi_wrapper::cli
