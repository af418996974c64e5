// The DK-PIR engine needs APSI and HEU, which are not installed: its two option
// structures, and entry points that record what they were given.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "yacl/link/context.h"

#include "psi/proto/psi.pb.h"

namespace psi::dkpir {

struct DkPirReceiverOptions {
  std::size_t threads = 1;
  bool streaming_result = true;
  bool skip_count_check = false;
  CurveType curve_type;

  // "all", "debug", "info", "warning", "error", "off"
  std::string log_level = "all";
  std::string log_file;
  bool silent = false;

  std::string params_file;
  std::string query_file;
  std::string result_file;

  std::string tmp_folder;

  std::string key;
  std::vector<std::string> labels;
};

struct DkPirSenderOptions {
  std::size_t threads = 1;
  std::size_t nonce_byte_count = 16;
  bool compress = false;
  bool streaming_result = true;
  bool skip_count_check = false;
  CurveType curve_type;

  // "all", "debug", "info", "warning", "error", "off"
  std::string log_level = "all";
  std::string log_file;
  bool silent = false;

  std::string params_file;
  std::string source_file;
  std::string value_sdb_out_file;
  std::string count_sdb_out_file;
  std::string secret_key_file;
  std::string result_file;

  std::string tmp_folder;

  std::string key;
  std::vector<std::string> labels;
};

int SenderOffline(const DkPirSenderOptions &options);
int SenderOnline(const DkPirSenderOptions &options,
                 std::shared_ptr<yacl::link::Context> lctx);
int ReceiverOnline(const DkPirReceiverOptions &options,
                   std::shared_ptr<yacl::link::Context> lctx);

}  // namespace psi::dkpir
