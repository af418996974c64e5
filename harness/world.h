// Two-party jobs: tables, settings, running both parties over an observed
// transport, and the plaintext answer.
#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "vh.h"
#include "verif/hub.h"
#include "yacl/link/test_util.h"

#include "psi/proto/psi_v2.pb.h"
#include "psi/proto/pir.pb.h"

namespace vw {
using Row = std::vector<std::string>;

struct Tab {
  Row cols;
  std::vector<Row> rows;
  bool quote = false;        // quote every field
  bool final_newline = true;
  std::vector<size_t> blank_after;  // blank lines after these rows
  std::string Text() const;
  size_t Col(const std::string& name) const;
  Row Key(size_t row, const Row& keys) const;
};

// Minimal RFC 4180 reader.
std::vector<Row> ParseCsv(const std::string& text);

struct Side {
  Tab tab;
  Row keys;          // names of key columns
  bool unique = false;
  bool disable_align = false;
  std::string null_rep;
};

struct Job {
  psi::v2::Protocol proto = psi::v2::PROTOCOL_ECDH;
  psi::CurveType curve = psi::CURVE_25519;
  uint64_t batch = 0;
  uint64_t bucket = 0;
  bool low_comm = false;
  bool broadcast = false;
  psi::v2::PsiConfig::AdvancedJoinType join = psi::v2::PsiConfig::ADVANCED_JOIN_TYPE_UNSPECIFIED;
  psi::v2::Role left = psi::v2::ROLE_UNSPECIFIED;
  bool recovery = false;
  bool digest = false;
  uint32_t threshold = 0;
  size_t receiver_rank = 0;
  bool ub = false;   // unbalanced job: side 0 the server, side 1 the client
  int results = -1;  // bit per side that gets the result, when not given by broadcast
  Side side[2];      // [0] receiver, [1] sender
  std::string Text() const;
};

struct Party {
  bool done = false;          // returned without an exception
  std::string error;
  psi::PsiResultReport report;
  bool has_output = false;
  std::string output;
};

struct World {
  std::shared_ptr<verif::Hub> hub;
  std::vector<std::shared_ptr<yacl::link::Context>> ctx;
};
World MakeWorld(size_t n = 2);

// Where a job keeps its files: dir/{in,out,rec}/{receiver,sender}*
struct Paths { std::filesystem::path in[2], out[2], rec[2], count[2]; };
Paths PathsOf(const std::filesystem::path& dir);
void WriteInputs(const Job& j, const std::filesystem::path& dir);
psi::v2::PsiConfig ConfigOf(const Job& j, const std::filesystem::path& dir, int side);

// Runs both sides (index 0 receiver, 1 sender) to their end.
std::array<Party, 2> RunConfigs(World& w, const psi::v2::PsiConfig& r, const psi::v2::PsiConfig& s, size_t receiver_rank);
std::array<Party, 2> RunJob(const Job& j, const std::filesystem::path& dir, World* w = nullptr);
// Runs one function per rank in its own thread, recording what was thrown.
std::vector<std::string> RunRanks(World& w, const std::vector<std::function<void(const std::shared_ptr<yacl::link::Context>&)>>& f);

// The plaintext answer.
struct Want {
  std::vector<Row> rows[2];       // expected output rows (as multisets)
  std::vector<Row> key_order;     // keys of the intersection
  int64_t inter_rows[2] = {0, 0}, inter_keys = 0;
  int64_t orig_rows[2] = {0, 0}, orig_keys[2] = {0, 0};
};
// With `cap`, only these keys count as common.
Want Expect(const Job& j, const std::set<Row>* cap = nullptr);
bool HasResult(const Job& j, int side);
// Compares outputs, reports and presence of files with the answer.
void Judge(vh::Case& c, const Job& j, const Want& w, const std::array<Party, 2>& got, const std::string& pre = "");

// The same for a job whose result is capped at j.threshold keys; count[i] is
// the file of counts of side i.
void JudgeCapped(vh::Case& c, const Job& j, const std::array<Party, 2>& got, const std::filesystem::path count[2], const std::string& pre = "");

// Random job pieces.
struct GenOpt {
  size_t max_rows = 60;
  bool joins = true, dups = true, payload = true, uniques = true;
  bool odd_text = true;       // unusual but plain key text
};
void GenTables(vh::Case& c, Job& j, const GenOpt& o);
void GenProtocol(vh::Rng& r, Job& j);
}  // namespace vw
