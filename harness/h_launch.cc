// The launcher and the older entry points: every setting is compared with what
// recording stand-ins of the engines were given.
#include <fstream>

#include "google/protobuf/reflection.h"
#include "google/protobuf/struct.pb.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/message_differencer.h"
#include "psi/apps/psi_launcher/factory.h"
#include "psi/apps/psi_launcher/launch.h"
#include "psi/proto/kuscia.pb.h"
#include "psi/utils/random_str.h"
#include "verif/pir_record.h"
#include "vh.h"
#include "yacl/link/test_util.h"
#define main PsiMain
#include "psi/apps/psi_launcher/main.cc"
#undef main

namespace {
namespace pb = google::protobuf;
using psi::v2::PsiConfig;
using psi::v2::UbPsiConfig;

struct Record {
  std::optional<PsiConfig> psi;
  std::optional<UbPsiConfig> ub;
  std::optional<psi::BucketPsiConfig> legacy;
  std::shared_ptr<yacl::link::Context> ctx;
  bool has_hook = false;
  int64_t interval = -1;
  std::string steps;
  psi::PsiResultReport report;
  int calls() const { return psi.has_value() + ub.has_value() + legacy.has_value(); }
} g;

struct PsiRecorder : psi::AbstractPsiParty {
  PsiRecorder(const PsiConfig& c, std::shared_ptr<yacl::link::Context> l) : AbstractPsiParty(c, c.protocol_config().role(), l) {}
  void Init() override { digest_equal_ = true; }
  void PreProcess() override {}
  void Online() override {}
  void PostProcess() override {}
  psi::PsiResultReport Finalize() override { return g.report; }
};
struct UbRecorder : psi::AbstractUbPsiParty {
  UbRecorder(const UbPsiConfig& c, std::shared_ptr<yacl::link::Context> l) : AbstractUbPsiParty(c, c.role(), l) {}
  void Init() override { g.steps += "init;"; report_ = g.report; }
  void OfflineGenCache() override { g.steps += "gen;"; }
  void Offline() override { g.steps += "offline;"; }
  void OfflineTransferCache() override { g.steps += "transfer;"; }
  void Online() override { g.steps += "online;"; }
};
}  // namespace

namespace psi {  // the engines
std::unique_ptr<AbstractPsiParty> createPsiParty(const v2::PsiConfig& c, std::shared_ptr<yacl::link::Context> l) {
  g.psi = c; g.ctx = l;
  return std::make_unique<PsiRecorder>(c, l);
}
std::unique_ptr<AbstractUbPsiParty> createUbPsiParty(const v2::UbPsiConfig& c, std::shared_ptr<yacl::link::Context> l) {
  g.ub = c; g.ctx = l;
  return std::make_unique<UbRecorder>(c, l);
}
BucketPsi::BucketPsi(BucketPsiConfig c, std::shared_ptr<yacl::link::Context> l) : config_(c), lctx_(l) { g.legacy = c; g.ctx = l; }
PsiResultReport BucketPsi::Run(ProgressCallbacks cb, int64_t ms) {
  g.has_hook = static_cast<bool>(cb);
  g.interval = ms;
  return g.report;
}
}  // namespace psi

namespace {

std::string Word(vh::Rng& r) {
  static const std::vector<std::string> odd = {"", " ", "\"q\"", "a,b", "/tmp/x y.csv", "\\n\\", "\xe6\xbc\xa2\xe5\xad\x97", "a\tb\nc", "NULL", "{\"a\":1}", "<&>'"};
  if (r.chance(0.4)) return r.pick(odd);
  return r.str(r.range(1, 24), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789_-./ ");
}
uint64_t Num(vh::Rng& r, int bits) {
  uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
  switch (r.below(4)) {
    case 0: return r.below(5);
    case 1: return m - r.below(3);
    case 2: return r.below(5000);
    default: return r.u64() & m;
  }
}
// Sets random fields of any message; a oneof keeps the member set last.
void Fill(vh::Rng& r, pb::Message* m, double p, int depth = 0) {
  auto* d = m->GetDescriptor();
  auto* f = m->GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    auto* x = d->field(i);
    if (x->is_map() || !r.chance(p)) continue;
    bool rep = x->is_repeated();
    for (int n = rep ? r.range(1, 3) : 1; n > 0; --n) {
      auto put = [&](auto set, auto add, auto v) { rep ? (f->*add)(m, x, v) : (f->*set)(m, x, v); };
      using R = pb::Reflection;
      switch (x->cpp_type()) {
        case pb::FieldDescriptor::CPPTYPE_INT32: put(&R::SetInt32, &R::AddInt32, static_cast<int32_t>(Num(r, 31))); break;
        case pb::FieldDescriptor::CPPTYPE_INT64: put(&R::SetInt64, &R::AddInt64, static_cast<int64_t>(Num(r, 63))); break;
        case pb::FieldDescriptor::CPPTYPE_UINT32: put(&R::SetUInt32, &R::AddUInt32, static_cast<uint32_t>(Num(r, 32))); break;
        case pb::FieldDescriptor::CPPTYPE_UINT64: put(&R::SetUInt64, &R::AddUInt64, static_cast<uint64_t>(Num(r, 64))); break;
        case pb::FieldDescriptor::CPPTYPE_DOUBLE: put(&R::SetDouble, &R::AddDouble, r.below(100000) / 1024.0); break;
        case pb::FieldDescriptor::CPPTYPE_FLOAT: put(&R::SetFloat, &R::AddFloat, r.below(100000) / 1024.0f); break;
        case pb::FieldDescriptor::CPPTYPE_BOOL: put(&R::SetBool, &R::AddBool, r.chance(0.7)); break;
        case pb::FieldDescriptor::CPPTYPE_STRING: put(&R::SetString, &R::AddString, x->type() == pb::FieldDescriptor::TYPE_BYTES ? r.bytes(9) : Word(r)); break;
        case pb::FieldDescriptor::CPPTYPE_ENUM: put(&R::SetEnum, &R::AddEnum, x->enum_type()->value(r.below(x->enum_type()->value_count()))); break;
        case pb::FieldDescriptor::CPPTYPE_MESSAGE:
          if (depth < 6) Fill(r, rep ? f->AddMessage(m, x) : f->MutableMessage(m, x), p, depth + 1);
          break;
      }
    }
  }
}
size_t Fields(const pb::Message& m) {
  std::vector<const pb::FieldDescriptor*> v;
  m.GetReflection()->ListFields(m, &v);
  size_t n = 0;
  for (auto* x : v) {
    if (x->cpp_type() != pb::FieldDescriptor::CPPTYPE_MESSAGE) ++n;
    else if (!x->is_repeated()) n += Fields(m.GetReflection()->GetMessage(m, x));
  }
  return n;
}
bool Same(const pb::Message& a, const pb::Message& b, std::string* why) {
  pb::util::MessageDifferencer d;
  d.ReportDifferencesToString(why);
  return d.Compare(a, b);
}
void Level(vh::Rng& r, psi::v2::DebugOptions* d) {
  d->set_logging_level(r.pick<std::string>({"", "info", "warn", "err", "off", "OFF", "Critical", "debug"}));
}
const std::vector<std::string> kPirLevels = {"all", "debug", "info", "warning", "error", "off"};

psi::PsiResultReport Report(vh::Rng& r) {
  psi::PsiResultReport x;
  auto n = [&] { return r.chance(0.2) ? -1 : static_cast<int64_t>(Num(r, 40)); };
  x.set_original_count(n()); x.set_intersection_count(n()); x.set_original_key_count(n()); x.set_intersection_key_count(n());
  return x;
}

// ------------------------------------------------------------ older entries
template <class E> E Pick(vh::Rng& r, int lo, int hi) { return static_cast<E>(r.range(lo, hi)); }
int JoinOf(psi::api::ResultJoinType t) {
  using T = psi::api::ResultJoinType;
  switch (t) {
    case T::JOIN_TYPE_INNER_JOIN: return PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN;
    case T::JOIN_TYPE_LEFT_JOIN: return PsiConfig::ADVANCED_JOIN_TYPE_LEFT_JOIN;
    case T::JOIN_TYPE_RIGHT_JOIN: return PsiConfig::ADVANCED_JOIN_TYPE_RIGHT_JOIN;
    case T::JOIN_TYPE_FULL_JOIN: return PsiConfig::ADVANCED_JOIN_TYPE_FULL_JOIN;
    case T::JOIN_TYPE_DIFFERENCE: return PsiConfig::ADVANCED_JOIN_TYPE_DIFFERENCE;
    default: return PsiConfig::ADVANCED_JOIN_TYPE_UNSPECIFIED;
  }
}
int CurveOf(psi::api::EllipticCurveType c) {
  using C = psi::api::EllipticCurveType;
  switch (c) {
    case C::CURVE_25519: return psi::CURVE_25519;
    case C::CURVE_FOURQ: return psi::CURVE_FOURQ;
    case C::CURVE_SM2: return psi::CURVE_SM2;
    case C::CURVE_SECP256K1: return psi::CURVE_SECP256K1;
    case C::CURVE_25519_ELLIGATOR2: return psi::CURVE_25519_ELLIGATOR2;
    default: return psi::CURVE_INVALID_TYPE;
  }
}
void FillIn(vh::Rng& r, psi::api::InputParams& in, psi::api::OutputParams& out, psi::api::ResultJoinConfig& join) {
  in.type = Pick<psi::api::SourceType>(r, 0, 1);
  in.path = Word(r);
  for (int n = r.below(4); n > 0; --n) in.selected_keys.push_back(Word(r));
  in.keys_unique = r.chance(0.5);
  out.type = Pick<psi::api::SourceType>(r, 0, 1);
  out.path = Word(r);
  out.disable_alignment = r.chance(0.5);
  if (r.chance(0.7)) out.csv_null_rep = Word(r);
  join.type = Pick<psi::api::ResultJoinType>(r, 0, 5);
  join.left_side_rank = r.below(2);
}
template <class M>
void CheckIo(vh::Case& c, const M& m, const psi::api::InputParams& in, const psi::api::OutputParams& out, const psi::api::ResultJoinConfig& join) {
  using psi::v2::IO_TYPE_FILE_CSV;
  auto t = [](psi::api::SourceType s) { return s == psi::api::SourceType::SOURCE_TYPE_FILE_CSV ? IO_TYPE_FILE_CSV : psi::v2::IO_TYPE_UNSPECIFIED; };
  c.check(m.input_config().type() == t(in.type) && m.input_config().path() == in.path, "input", "[{}]", c.desc);
  c.check(std::vector<std::string>(m.keys().begin(), m.keys().end()) == in.selected_keys, "selected keys", "[{}]", c.desc);
  c.check(m.input_attr().keys_unique() == in.keys_unique, "keys_unique", "[{}]", c.desc);
  c.check(m.output_config().type() == t(out.type) && m.output_config().path() == out.path, "output", "[{}]", c.desc);
  c.check(m.output_attr().csv_null_rep() == out.csv_null_rep, "csv_null_rep", "[{}]", c.desc);
  c.check(m.disable_alignment() == out.disable_alignment, "disable_alignment", "[{}]", c.desc);
  c.check(static_cast<int>(m.advanced_join_type()) == JoinOf(join.type), "join type", "{} for {} [{}]", static_cast<int>(m.advanced_join_type()), static_cast<int>(join.type), c.desc);
  c.event("settings compared", 9);
}
void CheckReport(vh::Case& c, const psi::api::PsiExecuteReport& x) {
  c.check(x.original_count == g.report.original_count() && x.intersection_count == g.report.intersection_count() && x.original_unique_count == g.report.original_key_count() &&
              x.intersection_unique_count == g.report.intersection_key_count(), "report", "[{}]", c.desc);
  c.event("reports compared");
}

void Api(vh::Case& c) {
  auto& r = c.rng;
  g = Record();
  g.report = Report(r);
  auto w = yacl::link::test::SetupWorld(r.pick({2, 2, 3}));
  if (r.chance(0.35)) {
    psi::api::ub::UbPsiExecuteConfig x;
    using Mode = psi::api::ub::UbPsiExecuteConfig::Mode;
    x.mode = Pick<Mode>(r, 0, 5);
    bool server = r.chance(0.5);
    x.role = r.chance(0.05) ? psi::api::ub::UbPsiRole::ROLE_UNSPECIFIED : server ? psi::api::ub::UbPsiRole::ROLE_SERVER : psi::api::ub::UbPsiRole::ROLE_CLIENT;
    x.server_receive_result = r.chance(0.5);
    x.client_receive_result = r.chance(0.5);
    x.cache_path = Word(r);
    x.server_params.secret_key_path = Word(r);
    FillIn(r, x.input_params, x.output_params, x.join_conf);
    auto& l = w[r.below(2)];
    c.describe(fmt::format("ub mode={} role={} join={} left={} rank={} {:x}", static_cast<int>(x.mode), static_cast<int>(x.role), static_cast<int>(x.join_conf.type), x.join_conf.left_side_rank, l->Rank(), r.u64()));
    psi::api::PsiExecuteReport rep;
    auto e = vh::Thrown([&] { rep = psi::api::UbPsiExecute(x, l); });
    bool bad = x.role == psi::api::ub::UbPsiRole::ROLE_UNSPECIFIED || x.mode == Mode::MODE_UNSPECIFIED;
    if (!c.check(bad == !e.empty(), "refusal", "{} [{}]", e, c.desc)) return;
    if (bad) { c.event("refused"); return; }
    if (!c.check(g.calls() == 1 && g.ub, "engine", "[{}]", c.desc)) return;
    auto& u = *g.ub;
    static const std::map<Mode, std::pair<int, std::string>> modes = {
        {Mode::MODE_OFFLINE_GEN_CACHE, {UbPsiConfig::MODE_OFFLINE_GEN_CACHE, "init;gen;"}}, {Mode::MODE_OFFLINE_TRANSFER_CACHE, {UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, "init;transfer;"}},
        {Mode::MODE_OFFLINE, {UbPsiConfig::MODE_OFFLINE, "init;offline;"}}, {Mode::MODE_ONLINE, {UbPsiConfig::MODE_ONLINE, "init;online;"}}, {Mode::MODE_FULL, {UbPsiConfig::MODE_FULL, "init;offline;online;"}}};
    auto& m = modes.at(x.mode);
    c.check(static_cast<int>(u.mode()) == m.first && g.steps == m.second, "mode", "{} [{}]", g.steps, c.desc);
    c.check(u.role() == (server ? psi::v2::ROLE_SERVER : psi::v2::ROLE_CLIENT), "role", "[{}]", c.desc);
    bool left_here = x.join_conf.left_side_rank == l->Rank();
    c.check(u.left_side() == (left_here == server ? psi::v2::ROLE_SERVER : psi::v2::ROLE_CLIENT), "left side", "[{}]", c.desc);
    c.check(u.server_secret_key_path() == x.server_params.secret_key_path, "server key path", "[{}]", c.desc);
    c.check(u.cache_path() == x.cache_path, "cache path", "[{}]", c.desc);
    c.check(u.server_get_result() == x.server_receive_result && u.client_get_result() == x.client_receive_result, "result receivers", "[{}]", c.desc);
    CheckIo(c, u, x.input_params, x.output_params, x.join_conf);
    CheckReport(c, rep);
    c.check(g.ctx == l, "link", "[{}]", c.desc);
    c.event("unbalanced jobs");
    return;
  }
  psi::api::PsiExecuteConfig x;
  using P = psi::api::PsiProtocol;
  x.protocol_conf.protocol = Pick<P>(r, r.chance(0.9) ? 1 : 0, 7);
  auto p = x.protocol_conf.protocol;
  bool legacy = p >= P::PROTOCOL_ECDH_3PC;
  x.protocol_conf.receiver_rank = r.below(w.size());
  if (r.chance(0.8)) x.protocol_conf.bucket_size = legacy ? Num(r, 32) : Num(r, 64);
  x.protocol_conf.broadcast_result = r.chance(0.5);
  x.protocol_conf.ecdh_params.curve = Pick<psi::api::EllipticCurveType>(r, 0, 5);
  if (r.chance(0.8)) x.protocol_conf.ecdh_params.batch_size = Num(r, 32);
  x.protocol_conf.rr22_params.low_comm_mode = r.chance(0.5);
  if (r.chance(0.8)) x.protocol_conf.dp_params.bob_sub_sampling = r.below(1025) / 1024.0;
  if (r.chance(0.8)) x.protocol_conf.dp_params.epsilon = r.below(100000) / 1024.0;
  x.checkpoint_conf.enable = r.chance(0.5);
  x.checkpoint_conf.path = Word(r);
  FillIn(r, x.input_params, x.output_params, x.join_conf);
  auto& l = w[r.below(w.size())];
  psi::api::ProgressParams pp;
  if (r.chance(0.5)) pp.hook = [](const psi::Progress::Data&) {};
  if (r.chance(0.5)) pp.interval_ms = Num(r, 32);
  c.describe(fmt::format("protocol={} recv={} rank={} bucket={} curve={} join={} left={} {:x}", static_cast<int>(p), x.protocol_conf.receiver_rank, l->Rank(), x.protocol_conf.bucket_size,
                         static_cast<int>(x.protocol_conf.ecdh_params.curve), static_cast<int>(x.join_conf.type), x.join_conf.left_side_rank, r.u64()));
  psi::api::PsiExecuteReport rep;
  auto e = vh::Thrown([&] { rep = psi::api::PsiExecute(x, l, pp); });
  if (!c.check((p == P::PROTOCOL_UNSPECIFIED) == !e.empty(), "refusal", "{} [{}]", e, c.desc)) return;
  if (!e.empty()) { c.event("refused"); return; }
  c.check(g.ctx == l, "link", "[{}]", c.desc);
  CheckReport(c, rep);
  if (legacy) {
    if (!c.check(g.calls() == 1 && g.legacy, "engine", "[{}]", c.desc)) return;
    auto& b = *g.legacy;
    auto t = p == P::PROTOCOL_ECDH_3PC ? psi::ECDH_PSI_3PC : p == P::PROTOCOL_ECDH_NPC ? psi::ECDH_PSI_NPC : p == P::PROTOCOL_KKRT_NPC ? psi::KKRT_PSI_NPC : psi::DP_PSI_2PC;
    c.check(b.psi_type() == t, "protocol", "[{}]", c.desc);
    c.check(b.receiver_rank() == x.protocol_conf.receiver_rank && b.broadcast_result() == x.protocol_conf.broadcast_result, "receiver", "[{}]", c.desc);
    c.check(b.input_params().path() == x.input_params.path && b.output_params().path() == x.output_params.path, "paths", "[{}]", c.desc);
    c.check(std::vector<std::string>(b.input_params().select_fields().begin(), b.input_params().select_fields().end()) == x.input_params.selected_keys, "selected keys", "[{}]", c.desc);
    c.check(b.input_params().precheck() == !x.input_params.keys_unique, "precheck", "[{}]", c.desc);
    c.check(b.output_params().need_sort() == !x.output_params.disable_alignment, "need_sort", "[{}]", c.desc);
    c.check(static_cast<int>(b.curve_type()) == CurveOf(x.protocol_conf.ecdh_params.curve), "curve", "[{}]", c.desc);
    c.check(b.bucket_size() == x.protocol_conf.bucket_size, "bucket size", "[{}]", c.desc);
    if (p == P::PROTOCOL_DP)
      c.check(b.dppsi_params().bob_sub_sampling() == x.protocol_conf.dp_params.bob_sub_sampling && b.dppsi_params().epsilon() == x.protocol_conf.dp_params.epsilon, "dp settings", "[{}]", c.desc);
    c.check(g.has_hook == static_cast<bool>(pp.hook) && g.interval == static_cast<int64_t>(pp.interval_ms), "progress settings", "hook {} every {} [{}]", g.has_hook, g.interval, c.desc);
    c.event("settings compared", 11);
    c.event("older multi-party and dp jobs");
    return;
  }
  if (!c.check(g.calls() == 1 && g.psi, "engine", "[{}]", c.desc)) return;
  auto& m = *g.psi;
  auto& q = m.protocol_config();
  c.check(q.protocol() == (p == P::PROTOCOL_ECDH ? psi::v2::PROTOCOL_ECDH : p == P::PROTOCOL_KKRT ? psi::v2::PROTOCOL_KKRT : psi::v2::PROTOCOL_RR22), "protocol", "[{}]", c.desc);
  bool recv = x.protocol_conf.receiver_rank == l->Rank();
  c.check(q.role() == (recv ? psi::v2::ROLE_RECEIVER : psi::v2::ROLE_SENDER), "role", "[{}]", c.desc);
  c.check(q.broadcast_result() == x.protocol_conf.broadcast_result, "broadcast", "[{}]", c.desc);
  if (p == P::PROTOCOL_ECDH)
    c.check(static_cast<int>(q.ecdh_config().curve()) == CurveOf(x.protocol_conf.ecdh_params.curve) && q.ecdh_config().batch_size() == x.protocol_conf.ecdh_params.batch_size, "ecdh settings", "[{}]", c.desc);
  if (p == P::PROTOCOL_KKRT) c.check(q.kkrt_config().bucket_size() == x.protocol_conf.bucket_size, "kkrt bucket size", "[{}]", c.desc);
  if (p == P::PROTOCOL_RR22)
    c.check(q.rr22_config().bucket_size() == x.protocol_conf.bucket_size && q.rr22_config().low_comm_mode() == x.protocol_conf.rr22_params.low_comm_mode, "rr22 settings", "[{}]", c.desc);
  c.check(m.recovery_config().enabled() == x.checkpoint_conf.enable && m.recovery_config().folder() == x.checkpoint_conf.path, "recovery", "[{}]", c.desc);
  c.check(m.left_side() == (x.join_conf.left_side_rank == x.protocol_conf.receiver_rank ? psi::v2::ROLE_RECEIVER : psi::v2::ROLE_SENDER), "left side", "[{}]", c.desc);
  CheckIo(c, m, x.input_params, x.output_params, x.join_conf);
  c.event("settings compared", 7);
  c.event("two-party jobs");
}

// ------------------------------------------------------- messages and engines
psi::LaunchConfig RandomLaunch(vh::Rng& r, vh::Case& c) {
  psi::LaunchConfig x;
  double p = r.pick({0.2, 0.6, 1.0});
  switch (r.below(7)) {
    case 0: Fill(r, x.mutable_legacy_psi_config(), p); break;
    case 1:
      Fill(r, x.mutable_psi_config(), p);
      Level(r, x.mutable_psi_config()->mutable_debug_options());
      x.mutable_psi_config()->mutable_debug_options()->set_trace_path(c.dir / "trace");
      break;
    case 2:
      Fill(r, x.mutable_ub_psi_config(), p);
      Level(r, x.mutable_ub_psi_config()->mutable_debug_options());
      if (x.ub_psi_config().mode() == UbPsiConfig::MODE_UNSPECIFIED) x.mutable_ub_psi_config()->set_mode(UbPsiConfig::MODE_FULL);
      break;
    case 3: Fill(r, x.mutable_apsi_sender_config(), p); x.mutable_apsi_sender_config()->set_log_level(r.pick(kPirLevels)); break;
    case 4: Fill(r, x.mutable_apsi_receiver_config(), p); x.mutable_apsi_receiver_config()->set_log_level(r.pick(kPirLevels)); break;
    case 5: Fill(r, x.mutable_dk_pir_sender_config(), p); x.mutable_dk_pir_sender_config()->set_log_level(r.pick(kPirLevels)); break;
    default: Fill(r, x.mutable_dk_pir_receiver_config(), p); x.mutable_dk_pir_receiver_config()->set_log_level(r.pick(kPirLevels)); break;
  }
  return x;
}
template <class T, class D> T Or(T v, D d) { return v ? v : static_cast<T>(d); }

// Compares what the engines were given with the launch message.
void CheckEngines(vh::Case& c, const psi::LaunchConfig& x) {
  auto& rec = verif::Pir();
  int pir = rec.apsi_receiver.has_value() + rec.apsi_sender.has_value() + rec.dk_receiver.has_value() + rec.dk_sender.has_value();
  if (!c.check(g.calls() + pir == 1, "engine", "{} engines ran [{}]", g.calls() + pir, c.desc)) return;
  std::string why;
  switch (x.runtime_config_case()) {
    case psi::LaunchConfig::kLegacyPsiConfig:
      c.check(g.legacy && Same(x.legacy_psi_config(), *g.legacy, &why), "legacy config", "{} [{}]", why, c.desc);
      c.event("settings compared", Fields(x.legacy_psi_config()));
      break;
    case psi::LaunchConfig::kPsiConfig:
      c.check(g.psi && Same(x.psi_config(), *g.psi, &why), "psi config", "{} [{}]", why, c.desc);
      c.check(std::filesystem::exists(c.dir / "trace"), "trace path", "[{}]", c.desc);
      c.event("settings compared", Fields(x.psi_config()));
      break;
    case psi::LaunchConfig::kUbPsiConfig:
      c.check(g.ub && Same(x.ub_psi_config(), *g.ub, &why), "ub config", "{} [{}]", why, c.desc);
      c.event("settings compared", Fields(x.ub_psi_config()));
      break;
    case psi::LaunchConfig::kApsiSenderConfig: {
      if (!c.check(rec.apsi_sender.has_value(), "engine", "[{}]", c.desc)) break;
      auto& a = x.apsi_sender_config();
      auto& o = *rec.apsi_sender;
      psi::apsi_wrapper::cli::SenderOptions d;
      c.check(o.threads == a.threads() && o.log_file == a.log_file() && o.log_level == a.log_level() && o.silent == a.silent(), "sender run settings", "[{}]", c.desc);
      c.check(o.db_file == a.db_file() && o.source_file == a.source_file() && o.params_file == a.params_file() && o.sdb_out_file == a.sdb_out_file(), "sender files", "[{}]", c.desc);
      c.check(o.compress == a.compress() && o.save_db_only == a.save_db_only() && o.nonce_byte_count == Or<size_t>(a.nonce_byte_count(), d.nonce_byte_count) && o.channel == "yacl", "sender database settings", "[{}]", c.desc);
      c.check(o.experimental_enable_bucketize == a.experimental_enable_bucketize() && o.experimental_bucket_cnt == a.experimental_bucket_cnt() &&
                  o.experimental_bucket_folder == a.experimental_bucket_folder() &&
                  o.experimental_db_generating_process_num == Or(a.experimental_db_generating_process_num(), d.experimental_db_generating_process_num) &&
                  o.experimental_bucket_group_cnt == Or(a.experimental_bucket_group_cnt(), d.experimental_bucket_group_cnt), "sender bucket settings", "[{}]", c.desc);
      c.event("settings compared", 16);
      break;
    }
    case psi::LaunchConfig::kApsiReceiverConfig: {
      if (!c.check(rec.apsi_receiver.has_value(), "engine", "[{}]", c.desc)) break;
      auto& a = x.apsi_receiver_config();
      auto& o = *rec.apsi_receiver;
      c.check(o.threads == a.threads() && o.log_file == a.log_file() && o.log_level == a.log_level() && o.silent == a.silent(), "receiver run settings", "[{}]", c.desc);
      c.check(o.query_file == a.query_file() && o.output_file == a.output_file() && o.params_file == a.params_file() && o.channel == "yacl", "receiver files", "[{}]", c.desc);
      c.check(o.experimental_enable_bucketize == a.experimental_enable_bucketize() && o.experimental_bucket_cnt == a.experimental_bucket_cnt() &&
                  o.query_batch_size == Or<size_t>(a.query_batch_size(), 1), "receiver bucket settings", "[{}]", c.desc);
      c.event("settings compared", 10);
      break;
    }
    case psi::LaunchConfig::kDkPirSenderConfig: {
      if (!c.check(rec.dk_sender.has_value(), "engine", "[{}]", c.desc)) break;
      auto& a = x.dk_pir_sender_config();
      auto& o = *rec.dk_sender;
      c.check(rec.dk_offline == (a.mode() == psi::DkPirSenderConfig::MODE_OFFLINE), "dk mode", "[{}]", c.desc);
      c.check(o.threads == a.threads() && o.log_file == a.log_file() && o.log_level == a.log_level() && o.curve_type == a.curve_type() && o.skip_count_check == a.skip_count_check(), "dk sender run settings", "[{}]", c.desc);
      c.check(o.params_file == a.params_file() && o.source_file == a.source_file() && o.value_sdb_out_file == a.value_sdb_out_file() && o.count_sdb_out_file == a.count_sdb_out_file() &&
                  o.secret_key_file == a.secret_key_file() && o.result_file == a.result_file() && o.tmp_folder == a.tmp_folder(), "dk sender files", "[{}]", c.desc);
      c.check(o.key == a.key() && o.labels == std::vector<std::string>(a.labels().begin(), a.labels().end()), "dk sender columns", "[{}]", c.desc);
      c.event("settings compared", 15);
      break;
    }
    case psi::LaunchConfig::kDkPirReceiverConfig: {
      if (!c.check(rec.dk_receiver.has_value(), "engine", "[{}]", c.desc)) break;
      auto& a = x.dk_pir_receiver_config();
      auto& o = *rec.dk_receiver;
      c.check(o.threads == a.threads() && o.log_file == a.log_file() && o.log_level == a.log_level() && o.curve_type == a.curve_type() && o.skip_count_check == a.skip_count_check(), "dk receiver run settings", "[{}]", c.desc);
      c.check(o.params_file == a.params_file() && o.query_file == a.query_file() && o.result_file == a.result_file() && o.tmp_folder == a.tmp_folder(), "dk receiver files", "[{}]", c.desc);
      c.check(o.key == a.key() && o.labels == std::vector<std::string>(a.labels().begin(), a.labels().end()), "dk receiver columns", "[{}]", c.desc);
      c.event("settings compared", 11);
      break;
    }
    default: c.fail("engine", "an engine ran without a job [" + c.desc + "]");
  }
}
bool Refused(const psi::LaunchConfig& x) {
  return verif::Pir().rc != 0 && x.runtime_config_case() >= psi::LaunchConfig::kApsiSenderConfig ? true
         : x.has_dk_pir_sender_config() && x.dk_pir_sender_config().mode() == psi::DkPirSenderConfig::MODE_UNSPECIFIED;
}
void Reset(vh::Rng& r) {
  g = Record();
  g.report = Report(r);
  verif::Pir().Clear();
  verif::Pir().match_cnt = r.below(100000);
  verif::Pir().rc = r.chance(0.1) ? r.pick({1, -1, 7}) : 0;
}

void Direct(vh::Case& c) {
  auto& r = c.rng;
  Reset(r);
  auto x = RandomLaunch(r, c);
  auto w = yacl::link::test::SetupWorld(2);
  auto& l = w[r.below(2)];
  c.describe(fmt::format("job {} fields={} rc={} {:x}", static_cast<int>(x.runtime_config_case()), Fields(x), verif::Pir().rc, vh::Mix(std::hash<std::string>()(x.ShortDebugString()))));
  std::optional<psi::PsiResultReport> a;
  std::optional<psi::PirResultReport> b;
  bool hook = r.chance(0.5);
  int64_t ms = Num(r, 40);
  auto e = vh::Thrown([&] {
    switch (x.runtime_config_case()) {
      case psi::LaunchConfig::kLegacyPsiConfig: a = psi::RunLegacyPsi(x.legacy_psi_config(), l, hook ? psi::ProgressCallbacks([](const psi::Progress::Data&) {}) : nullptr, ms); break;
      case psi::LaunchConfig::kPsiConfig: a = psi::RunPsi(x.psi_config(), l); break;
      case psi::LaunchConfig::kUbPsiConfig: a = psi::RunUbPsi(x.ub_psi_config(), l); break;
      case psi::LaunchConfig::kApsiSenderConfig: b = psi::RunPir(x.apsi_sender_config(), l); break;
      case psi::LaunchConfig::kApsiReceiverConfig: b = psi::RunPir(x.apsi_receiver_config(), l); break;
      case psi::LaunchConfig::kDkPirSenderConfig: b = psi::RunDkPir(x.dk_pir_sender_config(), l); break;
      default: b = psi::RunDkPir(x.dk_pir_receiver_config(), l); break;
    }
  });
  if (!c.check(e.empty() != Refused(x), "failure of the engine", "{} [{}]", e, c.desc)) return;
  if (!e.empty()) { c.event("failures reported"); return; }
  CheckEngines(c, x);
  std::string why;
  if (a) {
    c.check(Same(*a, g.report, &why), "report", "{} [{}]", why, c.desc);
    c.check(g.ctx == l, "link", "[{}]", c.desc);
    if (g.legacy) c.check(g.has_hook == hook && g.interval == ms, "progress settings", "[{}]", c.desc);
    c.event("reports compared");
  }
  if (b && x.has_apsi_receiver_config()) {
    c.check(b->match_cnt() == verif::Pir().match_cnt, "match count", "[{}]", c.desc);
    c.event("reports compared");
  }
  // logging levels outside the documented ones are refused
  if (x.has_psi_config() || x.has_ub_psi_config()) {
    auto y = x;
    auto* d = y.has_psi_config() ? y.mutable_psi_config()->mutable_debug_options() : y.mutable_ub_psi_config()->mutable_debug_options();
    d->set_logging_level(r.pick<std::string>({"loud", "inf", "0", "warnings"}));
    c.check(!vh::Thrown([&] { y.has_psi_config() ? psi::RunPsi(y.psi_config(), l) : psi::RunUbPsi(y.ub_psi_config(), l); }).empty(), "unknown logging level", "[{}]", c.desc);
    c.event("refused");
  }
}

// ------------------------------------------------------------- command line
int Launch() {
  char name[] = "psi";
  char* argv[] = {name, nullptr};
  return PsiMain(1, argv);
}
std::string Json(vh::Rng& r, const pb::Message& m) {
  pb::util::JsonPrintOptions o;
  o.preserve_proto_field_names = r.chance(0.5);
  o.add_whitespace = r.chance(0.5);
  std::string s;
  if (!pb::util::MessageToJsonString(m, &s, o).ok()) throw std::runtime_error("json");
  return s;
}

void Cli(vh::Case& c) {
  auto& r = c.rng;
  Reset(r);
  auto x = RandomLaunch(r, c);
  size_t n = r.pick({0, 2, 2, 3, 5}), self = r.below(std::max<size_t>(n, 1));
  std::vector<std::string> ids;
  int how = r.below(3);
  if (how == 2 && n == 0) n = 2, self = r.below(2);
  for (size_t i = 0; i < n; ++i) ids.push_back(r.str(r.range(1, 6)) + std::to_string(i));
  FLAGS_config = FLAGS_json = FLAGS_kuscia = "";
  uint64_t tag = r.u64();
  uint64_t timeout = r.range(1, 100000);
  bool typo = r.chance(0.1);
  std::string text;
  if (how == 2) {
    psi::KusciaTask dummy;
    kuscia::TaskInputConfig in;
    auto mine = x;
    mine.mutable_link_config()->set_recv_timeout_ms(timeout);
    for (auto& id : ids) {
      auto other = RandomLaunch(r, c);
      (*in.mutable_sf_psi_config_map())[id] = id == ids[self] ? mine : other;
    }
    kuscia::ClusterDefine cl;
    cl.set_self_party_idx(self);
    for (auto& id : ids) {
      auto* p = cl.add_parties();
      p->set_name(id);
      auto* s = p->add_services();
      s->set_port_name("psi");
      s->add_endpoints(fmt::format("{}.svc:{}", id, r.range(1, 65535)));
    }
    kuscia::AllocatedPorts ports;
    ports.add_ports()->set_port(r.range(1, 65535));
    pb::Struct top;
    auto put = [&](const char* k, const std::string& v) { (*top.mutable_fields())[k].set_string_value(v); };
    put("task_id", fmt::format("task{:x}", tag));
    put("task_input_config", Json(r, in));
    put("task_cluster_def", Json(r, cl));
    put("allocated_ports", Json(r, ports));
    text = Json(r, top);
    typo = false;
    // the translation by itself
    auto t = psi::FromKusciaConfig(text);
    c.check(t.task_id == fmt::format("task{:x}", tag) && t.launch_config.self_link_party() == ids[self], "kuscia task", "[{}]", text);
    std::map<std::string, std::string> want, got;
    for (size_t i = 0; i < n; ++i)
      want[ids[i]] = i == self ? fmt::format("0.0.0.0:{}", ports.ports(0).port()) : "http://" + cl.parties(i).services(0).endpoints(0);
    for (auto& p : t.launch_config.link_config().parties()) got[p.id()] = p.host();
    c.check(want == got && static_cast<size_t>(t.launch_config.link_config().parties_size()) == n, "kuscia parties", "[{}]", text);
    c.check(t.launch_config.link_config().recv_timeout_ms() == timeout, "kuscia link settings", "[{}]", text);
    // every party must derive the same ranks
    for (size_t i = 0; i < n; ++i) {
      cl.set_self_party_idx(i);
      put("task_cluster_def", Json(r, cl));
      auto o = psi::FromKusciaConfig(Json(r, top));
      bool same = o.launch_config.link_config().parties_size() == t.launch_config.link_config().parties_size();
      for (int k = 0; same && k < o.launch_config.link_config().parties_size(); ++k) same = o.launch_config.link_config().parties(k).id() == t.launch_config.link_config().parties(k).id();
      c.check(same, "ranks of the parties", "[{}]", text);
    }
    c.event("kuscia tasks");
  } else {
    if (n) {
      x.set_self_link_party(ids[self]);
      x.mutable_link_config()->set_id(fmt::format("job{:x}", tag));
      x.mutable_link_config()->set_recv_timeout_ms(timeout);
      for (auto& id : ids) {
        auto* p = x.mutable_link_config()->add_parties();
        p->set_id(id);
        p->set_host(fmt::format("h{}:{:x}", id, tag));
      }
    }
    text = Json(r, x);
    if (typo) text.insert(text.find('{') + 1, r.chance(0.5) ? "\"link_confg\":{}," : "\"psi_configs\":{},");
  }
  auto path = c.dir / "launch.json";
  if (how == 1) FLAGS_json = text;
  else {
    vh::WriteAll(path, text);
    (how == 0 ? FLAGS_config : FLAGS_kuscia) = path;
  }
  c.describe(fmt::format("how={} job {} parties={} self={} typo={} rc={} {:x}", how, static_cast<int>(x.runtime_config_case()), n, self, typo, verif::Pir().rc, tag));
  int rc = -1;
  auto e = vh::Thrown([&] { rc = Launch(); });
  bool refused = typo || Refused(x);
  if (!c.check(e.empty() != refused, "refusal", "{} [{}]", e, c.desc)) return;
  if (refused) {
    if (typo) c.check(g.calls() == 0 && !verif::Pir().apsi_sender && !verif::Pir().apsi_receiver && !verif::Pir().dk_sender && !verif::Pir().dk_receiver, "engine after a refusal", "[{}]", c.desc);
    c.event(typo ? "refused" : "failures reported");
    psi::ResourceManager::GetInstance().RemoveAllResource();
    return;
  }
  c.check(rc == 0, "exit status", "{} [{}]", rc, c.desc);
  CheckEngines(c, x);
  if (g.calls() == 1 && n) {
    if (!c.check(g.ctx != nullptr && g.ctx->WorldSize() == n, "link", "[{}]", c.desc)) return;
    c.check(g.ctx->PartyIdByRank(g.ctx->Rank()) == ids[self], "own rank", "{} [{}]", g.ctx->Rank(), c.desc);
    if (how != 2)
      for (size_t i = 0; i < n; ++i) c.check(g.ctx->PartyIdByRank(i) == ids[i], "order of the parties", "[{}]", c.desc);
    c.check(g.ctx->GetDesc().recv_timeout_ms == timeout, "link timeout", "{} [{}]", g.ctx->GetDesc().recv_timeout_ms, c.desc);
    c.event("links compared");
  } else if (g.calls() == 1) {
    c.check(g.ctx == nullptr, "link", "[{}]", c.desc);
  }
  c.event("launches");
}

}  // namespace

int main(int argc, char** argv) { return vh::Main(argc, argv, {{"api", Api}, {"direct", Direct}, {"cli", Cli}}); }
