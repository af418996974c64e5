// Whole two-party jobs, judged against the plaintext answer.
#include "world.h"

namespace {
using namespace vw;
void Exact(vh::Case& c) {  // P01: one key column, every protocol
  Job j;
  GenProtocol(c.rng, j);
  GenOpt o;
  o.joins = false;
  o.max_rows = c.rng.chance(0.2) ? 400 : 60;
  if (j.proto == psi::v2::PROTOCOL_ECDH && j.batch && j.batch < 8 && o.max_rows > 60) o.max_rows = 60;
  GenTables(c, j, o);
  j.recovery = c.rng.chance(0.15);
  c.describe(j.Text());
  WriteInputs(j, c.dir);
  auto got = RunJob(j, c.dir);
  auto w = Expect(j);
  Judge(c, j, w, got);
  c.event("intersection keys", w.inter_keys);
}
void Join(vh::Case& c) {  // P02/P03
  Job j;
  j.proto = psi::v2::PROTOCOL_ECDH;
  if (c.rng.chance(0.3)) GenProtocol(c.rng, j);
  GenOpt o;
  o.max_rows = 40;
  GenTables(c, j, o);
  j.recovery = c.rng.chance(0.15);
  c.describe(j.Text());
  WriteInputs(j, c.dir);
  Judge(c, j, Expect(j), RunJob(j, c.dir));
}
void Counts(vh::Case& c) {
  Job j;
  if (c.rng.chance(0.5)) GenProtocol(c.rng, j);
  GenOpt o;
  o.max_rows = 30;
  o.payload = c.rng.chance(0.5);
  GenTables(c, j, o);
  c.describe(j.Text());
  WriteInputs(j, c.dir);
  auto w = Expect(j);
  auto a = RunJob(j, c.dir);
  Judge(c, j, w, a);
  if (c.failed()) return;
  // again: over the files of the first run, then from scratch
  auto b = RunJob(j, c.dir);
  for (int i = 0; i < 2; ++i)
    c.check(a[i].report.SerializeAsString() == b[i].report.SerializeAsString(), "report-changed-on-rerun", "{} / {} [{}]", a[i].report.ShortDebugString(), b[i].report.ShortDebugString(), j.Text());
  Judge(c, j, w, b, "rerun-");
  c.event("reruns compared");
}

// Text forms the raw-text sort is known to mishandle, one fixed input each.
void Quoting(vh::Case& c) {
  Job j;
  j.broadcast = true;
  auto& R = j.side[0];
  auto& S = j.side[1];
  R.keys = {"id"}; S.keys = {"id"};
  R.tab.cols = {"v", "id"}; S.tab.cols = {"id"};
  const char* name = "";
  switch (c.index) {
    case 0:
      name = "comma-in-key";
      R.tab.rows = {{"1", "a,x"}, {"2", "a,y"}, {"3", "a,x"}, {"4", "b"}};
      S.tab.rows = {{"a,x"}, {"b"}, {"c"}};
      break;
    case 1:
      name = "one-side-quoted";
      R.tab.quote = true;
      R.tab.rows = {{"1", "k"}, {"2", "k 1"}, {"3", "z"}};
      S.tab.rows = {{"k 1"}, {"k"}, {"z"}, {"y"}};
      break;
    case 2: {
      name = "mixed-quoting";
      R.tab.rows = {{"1", "k"}, {"2", "a"}, {"3", "k"}};
      S.tab.rows = {{"k"}, {"b"}};
      break;
    }
    case 3:
      name = "comma-moves-between-keys";
      R.keys = S.keys = {"id", "id2"};
      R.tab.cols = S.tab.cols = {"id", "id2"};
      R.tab.rows = {{"a,b", "c"}, {"x", "y"}};
      S.tab.rows = {{"a", "b,c"}, {"x", "y"}};
      break;
    default:
      name = "plain";
      R.tab.rows = {{"1", "k"}, {"2", "a"}};
      S.tab.rows = {{"k"}, {"b"}};
  }
  c.describe(name);
  WriteInputs(j, c.dir);
  if (c.index == 2) vh::WriteAll(PathsOf(c.dir).in[0], "v,id\n1,\"k\"\n2,a\n3,k\n");
  vh::Case sub(c.seed);
  Judge(sub, j, Expect(j), RunJob(j, c.dir));
  for (auto& [k, d] : sub.viol) { c.fail(name, k + ": " + d); break; }
  c.event("quoting forms tried");
}
}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"exact", Exact}, {"join", Join}, {"counts", Counts}, {"quoting", Quoting}});
}
