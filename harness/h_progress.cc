// Progress reporting: a reference tree for sequential histories, and
// monitors over concurrent reporters and readers.
#include <atomic>
#include <memory>
#include <thread>

#include "vh.h"
#include "psi/utils/progress.h"

using psi::Progress;
namespace {

struct Node {
  std::string desc;
  Progress::Mode mode = Progress::Mode::kSingle;
  std::vector<size_t> weights;
  std::vector<std::unique_ptr<Node>> kids;
  size_t pct = 0;
  bool done = false;
  std::shared_ptr<Progress> real;

  void Done() {
    if (done) return;
    if (mode != Progress::Mode::kSingle)
      for (auto& k : kids) k->Done();
    pct = 100;
    done = true;
  }
  Progress::Data Get() const {
    Progress::Data d;
    if (mode == Progress::Mode::kSingle) {
      d.total = 1;
      d.percentage = pct;
      d.finished = pct == 100;
      d.running = pct > 0 && pct < 100;
      d.description = (desc.empty() ? "" : desc + ", ") + std::to_string(pct) + "%";
      return d;
    }
    size_t tw = 0, acc = 0;
    for (auto w : weights) tw += w;
    d.total = weights.size() - kids.size();
    std::string sub;
    bool have = false;
    for (size_t i = 0; i < kids.size(); ++i) {
      auto k = kids[i]->Get();
      acc += weights[i] * k.percentage;
      d.total += k.total;
      d.finished += k.finished;
      d.running += k.running;
      // description of the first unfinished job, of the last one if all are done
      if (!have && (!kids[i]->done || i + 1 == kids.size())) {
        sub = k.description;
        have = !sub.empty();
      }
    }
    d.percentage = tw ? acc / tw : 0;
    if (mode == Progress::Mode::kParallel)
      sub = fmt::format("{} jobs running ({} / {})", d.running, d.finished, d.total);
    d.description = desc.empty() ? sub : (sub.empty() ? desc : desc + ", " + sub);
    return d;
  }
};

std::string Show(const Progress::Data& d) {
  return fmt::format("total={} finished={} running={} pct={} '{}'", d.total, d.finished, d.running, d.percentage, d.description);
}
bool Same(const Progress::Data& a, const Progress::Data& b) {
  return a.total == b.total && a.finished == b.finished && a.running == b.running && a.percentage == b.percentage && a.description == b.description;
}

void Sequential(vh::Case& c) {
  auto& r = c.rng;
  std::string rd = r.chance(0.5) ? "" : "job" + r.str(3);
  Node root;
  root.desc = rd;
  root.real = rd.empty() && r.chance(0.5) ? std::make_shared<Progress>() : std::make_shared<Progress>(rd);
  std::vector<Node*> nodes{&root};
  std::map<Node*, int> depth{{&root, 0}};
  size_t ops = r.range(5, c.thorough ? 120 : 50);
  std::string trace;
  bool monotone = true;  // nobody lowered a value: the root may not go back
  size_t last = 0;
  for (size_t k = 0; k < ops; ++k) {
    Node* n = nodes[r.below(nodes.size())];
    size_t op = r.below(12);
    if (op < 4) {
      static const size_t edge[] = {0, 1, 99, 100, 101, 1000};
      size_t v = r.chance(0.3) ? edge[r.below(6)] : r.below(101);
      size_t w = v > 100 ? 100 : v;
      if (w < n->pct) monotone = false;
      n->pct = w;
      n->real->Update(v);
      trace += fmt::format("U{} ", v);
    } else if (op < 7 && n->kids.empty() && n->mode == Progress::Mode::kSingle && depth[n] < 3 && !n->done) {
      auto mode = r.chance(0.5) ? Progress::Mode::kSerial : Progress::Mode::kParallel;
      if (n->pct) monotone = false;  // switching to sub jobs restarts the count
      if (r.chance(0.5)) {
        size_t cnt = r.range(1, 6);
        n->weights.assign(cnt, 1);
        if (mode == Progress::Mode::kParallel && r.chance(0.5)) n->real->SetSubJobCount(cnt);
        else n->real->SetSubJobCount(cnt, mode);
      } else {
        size_t cnt = r.range(1, 6);
        for (size_t i = 0; i < cnt; ++i) n->weights.push_back(r.chance(0.15) ? 0 : r.range(1, 90));
        if (mode == Progress::Mode::kSerial && r.chance(0.5)) n->real->SetWeights(n->weights);
        else n->real->SetWeights(n->weights, mode);
      }
      n->mode = mode;
      trace += fmt::format("W{}{} ", n->weights.size(), mode == Progress::Mode::kSerial ? 's' : 'p');
    } else if (op < 10 && n->mode != Progress::Mode::kSingle && n->kids.size() < n->weights.size() && !n->done) {
      auto kid = std::make_unique<Node>();
      kid->desc = r.chance(0.4) ? "" : "s" + r.str(2);
      bool next = r.chance(n->mode == Progress::Mode::kSerial ? 0.8 : 0.2);
      if (next) {
        if (!n->kids.empty()) n->kids.back()->Done();
        kid->real = n->real->NextSubProgress(kid->desc);
      } else {
        kid->real = n->real->AddSubProgress(kid->desc);
      }
      nodes.push_back(kid.get());
      depth[kid.get()] = depth[n] + 1;
      n->kids.push_back(std::move(kid));
      trace += next ? "N " : "A ";
    } else if (op == 10) {
      n->Done();
      n->real->Done();
      trace += "D ";
    }
    for (Node* m : nodes) {
      auto got = m->real->Get(), want = m->Get();
      c.event("progress reports compared");
      if (!c.check(Same(got, want), "report-differs", "after {}: got {} want {}", trace, Show(got), Show(want))) return;
      if (!c.check(m->real->IsDone() == m->done, "done-flag", "after {}", trace)) return;
      if (!c.check(got.percentage <= 100 && got.finished + got.running <= got.total, "report-range", "after {}: {}", trace, Show(got))) return;
    }
    auto p = root.real->Get().percentage;
    if (monotone) c.check(p >= last, "went-back", "after {}: {} -> {}", trace, last, p);
    last = p;
  }
  if (r.chance(0.5) && !root.done) {
    bool full = root.mode == Progress::Mode::kSingle || root.kids.size() == root.weights.size();
    root.real->Done();
    c.check(root.real->IsDone(), "done-not-done", "{}", trace);
    std::function<bool(Node&)> complete = [&](Node& n) {
      if (n.mode == Progress::Mode::kSingle) return true;
      size_t tw = 0;
      for (auto w : n.weights) tw += w;
      if (n.kids.size() != n.weights.size() || tw == 0) return false;
      for (auto& k : n.kids) if (!complete(*k)) return false;
      return true;
    };
    std::function<bool(Node&)> reopened = [&](Node& n) {  // lowered after its own completion
      if (n.done && n.pct != 100) return true;
      for (auto& k : n.kids) if (reopened(*k) || (k->done && k->mode != Progress::Mode::kSingle)) return true;
      return false;
    };
    if (full && complete(root) && !reopened(root)) {
      auto d = root.real->Get();
      c.check(d.percentage == 100 && d.finished == d.total && d.running == 0, "done-not-complete", "{}: {}", trace, Show(d));
      c.event("completed trees");
    }
  }
  c.describe(trace.substr(0, 400));
}

void Concurrent(vh::Case& c) {
  auto& r = c.rng;
  bool parallel = r.chance(0.6);
  size_t subs = r.range(2, 6), readers = r.range(1, 3);
  bool nested = r.chance(0.3), root_done = r.chance(0.5), weighted = r.chance(0.5);
  c.describe(fmt::format("parallel={} subs={} readers={} nested={} root_done={} weighted={} seed={}", parallel, subs, readers, nested, root_done, weighted, c.seed % 1000));
  Progress root("root");
  std::vector<size_t> w;
  for (size_t i = 0; i < subs; ++i) w.push_back(weighted ? r.range(1, 50) : 1);
  auto mode = parallel ? Progress::Mode::kParallel : Progress::Mode::kSerial;
  if (weighted) root.SetWeights(w, mode); else root.SetSubJobCount(subs, mode);
  std::atomic<bool> stop{false};
  std::atomic<uint64_t> reads{0};
  std::vector<std::thread> th;
  std::set<size_t> seen;
  std::mutex seen_mu;
  for (size_t i = 0; i < readers; ++i)
    th.emplace_back([&] {
      size_t last = 0, last_fin = 0;
      std::set<size_t> mine;
      bool more = true;
      while (more) {
        more = !stop.load();
        bool was_done = root.IsDone();
        auto d = root.Get();
        ++reads;
        mine.insert(d.percentage);
        if (!c.check(d.percentage >= last, "conc-went-back", "{} -> {}", last, d.percentage)) break;
        if (!c.check(d.finished >= last_fin, "conc-finished-back", "{} -> {}", last_fin, d.finished)) break;
        if (!c.check(d.percentage <= 100 && d.finished + d.running <= d.total && d.total >= subs, "conc-range", "{}", Show(d))) break;
        if (was_done && !c.check(d.percentage == 100, "conc-done-below-100", "{}", Show(d))) break;
        last = d.percentage;
        last_fin = d.finished;
      }
      std::lock_guard<std::mutex> g(seen_mu);
      seen.insert(mine.begin(), mine.end());
    });
  auto drive = [&](std::shared_ptr<Progress> p, uint64_t s) {
    vh::Rng q(s);
    if (nested) {
      p->SetSubJobCount(2, Progress::Mode::kSerial);
      for (int k = 0; k < 2; ++k) {
        auto x = p->NextSubProgress("n");
        for (size_t v = 0; v <= 100; v += q.range(1, 30)) x->Update(v);
        x->Done();
      }
      p->Done();
    } else {
      for (size_t v = 0; v <= 100; v += q.range(1, 12)) {
        p->Update(v);
        if (q.chance(0.1)) std::this_thread::yield();
      }
      p->Done();
    }
  };
  if (parallel) {
    std::vector<std::thread> ws;
    std::vector<std::shared_ptr<Progress>> ps(subs);
    bool add_inside = r.chance(0.5);
    if (!add_inside) for (auto& p : ps) p = root.AddSubProgress();
    for (size_t i = 0; i < subs; ++i) {
      uint64_t s = r.u64();
      ws.emplace_back([&, i, s] { drive(add_inside ? root.AddSubProgress("w") : ps[i], s); });
    }
    for (auto& t : ws) t.join();
  } else {
    for (size_t i = 0; i < subs; ++i) drive(root.NextSubProgress("step"), r.u64());
  }
  if (root_done) {
    std::thread t2([&] { root.Done(); });
    root.Done();
    t2.join();
  }
  stop = true;
  for (auto& t : th) t.join();
  auto d = root.Get();
  c.check(d.percentage == 100 && d.finished == d.total && d.running == 0, "conc-final", "{}", Show(d));
  c.check(d.total == (nested ? 2 * subs : subs), "conc-total", "{}", Show(d));
  c.check(!root_done || root.IsDone(), "conc-root-done", "{}", Show(d));
  c.event("concurrent reads", reads);
  c.event("distinct percentages seen while running", seen.size());
}

}  // namespace
int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"sequential", Sequential}, {"concurrent", Concurrent}});
}
