"""Runs the harnesses of one property, decides, writes evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

import vbuild

VERIF = vbuild.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=6000:handle_segv=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4",
}

def known():
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s*(.*)", l)
            if m:
                r[(m.group(1), m.group(2))] = m.group(3).strip()
    return r

FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (\S*?/(?:repo|verif)/[^\s:]+)(?::\d+)*")

def crash_key(text, rc):
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = m.group(1)
    if not kind and "WARNING: ThreadSanitizer" in text:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
        kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    if not kind:
        m = re.search(r"runtime error: ([^\n]{0,80})", text)
        if m:
            kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", m.group(1).lower())).strip("-")[:50]
    if not kind:
        m = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
        if m:
            kind = "terminate"
    if not kind:
        kind = "died-rc%d" % rc
    fn = ""
    for m in FRAME.finditer(text):
        if "/repo/" in m.group(2) and "_test" not in m.group(2):
            fn = re.sub(r"[<(].*", "", m.group(1)).strip().split(" ")[-1]
            fn = re.sub(r"[^\w:~]", "_", fn)
            if fn:
                break
    return "crash:%s%s" % (kind, ":" + fn if fn else "")

class Shard(threading.Thread):
    """One process at a time over its share of the cases; a dying process is
    recorded against the case it was in, and the next one carries on."""
    def __init__(self, job, exe, idxs_first, count, stride, seed, tier, work, results, lock, sem):
        super().__init__()
        self.__dict__.update(job=job, exe=exe, first=idxs_first, count=count, stride=stride, seed=seed,
                             tier=tier, work=work, results=results, lock=lock, sem=sem, errors=[])

    def launch(self, first, count, out, log, limit):
        wd = tempfile.mkdtemp(dir=self.work)
        env = dict(os.environ); env.update(SAN_ENV); env.update(self.job.get("env", {}))
        env["VERIF_SEED"] = str(self.seed)
        with open(log, "wb") as lf:
            p = subprocess.Popen([self.exe, "--scn", self.job["scn"], "--seed", str(self.seed), "--first", str(first),
                                  "--count", str(count), "--stride", str(self.stride), "--tier", self.tier,
                                  "--workdir", wd, "--out", out], stdout=lf, stderr=subprocess.STDOUT, env=env,
                                 start_new_session=True, cwd=wd)
            last, t = -1, time.time()
            hung = False
            while True:
                try:
                    rc = p.wait(timeout=0.5); break
                except subprocess.TimeoutExpired:
                    pass
                sz = os.path.getsize(out) if os.path.exists(out) else 0
                if sz != last:
                    last, t = sz, time.time()
                elif time.time() - t > limit:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    rc = p.wait(); break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(wd, ignore_errors=True)
        return rc, hung

    def parse(self, out):
        recs, cur, done = [], None, False
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if "begin" in j: cur = j["begin"]
                elif "done" in j: done = True
                elif "i" in j:
                    recs.append(j); cur = None
        return recs, cur, done

    def run(self):
        with self.sem:
            self.go()

    def go(self):
        first, left, deaths = self.first, self.count, 0
        limit = self.job.get("case_timeout", 150)
        while left > 0:
            tag = "%s-%s-%s-%d" % (self.job["bin"], self.job["scn"], self.job.get("san", "asan"), first)
            out, log = os.path.join(self.work, tag + ".jsonl"), os.path.join(self.work, tag + ".log")
            rc, hung = self.launch(first, left, out, log, limit)
            recs, cur, done = self.parse(out)
            with self.lock:
                self.results.extend((self.job, r) for r in recs)
            if done and rc == 0:
                return
            text = open(log, "rb").read()[-200000:].decode("utf-8", "replace")
            if cur is None:
                if recs and rc == 0: return
                self.errors.append("harness %s rc=%d with no case open: %s" % (tag, rc, text[-1500:]))
                return
            if hung or not re.search(r"Sanitizer|runtime error", text):
                # not self-explanatory: believe it only when it happens again
                out2, log2 = out + ".again", log + ".again"
                rc2, hung2 = self.launch(cur, 1, out2, log2, limit * 2)
                recs2, cur2, done2 = self.parse(out2)
                if done2 and rc2 == 0:
                    with self.lock:
                        self.results.extend((self.job, r) for r in recs2)
                    self.errors.append("NOTE: case %s/%d ended rc=%d hung=%s once, fine when repeated" % (self.job["scn"], cur, rc, hung))
                    first, left = cur + self.stride, left - len(recs) - 1
                    deaths += 1
                    if deaths > 6: return
                    continue
                text, rc, hung = open(log2, "rb").read()[-200000:].decode("utf-8", "replace"), rc2, hung2
            key = "hang" if hung else crash_key(text, rc)
            m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|runtime error|terminate called)[\s\S]{0,2500}", text)
            with self.lock:
                self.results.append((self.job, {"i": cur, "nt": True, "d": "", "ev": {},
                                     "viol": [[key, m.group(0) if m else text[-1500:]]]}))
            first, left = cur + self.stride, left - len(recs) - 1
            deaths += 1
            if deaths > 8: return

def run_property(pid, spec, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev_dir = os.path.join(VERIF, "evidence"); os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(ev_dir, "replay")):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(ev_dir, "replay", f))
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        exes = {}
        for job in spec["jobs"]:
            k = (job["bin"], job.get("san", "asan"))
            if k not in exes:
                exes[k] = vbuild.build(job["bin"], job["roots"], san=k[1], exclude=job.get("exclude", ()),
                                       extra=job.get("extra", []), libs=job.get("libs", []))
        t_build = time.time() - t0
        results, lock, errors, notes = [], threading.Lock(), [], []
        sem = threading.Semaphore(int(os.environ.get("VERIF_JOBS", "8")))
        shards = []
        for job in spec["jobs"]:
            n = job["quick"] if tier == "quick" else job.get("thorough", job["quick"] * 8)
            k = max(1, min(job.get("shards", 8), n))
            for s in range(k):
                cnt = (n - s + k - 1) // k
                shards.append(Shard(job, exes[(job["bin"], job.get("san", "asan"))], s, cnt, k, seed, tier, work, results, lock, sem))
        for s in shards: s.start()
        for s in shards: s.join()
        for s in shards:
            for e in s.errors:
                (notes if e.startswith("NOTE") else errors).append(e)
        return decide(pid, spec, tier, seed, results, errors, notes, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(pid, spec, tier, seed, results, errors, notes, t0, t_build):
    kn = known()
    events, digests, samples, per = {}, set(), [], {}
    viols, known_hit = {}, {}
    for job, r in results:
        for k, v in r["ev"].items():
            events[k] = events.get(k, 0) + v
        per[job["scn"] + ("/" + job["san"] if job.get("san", "asan") != "asan" else "")] = per.get(job["scn"] + ("/" + job["san"] if job.get("san", "asan") != "asan" else ""), 0) + 1
        if r["nt"]:
            digests.add(hashlib.sha256((job["scn"] + r["d"]).encode()).digest()[:8] if r["d"] else os.urandom(8))
        for key, det in r["viol"]:
            full = job["scn"] + "/" + re.sub(r"[^\w:.,=~-]+", "_", key)
            hit = (pid, full)
            if hit in kn:
                known_hit.setdefault(full, (kn[hit], det, r))
            else:
                viols.setdefault(full, []).append((job, r, det))
    seen_scn = {}
    for job, r in sorted(results, key=lambda x: x[1]["i"]):
        if r["d"] and seen_scn.get(job["scn"], 0) < 2:
            seen_scn[job["scn"]] = seen_scn.get(job["scn"], 0) + 1
            samples.append("%s #%d: %s" % (job["scn"], r["i"], r["d"][:300]))
    for e in spec.get("must_observe", []):
        if not events.get(e) and not viols:
            errors.append("never observed: " + e)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": len(results), "distinct_nontrivial": len(digests), "rule": spec["rule"],
                       "samples": samples[:12], "observed": events, "cases_per_scenario": per,
                       "notes": notes, "build_s": round(t_build, 1)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": sum(len(v) for v in viols.values())}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k, (txt, det, r) in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, txt))
    for k, lst in sorted(viols.items()):
        job, r, det = lst[0]
        path = os.path.join(VERIF, "evidence", "replay", "%s-%s.json" % (pid, re.sub(r"\W+", "_", k)[:80]))
        json.dump({"property": pid, "key": k, "binary": job["bin"], "san": job.get("san", "asan"), "scenario": job["scn"],
                   "seed": seed, "case": r["i"], "case_text": r["d"], "detail": det, "occurrences": len(lst),
                   "replay": "cd /verif && VERIF_SEED=%d ./check %s --replay %s" % (seed, pid, path)}, open(path, "w"), indent=1)
        print("  %s (%d case(s), first: #%d)\n    %s" % (k, len(lst), r["i"], det[:1200].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s: %d cases, %d distinct, %d violation kinds, %.1fs (build %.1fs) events=%s" % (
        pid, tier, len(results), len(digests), len(viols), time.time() - t0, t_build,
        json.dumps(events)[:1500]))
    for e in notes: print(e)
    if viols:
        return 1
    if errors:
        for e in errors[:5]: print("ERROR:", e)
        return 3
    return 0
