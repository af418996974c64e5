"""Builds harnesses from /repo's current working tree plus the stand-ins of
/verif/shim. Translation units are found by closure over the headers that are
actually included (foo.h -> foo.cc), so an added or split file is picked up.
Objects are cached by the content of everything they were compiled from."""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SHIM = os.path.join(VERIF, "shim")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=vptr,nonnull-attribute", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "none": [],
}
BASE = ["-std=c++17", "-O1", "-g1", "-w", "-fopenmp", "-maes", "-mpclmul",
        "-mavx2", "-mbmi2", "-msse4.2", "-mrdseed", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_COMPILED_LIB", "-DPSI_VERIF_HOOKS",
        "-DFMT_SHARED", "-pthread"]
LIBS = ["-lspdlog", "-lfmt", "-lprotobuf", "-lssl", "-lcrypto", "-lz"]
SYS_ABSL = None

class BuildError(Exception):
    pass

def absl_libs():
    global SYS_ABSL
    if SYS_ABSL is None:
        d = "/usr/lib/x86_64-linux-gnu"
        names = sorted(f[3:].split(".")[0] for f in os.listdir(d)
                       if f.startswith("libabsl_") and (f.endswith(".so") or f.endswith(".a")))
        names = [n for n in dict.fromkeys(names) if not re.search(r"_test|mock|main", n)]
        SYS_ABSL = ["-Wl,--start-group"] + ["-l" + n for n in names] + ["-Wl,--end-group"]
    return SYS_ABSL

_sha = {}
_sha_lock = threading.Lock()
def sha(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    v = _sha.get(k)
    if v is None:
        with open(path, "rb") as f:
            v = hashlib.sha256(f.read()).hexdigest()
        with _sha_lock:
            _sha[k] = v
    return v

PROTO_SKIP = {"psi/wrapper/apsi/utils/group_db_status.proto__none"}

def gen_protos():
    """All protos of the repository -> BUILD/gen (only rewritten on change)."""
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    protos = []
    for top in ("psi", "experiment"):
        for root, _, files in os.walk(os.path.join(REPO, top)):
            protos += [os.path.relpath(os.path.join(root, f), REPO) for f in files if f.endswith(".proto")]
    shim_protos = []
    for root, _, files in os.walk(os.path.join(SHIM, "proto")):
        shim_protos += [os.path.relpath(os.path.join(root, f), os.path.join(SHIM, "proto")) for f in files if f.endswith(".proto")]
    protos.sort()
    key = hashlib.sha256("".join(p + sha(os.path.join(REPO, p)) for p in protos).encode() +
                         "".join(p + sha(os.path.join(SHIM, "proto", p)) for p in shim_protos).encode()).hexdigest()
    stamp = os.path.join(gen, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return gen
    r = subprocess.run(["protoc", "-I", REPO, "-I", os.path.join(SHIM, "proto"), "--cpp_out=" + gen] + protos + shim_protos,
                       capture_output=True, text=True, cwd=REPO)
    if r.returncode:
        raise BuildError("protoc failed:\n" + r.stderr)
    open(stamp, "w").write(key)
    return gen

def parse_dep(path):
    txt = open(path).read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    return [os.path.normpath(d) for d in deps]

def flags(san, extra=()):
    gen = os.path.join(BUILD, "gen")
    return BASE + SAN[san] + list(extra) + [
        "-I", os.path.join(SHIM, "include"), "-I", os.path.join(VERIF, "harness"), "-I", REPO, "-I", gen]

stats = {"compiled": 0, "cached": 0}

_pch_lock = threading.Lock()
_pch = {}
def pch(fl, cxx):
    """Precompiled verif/prelude.h for these flags -> extra arguments."""
    heads = []
    for root, _, files in os.walk(os.path.join(SHIM, "include")):
        heads += [os.path.join(root, f) for f in files]
    with _pch_lock:
        k = hashlib.sha256(json.dumps([cxx, fl, [(h, sha(h)) for h in sorted(heads)]]).encode()).hexdigest()[:20]
        d = os.path.join(BUILD, "pch", k)
        h = os.path.join(d, "verif_prelude.h")
        if k not in _pch:
            if not os.path.exists(h + ".gch"):
                os.makedirs(d, exist_ok=True)
                open(h, "w").write('#include "verif/prelude.h"\n')
                r = subprocess.run([cxx] + fl + ["-x", "c++-header", h, "-o", h + ".gch.tmp"], capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("precompiled header failed:\n" + r.stderr[-3000:])
                os.replace(h + ".gch.tmp", h + ".gch")
            _pch[k] = True
    return ["-include", h]

def compile_one(src, san, extra=(), cxx="g++"):
    """-> (object, deps)"""
    fl = flags(san, extra)
    if src.endswith(".pb.cc"):
        fl = [f for f in fl if f not in SAN["asan"]] if san == "asan" else fl
    else:
        fl = fl + pch(fl, cxx)
    cid = hashlib.sha256(json.dumps([cxx, fl, src]).encode()).hexdigest()[:24]
    odir = os.path.join(BUILD, "obj", cid[:2])
    os.makedirs(odir, exist_ok=True)
    obj, dep, meta = (os.path.join(odir, cid + s) for s in (".o", ".d", ".json"))
    if os.path.exists(meta) and os.path.exists(obj):
        try:
            m = json.load(open(meta))
            if all(sha(p) == h for p, h in m.items()):
                stats["cached"] += 1
                return obj, list(m)
        except ValueError:
            pass
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([cxx] + fl + ["-MMD", "-MF", dep, "-MT", "x", "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
    deps = [d for d in parse_dep(dep) if not d.startswith("/usr/") and "/build/pch/" not in d]
    os.replace(tmp, obj)
    json.dump({p: sha(p) for p in deps}, open(meta, "w"))
    stats["compiled"] += 1
    return obj, deps

SHIM_MAP = [  # header prefix under shim/include -> shim/src file
    ("yacl/link/", "yacl_link.cc"), ("verif/hub.h", "yacl_link.cc"),
    ("yacl/crypto/ecc/", "yacl_ecc.cc"), ("yacl/crypto/", "yacl_crypto.cc"), ("verif/shim_ctl.h", "yacl_crypto.cc"),
    ("yacl/kernel/", "yacl_kernel.cc"), ("arrow/", "arrow.cc"), ("seal/", "seal.cc"),
    ("psi/algorithm/dkpir/", "pir_stub.cc"), ("verif/pir_record.h", "pir_stub.cc"),
    ("crypto_mb/", "crypto_mb.cc"), ("yacl/utils/parallel.h", "yacl_parallel.cc"),
]

# need APSI, SEAL's encryption schemes or HEU, which are not installed
NOBUILD = ("psi/wrapper/", "psi/algorithm/dkpir/", "psi/algorithm/sealpir/")
BUILDABLE = ("psi/wrapper/apsi/utils/common.h", "psi/wrapper/apsi/utils/csv_reader.h", "psi/wrapper/apsi/utils/group_db.h")

def sources_for(dep):
    """Translation units that define what header `dep` declares."""
    gen = os.path.join(BUILD, "gen") + "/"
    inc = os.path.join(SHIM, "include") + "/"
    if dep.startswith(inc):
        rel = dep[len(inc):]
        for pre, src in SHIM_MAP:
            if rel.startswith(pre):
                return [os.path.join(SHIM, "src", src)] if src else []
        return []
    if dep.startswith(gen) and dep.endswith(".pb.h"):
        return [dep[:-5] + ".pb.cc"]
    if (dep.startswith(REPO + "/psi/") or dep.startswith(REPO + "/experiment/")) and dep.endswith(".h"):
        rel = dep[len(REPO) + 1:]
        if rel == "psi/wrapper/apsi/cli/entry.h":
            return [os.path.join(SHIM, "src", "pir_stub.cc")]
        if any(rel.startswith(x) for x in NOBUILD) and rel not in BUILDABLE:
            return []
        c = dep[:-2] + ".cc"
        return [c] if os.path.exists(c) else []
    if dep.startswith(os.path.join(VERIF, "harness")) and dep.endswith(".h"):
        c = dep[:-2] + ".cc"
        return [c] if os.path.exists(c) else []
    return []

def build(name, roots, san="asan", exclude=(), extra=(), libs=(), cxx="g++", verbose=False):
    """Builds binary `name` from `roots` (relative to VERIF or 'repo:' paths)."""
    os.makedirs(BUILD, exist_ok=True)
    gen_protos()
    todo, seen, objs = [], set(), {}
    for a in ("absl.cc", "yacl_crypto.cc"):  # their headers sit in the precompiled prelude
        a = os.path.join(SHIM, "src", a)
        todo.append(a); seen.add(a)
    for r in roots:
        p = os.path.join(REPO, r[5:]) if r.startswith("repo:") else os.path.join(VERIF, r)
        todo.append(p); seen.add(p)
    ex = {os.path.join(REPO, e) for e in exclude}
    errs = []
    with cf.ThreadPoolExecutor(JOBS) as pool:
        pending = {}
        def submit(p):
            pending[pool.submit(compile_one, p, san, extra, cxx)] = p
        for p in todo:
            submit(p)
        while pending:
            done, _ = cf.wait(list(pending), return_when=cf.FIRST_COMPLETED)
            for f in done:
                p = pending.pop(f)
                try:
                    obj, deps = f.result()
                except BuildError as e:
                    errs.append(str(e)); continue
                objs[p] = obj
                if verbose:
                    print("  ", p, flush=True)
                for d in deps:
                    for s in sources_for(d):
                        if s not in seen and s not in ex:
                            seen.add(s); submit(s)
    if errs:
        raise BuildError("\n".join(errs))
    out = os.path.join(BUILD, "bin", "%s.%s" % (name, san))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    olist = [objs[p] for p in sorted(objs)]
    lid = hashlib.sha256(json.dumps([olist, [sha(o) for o in olist], libs]).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(out + ".id") and open(out + ".id").read() == lid:
        return out
    rsp = out + ".rsp"
    open(rsp, "w").write("\n".join(olist))
    r = subprocess.run([cxx] + SAN[san] + ["-fopenmp", "-pthread", "-o", out + ".tmp", "@" + rsp] + list(libs) + LIBS + absl_libs() + LIBS,
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-6000:]))
    os.replace(out + ".tmp", out)
    open(out + ".id", "w").write(lid)
    return out

if __name__ == "__main__":
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("name"); a.add_argument("roots", nargs="+"); a.add_argument("--san", default="asan")
    a.add_argument("--exclude", nargs="*", default=[]); a.add_argument("--libs", nargs="*", default=[])
    a.add_argument("--extra", nargs="*", default=[])
    a.add_argument("-v", action="store_true")
    o = a.parse_args()
    t = time.time()
    try:
        print(build(o.name, o.roots, o.san, o.exclude, o.extra, ["-l" + l for l in o.libs], verbose=o.v), "%.1fs" % (time.time() - t), stats)
    except BuildError as e:
        print(e); sys.exit(2)
