"""lib/mkseed.py ID...: puts everything a planted bug's demonstration needs beside it."""
import os, shutil, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it does not. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/t" "$tmp/w"
export TMPDIR="$tmp/t" VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1
cat > "$tmp/build.py" <<'E'
import sys
sys.path.insert(0, sys.argv[1] + "/kit/lib")
import vbuild
vbuild.BUILD = sys.argv[2] + "/build"
extra = [l.strip() for l in open(sys.argv[1] + "/roots") if l.strip()]
try:
    print(vbuild.build("demo", ["../demo.cc", "harness/vh.cc"] + extra, san="SAN"))
except vbuild.BuildError as e:
    print(str(e)[-3000:]); sys.exit(3)
E
python3 "$tmp/build.py" "$here" "$tmp" || exit 3
cd "$tmp/w" && SANENV timeout 200 "$tmp/build/bin/demo.SAN" "$tmp/w" 2>"$tmp/log"
rc=$?
grep -E "runtime error|AddressSanitizer|ThreadSanitizer" "$tmp/log" | head -5
exit $rc
'''
for i in sys.argv[1:]:
    d = os.path.join(V, "seeded", i)
    k = os.path.join(d, "kit")
    shutil.rmtree(k, ignore_errors=True)
    for s in ("shim",):
        shutil.copytree(os.path.join(V, s), os.path.join(k, s))
    os.makedirs(os.path.join(k, "lib")); os.makedirs(os.path.join(k, "harness"))
    shutil.copy(os.path.join(V, "lib/vbuild.py"), os.path.join(k, "lib"))
    for h in ("vh.h", "vh.cc", "world.h", "world.cc"):
        shutil.copy(os.path.join(V, "harness", h), os.path.join(k, "harness"))
    roots = os.path.join(d, "roots")
    if not os.path.exists(roots): open(roots, "w").write("")
    san = "none"
    if os.path.exists(os.path.join(d, "san")): san = open(os.path.join(d, "san")).read().strip()
    env = {"none": "", "asan": "ASAN_OPTIONS=detect_leaks=0", "tsan": "TSAN_OPTIONS=halt_on_error=1:exitcode=1"}[san]
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(DEMO.replace("SANENV", env).replace('"SAN"', '"%s"' % san).replace("demo.SAN", "demo." + san))
    os.chmod(p, 0o755)
    print("packed", i)
