#!/bin/bash
# tryseed.sh ID [check]: demo on the clean tree and with the patch, in a scratch copy;
# then the property's check (or the given one) against the patched copy.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); id=$1
pid=${2:-$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
t=$(mktemp -d /tmp/seed.XXXX); trap 'rm -rf "$t"' EXIT
git clone -q --shared ${RP:-/repo} "$t/repo" || exit 3
cp -r "$V/seeded/$id" "$t/d"
rm -f "$t/d/patch.diff" "$t/d/meta.json"
if [ -z "${NODEMO:-}" ]; then
(cd "$t/repo" && timeout 300 "$t/d/demo.sh" >"$t/o1" 2>&1); echo "demo clean rc=$?"; tail -3 "$t/o1"
fi
git -C "$t/repo" apply "$V/seeded/$id/patch.diff" || { echo "does not apply"; exit 3; }
if [ -z "${NODEMO:-}" ]; then
(cd "$t/repo" && timeout 300 "$t/d/demo.sh" >"$t/o2" 2>&1); echo "demo patched rc=$?"; tail -4 "$t/o2"
fi
[ -n "${NOCHECK:-}" ] && exit 0
mkdir "$t/v"; cp -r "$V"/{check,lib,shim,harness,known_findings.txt,properties.jsonl,MANIFEST.json} "$t/v/"; mkdir "$t/v/evidence"
(cd "$t/v" && VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO="$t/repo" timeout 900 ./check $pid quick >"$t/o3" 2>&1); echo "check $pid rc=$?"; grep -E "VIOLATION|ERROR" "$t/o3" | head -4 | cut -c1-300; tail -1 "$t/o3" | cut -c1-200
