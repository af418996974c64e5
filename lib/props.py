"""Source of properties.jsonl and MANIFEST.json (python3 lib/props.py rewrites both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, technique=None, note=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"p": {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
                    "why_tests_cant": why, "anchors": a}, "technique": technique, "note": note})

exec(open(os.path.join(VERIF, "lib", "props_data.py")).read())

def main():
    from specs import SPECS
    ids = [x["p"]["id"] for x in P]
    assert len(set(ids)) == len(ids)
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in sorted(P, key=lambda x: x["p"]["id"]):
            f.write(json.dumps(x["p"]) + "\n")
    checks, na = [], []
    for x in sorted(P, key=lambda x: x["p"]["id"]):
        i = x["p"]["id"]
        if i in SPECS:
            checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": x["technique"], "level": "exploration",
                           "level_note": x["note"]})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "PSI_VERIF_HOOKS", "enable": "lib/vbuild.py compiles with -DPSI_VERIF_HOOKS: the batch and bin sizes that are constants become variables, so that small tables too are processed in several batches; everything else is observed and perturbed through the stand-ins for the libraries that are not installed (shim/)", "source_commits": ["1c4ec8d"]},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Every check compiles what it needs from /repo's working tree under AddressSanitizer and UBSan (ThreadSanitizer where races are the subject)."}
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    missing = set(SPECS) - set(ids)
    assert not missing, missing
    print(len(checks), "checks", len(na), "not claimed")

main()
