#!/usr/bin/env python3
"""Generates properties.jsonl, checks/*.json, MANIFEST.json from one source (props/*.py)."""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
P = []
NA = {}

def prop(id, title, statement, over, qtext, why, files, mech, runs=None, na=None, bounds="", assumptions=(), observe=None, note="", state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  runs=runs, na=na, bounds=bounds, assumptions=list(assumptions), observe=observe, note=note, state=state, hook=hook))

def R(pkg, fn, reach=("end",), **kw):
    d = dict(pkg="verif/h/" + pkg, fn=fn, reach=list(reach))
    d.update(kw)
    return d

for f in sorted(glob.glob(os.path.join(V, "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))

P.sort(key=lambda p: p["id"])
COMMON = ["the symbolic executor's semantics of Go SSA and of the intrinsified standard-library functions (cross-checked by replaying completed paths against the natively compiled code)",
          "z3's verdicts"]
LEVEL = "model_checking"
lines = []
checks = []
na = []
os.makedirs(os.path.join(V, "checks"), exist_ok=True)
want = set()
for p in P:
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["observe"]: a["observe_at"] = p["observe"]
    if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    a["hook_needed"] = p["hook"]
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}))
    if p["runs"] is None:
        na.append({"property": p["id"], "reason": p["na"] or "no check yet"})
        continue
    json_path = os.path.join(V, "checks", p["id"] + ".json")
    want.add(json_path)
    with open(json_path, "w") as f:
        json.dump({"id": p["id"], "level": LEVEL, "bounds": p["bounds"], "assumptions": COMMON + p["assumptions"], "runs": p["runs"]}, f, indent=1)
        f.write("\n")
    checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "bounded symbolic execution of the compiled Go SSA, branch and assertion verdicts by z3",
        "level": LEVEL,
        "level_note": ("Holds for every value of the symbolic inputs%s within the bounds: %s %s Trusted: the executor's semantics of Go, cross-checked by native replay; outside the bounds nothing is claimed." % (
            " and every schedule explored" if any(r.get("sched", "det") != "det" for r in p["runs"]) else "", p["bounds"], p["note"])).replace("  ", " ")})
for f in glob.glob(os.path.join(V, "checks", "*.json")):
    if f not in want: os.remove(f)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo: the harnesses in /verif/harness use the public API. The executor (/verif/engine) loads /repo's current source on every run."}, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "claimed,", len(na), "not applicable")
