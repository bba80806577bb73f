#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.json."""
import json, sys
f = "/verif/known_findings.json"
d = json.load(open(f))
p, c, w = sys.argv[1:4]
d.append({"property": p, "status": "fixed", "commit": c, "what": f"fixed: property={p} {c} {w}"})
json.dump(d, open(f, "w"), indent=1)
