#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness files present and the notes below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: postconditions on the repository's own functions, discharged on the LLVM IR of the current sources by vfengine (VC generation by symbolic execution, z3/cvc5)"
# id: (level, note)
L = json.load(open(V + "/tools/levels.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in L and L[i][0] != "na":
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": T, "level": L[i][0], "level_note": L[i][1]})
    else:
        na.append({"property": i, "reason": L[i][1] if i in L else "contracts for this property are not built yet"})
json.dump({"version": 1, "setup_cmd": "make -C engine -j8", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
