#!/usr/bin/env python3-vt
"""writes MANIFEST.json: a check for every property with a contract module, not_applicable for the others"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUM = "contract-based deductive verification: symbolic execution of the real code (LLVM IR), identities over the reals by normal form / field identity test / z3"
HEAP = "contract-based deductive verification: class invariants, loop invariants and ghost state over the real code (LLVM IR), obligations by z3"
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTE[i]
    if os.path.exists(os.path.join(V, "contracts", i + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3-vt check {i} --tier quick", thorough_cmd=f"python3-vt check {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique={"num": NUM, "heap": HEAP}.get(n.get("technique", "num"), n.get("technique")),
                           level=n.get("level", "proof"), level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=n.get("na", "no check yet")))
m = dict(version=1, setup_cmd="python3-vt tools/selftest.py", checks=checks, not_applicable=na,
         notes="Checks read /repo's working tree and need no hooks. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
