#!/usr/bin/env python3
"""MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import registry
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "no check built yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "SMT-based symbolic execution of the LLVM IR of the real code" + (" (" + c["tech"] + ")" if c.get("tech") else ""),
                   "level": "model_checking",
                   "level_note": "Exhaustive within stated bounds: " + c["bounds"] + ". " + ("Assumes: " + "; ".join(c["assumptions"]) + ". " if c["assumptions"] else "") +
                   "Trusts the symbolic engine and its runtime model (validated on every run by replaying sampled paths on the natively compiled code) and Z3."})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo; the encoding is regenerated from /repo's sources on every run. Violations are replayed natively before they are reported; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
