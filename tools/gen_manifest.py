#!/usr/bin/env python3
"""Writes MANIFEST.json from the contract and bounded modules present."""
import json, os, sys
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo")
HERE = "/verif"
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
LEVEL = {"C18": "proof"}
NOTE = {}
try:
    from tools.notes import NOTE, LEVEL
except ImportError: pass
NA = {}
checks, na = [], []
for p in props:
    pid = p["id"]
    has_c = os.path.exists(f"{HERE}/contracts/{pid.lower()}.py"); has_r = os.path.exists(f"{HERE}/rt/{pid.lower()}.py")
    if not (has_c or has_r): na.append(dict(property=pid, reason=NA.get(pid, "not built yet"))); continue
    tech = "contract-based deductive verification (pyvc: VCs from /repo's source, z3/cvc5)" + (" plus bounded runs of the executable contracts" if has_r else "") if has_c else "executable contracts on the real code, bounded (no deductive obligations discharged)"
    checks.append(dict(property=pid, quick_cmd=f"python3-vt -B check.py {pid} quick", thorough_cmd=f"python3-vt -B check.py {pid} thorough",
                       evidence_file=f"evidence/{pid}.json", technique=tech, level=LEVEL.get(pid, "other"),
                       level_note=NOTE.get(pid, "functions under contract are proved for all inputs (partial correctness) by the verifier; the rest of the property is checked by bounded runs of executable contracts on the real code, never counted as proved")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="See DESIGN.md. No hooks in /repo: contracts are sidecar files, /repo's source is parsed on every run.")
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks;", [x["property"] for x in na])
