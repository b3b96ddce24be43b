#!/usr/bin/env python3
"""Writes CONTRACTS.md: every contract, its target in /repo and what it states."""
import importlib, json, os, sys
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo"); sys.dont_write_bytecode = True
out = ["# Functions under contract", "", "Generated by `tools/gen_contracts_md.py` from `contracts/`. Every row is discharged on every run from /repo's current source.", ""]
n = 0
for p in (json.loads(l) for l in open("/verif/properties.jsonl")):
    if not os.path.exists(f"/verif/contracts/{p['id'].lower()}.py"): continue
    m = importlib.import_module("contracts." + p["id"].lower()); n += len(m.CONTRACTS)
    out += [f"## {p['id']} {p['title']}", ""]
    for C in m.CONTRACTS:
        c = C(); d = " ".join((C.__doc__ or "").split())
        if not d:
            for B in C.__mro__[1:]:
                if B.__doc__ and B.__module__.startswith("contracts"): d = " ".join(B.__doc__.split()); break
        t = getattr(c, "label", None) or getattr(c, "target", "?")
        out.append(f"- **{C.__name__}** `{t}`: {d}" if d else f"- **{C.__name__}** `{t}`")
    out.append("")
open("/verif/CONTRACTS.md", "w").write("\n".join(out)); print(n, "contracts")
