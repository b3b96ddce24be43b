#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between the markers)."""
import json, os, re, subprocess
d = open("/verif/DESIGN.md").read()
k = json.load(open("/verif/known_findings.json"))
fx = "\n".join("* " + x for x in k["fixed"])
rows = []
for n in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{n}/meta.json")); rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', '?')} |")
sd = "| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows)
for tag, txt in (("FIXES", fx), ("SEEDS", sd)):
    blk = f"<!-- {tag} -->\n{txt}\n<!-- /{tag} -->"
    d = d.replace(f"@@{tag}@@", blk) if f"@@{tag}@@" in d else re.sub(f"<!-- {tag} -->.*?<!-- /{tag} -->", lambda m: blk, d, flags=re.S)
open("/verif/DESIGN.md", "w").write(d)
