"""mkseed.py SPEC.py  -- SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS.
Builds /verif/seeded/ID after confirming: applies, touches original lines, tests pass, demo 0/1. Then runs our check."""
import json, os, subprocess, sys, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
WT = "/tmp/seedwt"; OUT = f"/verif/seeded/{ns['ID']}"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if os.path.exists(WT): shutil.rmtree(WT)
sh(f"cp -a /repo {WT}"); sh(f"git -C {WT} reset -q --hard && git -C {WT} clean -qfd")
os.makedirs(OUT, exist_ok=True)
for f, a, b in ns["EDITS"]:
    p = f"{WT}/{f}"; s = open(p, encoding="utf-8").read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, "w", encoding="utf-8").write(s.replace(a, b))
d = sh(f"git -C {WT} diff").stdout
open(f"{OUT}/patch.diff", "w").write(d)
open(f"{OUT}/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
open(f"{OUT}/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds on this input\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" python3 -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(f"{OUT}/demo.sh", 0o755)
json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(f"{OUT}/meta.json", "w"), indent=1)
# original lines: removed lines must blame to the base commit
base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
for f in {e[0] for e in ns["EDITS"]}:
    ud = sh(f"git -C {WT} diff -U0 -- {f}").stdout
    import re
    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", ud, re.M):
        st, n = int(m[1]), int(m[2] or 1)
        if n == 0: print("  (pure insertion at", f, st, ")"); continue
        bl = sh(f"git -C /repo blame -l -s -L {st},{st+n-1} HEAD -- {f}").stdout
        for l in bl.splitlines():
            if not l.lstrip("^").startswith(base[:30]): print("  NOT ORIGINAL:", l[:120])
r0 = sh(f"bash {OUT}/demo.sh", cwd="/repo"); r1 = sh(f"bash {OUT}/demo.sh", cwd=WT)
print("demo clean", r0.returncode, r0.stderr[-300:], "| patched", r1.returncode, (r1.stdout + r1.stderr)[-300:])
# tests on the patched tree
ap = sh(f"git -C /repo apply {OUT}/patch.diff")
try:
    sh("bash /opt/vp/build.sh")
    t = sh("bash /opt/vp/test.sh /tmp/seed_t.json"); print([l for l in (t.stdout + t.stderr).splitlines() if "passed," in l])
    c = sh(f"python3-vt -B check.py {ns['PROP']} quick", cwd="/verif"); print("check rc", c.returncode, "\n".join(c.stdout.splitlines()[:4])[:900])
finally:
    print("undo", sh("git -C /repo checkout -- . && git -C /repo status --short").stdout)
