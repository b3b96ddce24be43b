"""caught.py [ID...]: applies each planted change to a scratch copy of /repo, runs the check of its property there (from a copy of /verif),
and records in meta.json which contracts fail and which run-time case finds an input."""
import json, os, re, shutil, subprocess, sys
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
R, W = "/tmp/caught_repo", "/tmp/caught_verif"
for p in (R, W): shutil.rmtree(p, ignore_errors=True)
sh(f"cp -a /repo {R} && cp -a /verif {W}")
for i in sys.argv[1:] or sorted(os.listdir("/verif/seeded")):
    d = f"/verif/seeded/{i}"; m = json.load(open(d + "/meta.json"))
    sh("git checkout -q -- .", cwd=R)
    a = sh(f"git apply {d}/patch.diff", cwd=R); assert a.returncode == 0, (i, a.stderr)
    c = sh(f"python3-vt -B check.py {m['property']} quick", cwd=W, env={**os.environ, "VQ_REPO": R, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    try: ev = json.load(open(f"{W}/evidence/{m['property']}.json"))
    except Exception: ev = {}
    cov = ev.get("coverage", {})
    con = sorted(set(re.findall(r"obligation (\S+)", c.stdout)))
    cases = set(re.findall(r"^def (\w+)\(R\)", open(f"/verif/rt/{m['property'].lower()}.py").read(), re.M))
    rt = sorted(cases & set(re.findall(r"^  (\w+): ", c.stdout, re.M)))
    by = []
    if con: by.append("contract " + ", ".join(sorted({o.split("/")[0] for o in con})))
    if rt: by.append("bounded case " + ", ".join(rt))
    m["caught_by"] = "; ".join(by) if c.returncode == 1 else "missed"
    json.dump(m, open(d + "/meta.json", "w"), indent=1)
    print(i, "rc", c.returncode, m["caught_by"], flush=True)
    open(f"/tmp/caught_{i}.out", "w").write(c.stdout + c.stderr)
shutil.rmtree(R); shutil.rmtree(W)
