"""gen_loops.py [PID...]: contracts/loops.json, the number of symbolic loops each contract meets in the current source
(run it on a tree on which the contracts hold; see verify.LOOPS)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE); os.chdir(HERE)
import check
P = HERE + "/contracts/loops.json"; out = json.load(open(P)) if os.path.exists(P) else {}
for pid in sys.argv[1:] or [f"C{i:02d}" for i in range(1, 23)]:
    n, _ = check.contract_count(pid); bad = []
    for r in check.run_all(pid, n, 200):
        if r["status"] == "ok": out[r["name"]] = r["loops"]
        else: bad.append((r["name"], r["status"], r["reason"][:80]))
    print(pid, n, str(bad)[:600], flush=True)
    json.dump(dict(sorted(out.items())), open(P, "w"), indent=0)
