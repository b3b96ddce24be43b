#!/usr/bin/env python3
"""check.py PID  -- decide one property on /repo's current tree."""
import concurrent.futures as cf
import glob
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VQ_REPO", "/repo")
PY = os.environ.get("VQ_PY", "python3-vt")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE); sys.path.insert(0, REPO)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if os.environ.get("PYTHONHASHSEED") != "0":      # the order in which terms are built must not vary from run to run
    os.environ["PYTHONHASHSEED"] = "0"
    if __name__ == "__main__": os.execv(sys.executable, [sys.executable, *sys.orig_argv[1:]])

def run_one(args, attempt=0):
    """Verify one contract in a worker process."""
    pid, idx, limit = args
    def alarm(*a): raise TimeoutError("wall limit")
    signal.signal(signal.SIGALRM, alarm); signal.alarm(limit)
    try:
        sys.setrecursionlimit(20000)
        from pyvc.verify import run_contract, Registry
        from pyvc.engine import Source
        if attempt:
            import z3; z3.set_param("smt.random_seed", attempt)
        m = importlib.import_module("contracts." + pid.lower())
        C = m.CONTRACTS[idx]()
        r = run_contract(C, Source(REPO), Registry)
        return dict(name=C.name, target=C.key, status=r.status, reason=r.reason, total=r.total, ok=r.ok, failed=r.failed, undecided=r.undecided,
                    solver_s=r.solver_s, backends=r.backends, paths=r.paths, assumptions=sorted(r.assumptions), inlined=sorted(r.inlined),
                    used=sorted(r.used), wall=getattr(r, "wall", 0.0), loops=getattr(r, "loops", 0))
    except BaseException as e:
        return outside(f"{pid}#{idx}", f"{type(e).__name__}: {e}")
    finally:
        signal.alarm(0)

def run_all(pid, n, limit, jobs=7):
    """Each contract in its own process (a crash of the solver is retried with another solver seed, and after
    that leaves the contract undecided)."""
    import multiprocessing.connection as mpc
    ctx = mp.get_context("fork")
    def child(conn, i, attempt):
        conn.send(run_one((pid, i, limit), attempt)); conn.close(); os._exit(0)
    todo, live, out = [(i, 0) for i in range(n)], {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            i, att = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, i, att)); p.start(); b.close()
            live[a] = (p, i, att, time.time())
        for a in mpc.wait(list(live), timeout=2):
            p, i, att, t = live.pop(a)
            try: out[i] = a.recv()
            except EOFError:
                p.join()
                if att < 4: todo.insert(0, (i, att + 1))
                else: out[i] = outside(f"{pid}#{i}", f"the solver process died ({p.exitcode})")
            a.close(); p.join()
        for a in [a for a, (p, i, att, t) in live.items() if time.time() - t > limit + 60]:
            p, i, att, t = live.pop(a)
            p.kill(); p.join(); a.close(); out[i] = outside(f"{pid}#{i}", "wall limit")
    return [out[i] for i in range(n)]
def outside(name, why):
    return dict(name=name, target="?", status="outside", reason=why, total=0, ok=0, failed=[], undecided=[], solver_s=0.0, backends={}, paths=0, assumptions=[], inlined=[], used=[], wall=0.0)

def contract_count(pid):
    if not os.path.exists(f"{HERE}/contracts/{pid.lower()}.py"): return 0, None
    try:
        m = importlib.import_module("contracts." + pid.lower())
        return len(m.CONTRACTS), None
    except BaseException as e:
        return 0, "".join(traceback.format_exception(e))[-2000:]

def run_rt(pid, tier, seed, budget, limit):
    if not os.path.exists(f"{HERE}/rt/{pid.lower()}.py"): return None
    out = f"{HERE}/evidence/.rt_{pid}_{os.getpid()}.json"
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), VQ_BUDGET=str(budget), PYTHONPATH=HERE)
    p = subprocess.Popen([PY, "-B", "-m", "rt.run", pid, out], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        log, _ = p.communicate(timeout=limit)
        hung = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); log, _ = p.communicate(); hung = True
    try:
        with open(out) as f: r = json.load(f)
    except Exception:
        r = dict(failures=[], evals=0, distinct=0, samples=[], bounds={}, skipped=[], cases=[], current="start", wall=0)
    for f in (out, out + ".tmp"):
        if os.path.exists(f): os.unlink(f)
    r["log"] = log[-3000:]
    if hung or r.get("current"):
        why = "did not finish in the time limit" if hung else f"the process died (status {p.returncode})"
        r["failures"].append(dict(case=r.get("current"), what=why, input=str(r.get("current")), detail=r["log"], fid=f"{r.get('current')}:{'hang' if hung else 'died'}"))
    return r

def load_known(pid):
    with open(f"{HERE}/known_findings.json") as f: k = json.load(f)
    return [x for x in k.get("known", []) if x["property"] == pid]

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(f"{HERE}/evidence/replays", exist_ok=True)
    for f in glob.glob(f"{HERE}/evidence/replays/{pid}-*"): os.unlink(f)
    quick = tier == "quick"
    n, loaderr = contract_count(pid)
    limit = 200 if quick else 1500
    rt_limit = 400 if quick else 2400
    results = []
    with cf.ThreadPoolExecutor(1) as tp:
        fut = tp.submit(run_rt, pid, tier, seed, 60 if quick else 600, rt_limit)
        if n:
            results = run_all(pid, n, limit)
        rt = fut.result()
    failed = [x for r in results for x in r["failed"]]
    undecided = [r for r in results if r["status"] in ("outside", "missing")]
    known = load_known(pid)
    viol, knownhit = [], {}
    for f in (rt["failures"] if rt else []):
        k = next((k for k in known if re.fullmatch(k["match"], f["fid"])), None)
        if k: knownhit[k["id"]] = k
        else: viol.append(f)
    extended = False
    if failed and not viol and rt:
        # a failed obligation: look longer for an input that shows it
        extended = True
        r2 = run_rt(pid, "thorough", seed + 1000, 150, 240)
        viol = [f for f in r2["failures"] if not any(re.fullmatch(k["match"], f["fid"]) for k in known) and not f["fid"].endswith((":hang", ":died"))]
    lines = []
    for k in known:
        lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    code = 0
    def replay(i, data):
        p = f"{HERE}/evidence/replays/{pid}-{i}.json"
        with open(p, "w") as f: json.dump(data, f, indent=1)
        return p
    if viol:
        code = 1
        for i, f in enumerate(viol[:3]):
            p = replay(i, dict(property=pid, kind="failing-input", **f, failed_obligations=failed[:10],
                               reproduce=f"cd {HERE} && VERIF_SEED={seed} {PY} -B -m rt.run {pid} /dev/stdout {f['case']}"))
            lines.append(f"VIOLATION property={pid} replay={p}")
            lines.append(f"  {f['case']}: {f['what']}: {f['input'][:300]}")
            lines.append("  " + f["detail"][-600:].replace("\n", "\n  "))
        for nm, d in failed[:5]: lines.append(f"  failed obligation {nm}")
    elif failed:
        code = 1
        p = replay(0, dict(property=pid, kind="failed-obligation", obligations=[dict(name=a, verifier_output=b) for a, b in failed]))
        for nm, d in failed[:6]: lines.append(f"  failed obligation {nm}: {d[:300]}")
        lines.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    # ---- evidence
    total, ok = sum(r["total"] for r in results), sum(r["ok"] for r in results)
    proved = [r for r in results if r["status"] == "ok"]
    be = {}
    for r in results:
        for k, v in r["backends"].items(): be[k] = be.get(k, 0) + v
    meta = {}
    with open(f"{HERE}/MANIFEST.json") as f:
        for c in json.load(f)["checks"]:
            if c["property"] == pid: meta = c
    level = meta.get("level", "proof")
    if level == "proof" and (undecided or not proved or loaderr): level = "other"
    assumptions = sorted({a for r in results for a in r["assumptions"]} | set(BASE_ASSUMPTIONS))
    cov = dict(
        obligations=total, discharged=ok,
        checker_cmd=f"{PY} -B check.py {pid}  (pyvc: VC generation from /repo's source, z3 {z3ver()} back end, cvc5 on unknown)",
        trusted_base=["pyvc (the VC generator in /verif/pyvc)", "z3", "cvc5 (second back end)", "CPython ast.parse (reads the verified source)"],
        functions_under_contract=[dict(function=r["target"], contract=r["name"], obligations=r["total"], discharged=r["ok"], paths=r["paths"], status={"ok": "proved", "failed": "FAILED"}.get(r["status"], "bounded stand-in"),
                                       why=r["reason"][:300], solver_s=round(r["solver_s"], 3), inlined=r["inlined"], callee_contracts=r["used"]) for r in results],
        proved_functions=len(proved), outside_verifier=[f"{r['name']}: {r['reason'][:200]}" for r in undecided],
        discharged_by=be, solver_s=round(sum(r["solver_s"] for r in results), 3), failed_obligations=[a for a, _ in failed],
        contract_load_error=loaderr or "",
        explanation="Obligations are generated from the current source and discharged by the verifier; functions it cannot reach are run under their executable contract (bounded, see `bounded`), never counted as proved.")
    if rt is not None:
        cov["bounded"] = dict(label="bounded: executable contracts on the real code; not counted as proved", cases=rt["cases"], bounds=rt["bounds"], skipped=rt["skipped"], extended_search=extended)
        cov["evaluations"] = rt["evals"]; cov["distinct_nontrivial"] = rt["distinct"]
        cov["rule"] = "each evaluation runs the real function on one generated or enumerated input and checks its executable contract; distinct inputs are counted by hash"
        cov["samples"] = rt["samples"]
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=assumptions, violations=len(viol) or (1 if failed else 0))
    with open(f"{HERE}/evidence/{pid}.json", "w") as f: json.dump(ev, f, indent=1)
    for l in lines: print(l)
    print(f"{pid}: contracts {len(proved)}/{len(results)} proved, obligations {ok}/{total}, bounded evaluations {rt['evals'] if rt else 0}, {time.time()-t0:.1f}s")
    for r in undecided: print(f"  outside the verifier (bounded stand-in): {r['name']}: {r['reason'][:160]}")
    if loaderr: print("  contracts could not be loaded: " + loaderr[-300:])
    sys.exit(code)

def z3ver():
    try:
        import z3; return z3.get_version_string()
    except Exception: return "?"

BASE_ASSUMPTIONS = [
    "A-ENGINE: pyvc's symbolic semantics of the supported Python subset agree with CPython (cross-checked by running the same contracts on real inputs)",
    "A-INT: Python ints are mathematical integers; str is a sequence of code points",
    "A-SEQ: single-threaded execution; no signal handler or __del__ interferes",
    "A-CLS: attribute access on package and AST objects is not intercepted by user subclasses",
    "A-REC: proofs are of partial correctness: termination is checked only by the bounded runs",
]

if __name__ == "__main__":
    main()
