"""tools/mutate.py MODULE [Contract names...] -- mutate the target functions in a scratch copy, run their contracts, list survivors.
Development aid only; no check uses it."""
import ast, copy, importlib, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mutants(fn):
    """[(description, mutated function node)]"""
    out = []
    nodes = [n for n in ast.walk(fn)]
    def add(desc, f):
        c = copy.deepcopy(fn); m = [x for x in ast.walk(c)]
        f(m); ast.fix_missing_locations(c); out.append((desc, c))
    for i, n in enumerate(nodes):
        ln = getattr(n, "lineno", "?")
        if isinstance(n, ast.Compare):
            sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}
            add(f"{ln}: flip {ast.unparse(n)}", lambda m, i=i, n=n: setattr(m[i], "ops", [sw[type(n.ops[0])]()] + m[i].ops[1:]))
        if isinstance(n, ast.BoolOp):
            add(f"{ln}: and/or {ast.unparse(n)}", lambda m, i=i, n=n: setattr(m[i], "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                if len(n.values) > 1: add(f"{ln}: drop operand {k} of {ast.unparse(n)}", lambda m, i=i, k=k: m[i].values.pop(k))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(f"{ln}: negate {ast.unparse(n.test)}", lambda m, i=i: setattr(m[i], "test", ast.UnaryOp(op=ast.Not(), operand=m[i].test)))
        if isinstance(n, ast.Constant) and not (isinstance(n.value, str) and len(n.value) > 60):
            v = n.value
            nv = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v + "x" if isinstance(v, str) else 1 if v is None else v
            if nv is not v: add(f"{ln}: const {v!r}->{nv!r}", lambda m, i=i, nv=nv: setattr(m[i], "value", nv))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for k, st in enumerate(b):
                    if isinstance(st, ast.stmt) and not isinstance(st, (ast.Pass, ast.FunctionDef, ast.ClassDef)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        add(f"{st.lineno}: delete `{ast.unparse(st).splitlines()[0][:60]}`", lambda m, i=i, fld=fld, k=k: getattr(m[i], fld).__setitem__(k, ast.Pass()))
                    if isinstance(st, ast.stmt) and k + 1 < len(b):
                        add(f"{st.lineno}: swap with next `{ast.unparse(st).splitlines()[0][:40]}`", lambda m, i=i, fld=fld, k=k: getattr(m[i], fld).__setitem__(slice(k, k + 2), getattr(m[i], fld)[k:k + 2][::-1]))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2: add(f"{ln}: swap args {ast.unparse(n)[:50]}", lambda m, i=i: m[i].args.__setitem__(slice(0, 2), m[i].args[:2][::-1]))
            for k in range(len(n.keywords)): add(f"{ln}: drop keyword {n.keywords[k].arg} of {ast.unparse(n)[:50]}", lambda m, i=i, k=k: m[i].keywords.pop(k))
            if isinstance(n.func, ast.Name) and n.func.id in ("deepcopy", "copy", "list", "reversed", "sorted"): add(f"{ln}: drop call {ast.unparse(n)[:50]}", lambda m, i=i: m[i].__dict__.update({"func": ast.Name("(lambda x: x)", ast.Load())}))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)): add(f"{ln}: +/- {ast.unparse(n)[:50]}", lambda m, i=i, n=n: setattr(m[i], "op", ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()))
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant): add(f"{ln}: return None", lambda m, i=i: setattr(m[i], "value", ast.Constant(None)))
        if isinstance(n, ast.Raise): pass
    return out

def run(repo, mod, names):
    env = dict(os.environ, REPO=repo, PYTHONPATH=f"{HERE}:{repo}")
    code = f"""
import sys; sys.path[:0]=[{HERE!r},{repo!r}]; sys.dont_write_bytecode=True; sys.setrecursionlimit(20000)
import importlib, mcpyrate
assert mcpyrate.__file__.startswith({repo!r}), mcpyrate.__file__
from pyvc.verify import *; from pyvc.engine import Source
m = importlib.import_module("contracts.{mod}")
out=[]
for n in {names!r}:
    r = run_contract({{C.__name__: C for C in m.CONTRACTS}}[n](), Source({repo!r}), Registry); out.append((n, r.status, (r.failed[:1] or [('', '')])[0][0], r.reason[:100]))
    if r.status == 'failed': break
print("RES", out)
"""
    for _ in range(3):
        try: p = subprocess.run(["python3-vt", "-B", "-c", code], env=env, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired: return "timeout"
        l = [x for x in p.stdout.splitlines() if x.startswith("RES ")]
        if l: return eval(l[0][4:])
    return "crash " + p.stderr[-300:]

def main():
    sys.path[:0] = [HERE, "/repo"]
    mod, only = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    cap = next((int(a[2:]) for a in sys.argv if a.startswith("-n")), 30)
    m = importlib.import_module("contracts." + mod)
    by = {}
    for C in m.CONTRACTS:
        if not only or C.__name__ in only: by.setdefault(C.target, []).append(C.__name__)
    jobs = []
    for tgt, names in by.items():
        pm, q = tgt.split(":")
        path = "mcpyrate/" + pm.split(".", 1)[1].replace(".", "/") + ".py" if "." in pm else "mcpyrate/__init__.py"
        src = open("/repo/" + path).read(); tree = ast.parse(src)
        cur = tree
        for part in q.split("."):
            if part == "<locals>": continue
            cur = next((x for x in ast.walk(cur) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part and x is not cur), None)
        if cur is None: print("no source for", tgt); continue
        ms = mutants(cur); random.Random(1).shuffle(ms)
        for d, f in ms[:cap]:
            if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and len(f.body) > 1: f.body = f.body[1:]
            txt = ast.unparse(f); ind = " " * cur.col_offset
            lines = src.split("\n"); a = min([cur.lineno] + [x.lineno for x in cur.decorator_list]) - 1
            new = lines[:a] + [ind + l for l in txt.split("\n")] + lines[cur.end_lineno:]
            jobs.append((tgt, d, path, "\n".join(new), names))
    def one(j):
        tgt, d, path, text, names = j
        try: compile(text, path, "exec")
        except SyntaxError: return None
        w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
        try:
            shutil.copytree("/repo/mcpyrate", w + "/mcpyrate", ignore=shutil.ignore_patterns("__pycache__", "test*"))
            with open(f"{w}/{path}", "w") as f: f.write(text)
            return run(w, mod, names)
        finally: shutil.rmtree(w)
    st = {"killed": 0, "outside": 0, "survived": 0}
    with ThreadPoolExecutor(7) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            if r is None: continue
            if isinstance(r, list) and any(x[1] == "failed" for x in r): st["killed"] += 1
            elif isinstance(r, list) and all(x[1] == "ok" for x in r): st["survived"] += 1; print("SURVIVED", j[0].split(":")[1], j[1], flush=True)
            else: st["outside"] += 1; print("outside ", j[0].split(":")[1], j[1], str([x for x in r if x[1] != "ok"] if isinstance(r, list) else r)[:140], flush=True)
    print(mod, st)
if __name__ == "__main__": main()
