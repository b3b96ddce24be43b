"""C16: importer caching."""
import pickle
import subprocess
from importlib.machinery import SourceFileLoader
from rt.lib import *
_orig = (SourceFileLoader.source_to_code, SourceFileLoader.path_stats)
import mcpyrate.importer
from mcpyrate.importer import path_stats, path_xstats
import mcpyrate.activate
REPO = os.path.dirname(os.path.dirname(os.path.abspath(mcpyrate.__file__)))

@contextlib.contextmanager
def bytecode(on):
    old = sys.dont_write_bytecode; sys.dont_write_bytecode = not on
    try: yield
    finally: sys.dont_write_bytecode = old

T0 = 1_500_000_000
def setm(p, t): os.utime(p, (T0 + t, T0 + t))
def cache_of(p):
    c = importlib.util.cache_from_source(p)
    return os.path.join(os.path.dirname(c), os.path.basename(c)[:-4] + ".mcpyrate.pickle")

class World:
    """Random module files with dependencies; the oracle is the graph itself."""
    def __init__(self, rng, d, n):
        self.rng, self.d, self.n = rng, d, n
        tag = f"vq{rng.randrange(10**9)}"
        self.names = [f"{tag}m{i}" if i % 3 else f"{tag}pk.m{i}" for i in range(n)]
        self.tag = tag
        os.makedirs(os.path.join(d, tag + "pk", "sub")); write(d, tag + "pk/__init__.py", ""); write(d, tag + "pk/sub/__init__.py", "")
        if n > 4: self.names[4] = f"{tag}pk.sub.m4"
        self.t, self.deps = {}, {}
        for i in range(n): self.deps[i] = set()
        for i in range(n): self.rewrite(i)
    def path(self, i): return os.path.join(self.d, *self.names[i].split(".")) + ".py"
    def rewrite(self, i, t=None):
        rng = self.rng
        pk = self.names[i].rpartition(".")[0]
        cand = list(range(self.n))
        deps = rng.sample(cand, rng.choice([0, 1, 1, 2, 3]) if self.n > 3 else rng.randrange(self.n))
        lines = []
        for j in deps:
            nm = self.names[j]
            if pk and nm.startswith(pk + ".") and rng.random() < .6: nm = nm[len(pk):]
            elif pk.count(".") and nm.startswith(self.tag + "pk.") and rng.random() < .6: nm = ".." + nm[len(self.tag) + 3:]
            s = f"from {nm} import {rng.choice(['macros', 'macros', 'dialects'])}, a"
            k = rng.random()
            if k < .25: s = f"with phase[{rng.choice([1, 2])}]:\n    {s}"
            elif k < .35: s = "x = 1; " + s
            elif k < .45: s = f"from {nm} import (macros,\n     b)"
            lines.append(s)
        # imports that do not count
        for _ in range(rng.randrange(3)):
            j = rng.choice(cand); nm = self.names[j]
            lines.append(rng.choice([f"from {nm} import a", f"import {nm}", f"if 0:\n    from {nm} import macros, a", f"# from {nm} import macros, a", f"from {nm} import macros as m, a", f"def f():\n    from {nm} import macros, a", f"with phase[0]:\n    from {nm} import macros, a", f"s = '''\nfrom {nm} import macros, a'''", "from __self__ import macros, q", "from math import macros, sin", f"from {nm} import b, macros"]))
        rng.shuffle(lines)
        with open(self.path(i), "w") as f: f.write("\n".join(lines) + "\n")
        self.deps[i] = set(deps)
        self.touch(i, t)
    def touch(self, i, t=None):
        old = self.t.get(i)
        while t is None or t == old: t = self.rng.randrange(1, 1000)
        self.t[i] = t; setm(self.path(i), t)
    def want(self, i):
        seen, todo = set(), [i]
        while todo:
            j = todo.pop()
            if j in seen: continue
            seen.add(j); todo += self.deps[j]
        m = max(self.t[j] for j in seen)
        return T0 + m
    def dump(self): return {self.names[i]: (sorted(self.names[j] for j in self.deps[i]), self.t[i]) for i in range(self.n)}

MATH = [None]
def stat(R, W, i, hist, what="mtime of a file with dependencies"):
    try: s = path_stats(W.path(i))
    except Exception as e: R.fail("path_stats fails", f"{hist}\n{W.dump()}", "".join(traceback.format_exception(e))[-2000:]); return
    w = W.want(i)
    uses_math = any("from math import macros" in l and not l.startswith(("#", " ")) for l in reachable_lines(W, i))
    R.note(f"{hist} {i} {W.dump()}")
    if uses_math:
        spec = importlib.util.find_spec("math")
        if spec and spec.has_location: w = max(w, os.stat(spec.origin).st_mtime)
    if abs(s["mtime"] - w) > 1e-3: R.fail(what, f"{hist}\nfile {W.names[i]}\n{W.dump()}", f"expected {w - T0} got {s['mtime'] - T0}\n" + open(W.path(i)).read())
def reachable_lines(W, i):
    seen, todo = set(), [i]
    while todo:
        j = todo.pop()
        if j in seen: continue
        seen.add(j); todo += W.deps[j]
    for j in seen: yield from open(W.path(j)).read().split("\n")

@case("C16", "random dependency graphs of 2..7 modules (packages, relative, phase blocks, dialects, cycles) under histories of edits and touches with cache files kept, damaged or removed")
def histories(R):
    rng = R.rng()
    for k in range(250 if R.deep else 70):
        if R.left() < 5: break
        with scratch() as d, on_path(d), bytecode(rng.random() < .8):
            W = World(rng, d, rng.choice([2, 3, 5, 6, 7]))
            hist = []
            for _ in range(rng.randrange(2, 9)):
                op = rng.choice(["touch", "rewrite", "older", "damage", "nothing", "remove", "dir", "bytecode", "cachedir", "truncate", "wrong"])
                i = rng.randrange(W.n); c = cache_of(W.path(i))
                hist.append((op, i))
                if op == "touch": W.touch(i)
                elif op == "older": W.touch(i, rng.randrange(1, 50))
                elif op == "rewrite": W.rewrite(i)
                elif op in ("damage", "truncate", "wrong", "dir", "remove"):
                    if os.path.isdir(c): os.rmdir(c)
                    had = os.path.exists(c)
                    if op == "remove" and had: os.unlink(c)
                    if op == "damage" and os.path.isdir(os.path.dirname(c)):
                        with open(c, "wb") as f: f.write(rng.choice([b"", b"garbage", b"\x80\x04.", b"cos\nnothing\n.", pickle.dumps(None), pickle.dumps({"st_mtime_ns": 1})]))
                    if op == "truncate" and had:
                        b = open(c, "rb").read()
                        with open(c, "wb") as f: f.write(b[:rng.randrange(len(b) + 1) - 1] if b else b"")
                    if op == "wrong" and os.path.isdir(os.path.dirname(c)):
                        with open(c, "wb") as f: pickle.dump({"st_mtime_ns": os.stat(W.path(i)).st_mtime_ns, **rng.choice([{}, {"macroimports": None}, {"macroimports": [], "dialectimports": []}, {"macroimports": [], "has_relative_macroimports": False}])}, f)
                    if op == "dir" and os.path.isdir(os.path.dirname(c)):
                        if had: os.unlink(c)
                        os.mkdir(c)
                elif op == "bytecode": sys.dont_write_bytecode = not sys.dont_write_bytecode
                elif op == "cachedir":
                    shutil.rmtree(os.path.dirname(c), ignore_errors=True)
                for i in rng.sample(range(W.n), min(W.n, 3)): stat(R, W, i, hist)

@case("C16", "cache file: kept only under bytecode writing, stale lists not used, unwritable places")
def memory(R):
    with scratch() as d, on_path(d):
        a = write(d, "vqa.py", "from vqb import macros, x\n"); b = write(d, "vqb.py", "x = 1\n"); c = write(d, "vqc.py", "x = 1\n")
        setm(a, 10); setm(b, 20); setm(c, 30)
        os.makedirs(os.path.join(d, "__pycache__"))
        with bytecode(False):
            R.eq(path_stats(a)["mtime"] - T0, 20, "mtime", "bytecode writing off")
            R.check(not os.path.exists(cache_of(a)), "cache file written although bytecode writing is off", a)
        with bytecode(True):
            R.eq(round(path_stats(a)["mtime"] - T0, 3), 20, "mtime", "cold cache"); R.eq(round(path_stats(a)["mtime"] - T0, 3), 20, "mtime", "warm cache")
            write(d, "vqa.py", "from vqc import macros, x\n"); setm(a, 11)
            R.eq(round(path_stats(a)["mtime"] - T0, 3), 30, "mtime after the macro-import changed", "edit")
            write(d, "vqa.py", "x = 1\n"); setm(a, 5)
            R.eq(round(path_stats(a)["mtime"] - T0, 3), 5, "mtime after the macro-import went away and the file got older", "edit")
            for q in ("from vqb import macros, x\nfrom . import macros, y\n",):
                write(d, "vqa.py", q); setm(a, 6)
                R.raises((SyntaxError, ImportError), lambda: path_stats(a), "macro-import without a module name", q)
            write(d, "vqa.py", "from vq_gone import macros, x\n"); setm(a, 7)
            try: R.check(round(path_stats(a)["mtime"] - T0, 3) == 7, "missing macro module", "vq_gone")
            except ModuleNotFoundError: R.note("vq_gone")
            # surface syntax changed by a source dialect
            write(d, "vqa.py", "from vqc import dialects, D\nthis is not python ((\n"); setm(a, 8)
            R.eq(round(path_stats(a)["mtime"] - T0, 3), 30, "mtime of a module in a dialect's own syntax", "dialect")
            write(d, "vqa.py", "this is not python ((\n"); setm(a, 9)
            R.raises(SyntaxError, lambda: path_stats(a), "a file that is not Python", "syntax error")
        # encoded files
        with open(a, "wb") as f: f.write("# -*- coding: latin-1 -*-\ns = 'é'\nfrom vqc import macros, x\n".encode("latin-1"))
        setm(a, 12)
        R.eq(round(path_stats(a)["mtime"] - T0, 3), 30, "mtime of a latin-1 file", "latin-1")

@case("C16", "standard-library files, extension modules, other suffixes, hooks on and off")
def delegation(R):
    import json as j, email.message, os.path
    std = mcpyrate.importer._stdlib_path_stats
    ld = SourceFileLoader("x", "x")
    for p in (j.__file__, os.__file__, email.message.__file__, ast.__file__):
        R.eq(path_xstats(ld, p), std(ld, p), "stats of a standard-library file", p)
    with scratch() as d, on_path(d):
        for n in ("vqx.pyw", "vqx", "vqx.txt", "vqx.py.bak"):
            p = write(d, n, "from vqy import macros, a\n"); y = write(d, "vqy.py", ""); setm(p, 5); setm(y, 50)
            R.eq(path_xstats(ld, p), std(ld, p), "stats of a file that is not .py", n)
        p = write(d, "vqx.py", "from vqy import macros, a\n"); setm(p, 5)
        R.eq(round(path_xstats(ld, p)["mtime"] - T0, 3), 50, "stats of a .py file", "vqx.py")
    code = """
import sys
from importlib.machinery import SourceFileLoader as S
o = (S.source_to_code, S.path_stats, S.__dict__.get("source_to_code"), S.__dict__.get("path_stats"), S.get_data, S.exec_module if "exec_module" in S.__dict__ else None)
import mcpyrate.activate as A
on = (S.source_to_code, S.path_stats)
out = [on[0] is not o[0], on[1] is not o[1]]
for k in range(3):
    A.deactivate(); out += [S.source_to_code is o[0], S.path_stats is o[1]]
    if k == 1: A.deactivate(); out += [S.source_to_code is o[0], S.path_stats is o[1]]
    A.activate(); out += [S.source_to_code is on[0], S.path_stats is on[1]]
    if k == 2: A.activate()
A.deactivate(); out += [S.source_to_code is o[0], S.path_stats is o[1], S.get_data is o[4]]
print(out)
sys.exit(0 if all(out) else 1)
"""
    r = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True, env={**os.environ, "PYTHONPATH": REPO})
    R.check(r.returncode == 0, "activate/deactivate restore the hooks", code, r.stdout + r.stderr)

@case("C16", "imports in fresh processes after edits of macro modules, two levels deep, with pyc files")
def recompilation(R):
    run = """
import sys, mcpyrate.activate
sys.path.insert(0, sys.argv[1])
import mcpyrate.compiler as C
n = []
o = C.expand
def cnt(source, filename, *a, **k):
    n.append(filename.rpartition("/")[2]); return o(source, filename, *a, **k)
C.expand = cnt
import vquse
print(vquse.X, sorted(n))
"""
    env = {**os.environ, "PYTHONPATH": REPO}; env.pop("PYTHONDONTWRITEBYTECODE", None)
    with scratch() as d:
        def go():
            r = subprocess.run([sys.executable, "-c", run, d], capture_output=True, text=True, env=env)
            return r.stdout.strip() or r.stderr[-1500:]
        write(d, "vqdeep.py", "import ast\nV = 1\ndef deep(tree, **kw): return ast.Constant(10)\n")
        write(d, "vqmac.py", "from vqdeep import macros, deep\nimport ast\nK = deep[0]\ndef m(tree, **kw): return ast.Constant(K + 1)\n")
        write(d, "vquse.py", "from vqmac import macros, m\nX = m[0]\n")
        write(d, "vqother.py", "")
        for f, t in (("vqdeep.py", 1), ("vqmac.py", 2), ("vquse.py", 3)): setm(os.path.join(d, f), t)
        steps = [("first import", None, None, 0, "11 ['vqdeep.py', 'vqmac.py', 'vquse.py']"), ("second import", None, None, 0, "11 []"), ("edit of an unrelated file", "vqother.py", "x = 1\n", 50, "11 []"),
                 ("edit of the macro module", "vqmac.py", "from vqdeep import macros, deep\nimport ast\nK = deep[0]\ndef m(tree, **kw): return ast.Constant(K + 2)\n", 100, "12 ['vqmac.py', 'vquse.py']"), ("again", None, None, 0, "12 []"),
                 ("edit two levels down", "vqdeep.py", "import ast\ndef deep(tree, **kw): return ast.Constant(20)\n", 200, "22 ['vqdeep.py', 'vqmac.py', 'vquse.py']"), ("again", None, None, 0, "22 []"), ("edit of the user", "vquse.py", "from vqmac import macros, m\nX = m[0] + 100\n", 300, "122 ['vquse.py']"),
                 ("user stops using the macro", "vquse.py", "X = 5\n", 400, "5 ['vquse.py']"), ("edit of a macro module no longer used", "vqmac.py", "def m(tree, **kw): return None\n", 500, "5 []"), ("again", None, None, 0, "5 []")]
        for what, f, txt, t, want in steps:
            if f: write(d, f, txt); setm(os.path.join(d, f), t)
            R.eq(go(), want, f"recompilation: {what}", what)
