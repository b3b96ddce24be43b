"""Run-time side: bounded executable-contract checks (stand-ins and counterexample replay)."""
import ast
import contextlib
import copy
import hashlib
import importlib
import importlib.util
import io
import json
import os
import random
import re
import shutil
import sys
import tempfile
import textwrap
import time
import traceback
import types

PREFIX = "vq"          # names of the scratch modules the checks create

class Reporter:
    def __init__(self, pid, tier, seed, budget):
        self.pid, self.tier, self.seed, self.budget = pid, tier, seed, budget
        self.deep = tier != "quick"
        self.failures, self.evals, self.samples, self.keys = [], 0, [], set()
        self.case, self.bounds, self.skipped = None, {}, []
        self.t0 = time.time()
        self.caset0 = self.t0
    def rng(self, salt=""):
        return random.Random(f"{self.seed}:{self.pid}:{self.case}:{salt}")
    def left(self):
        return self.budget - (time.time() - self.t0)
    def bound(self, text): self.bounds[self.case] = text
    def note(self, inp, key=None):
        """One evaluation of the contract on `inp`."""
        self.evals += 1
        k = key if key is not None else (inp if isinstance(inp, str) else repr(inp))
        self.keys.add(hashlib.sha1(f"{self.case}|{k}".encode("utf-8", "replace")).hexdigest()[:16])
        if len(self.samples) < 12 and self.evals % 37 == 1: self.samples.append({"case": self.case, "input": str(inp)[:400]})
    def fail(self, what, inp, detail="", fid=None):
        """fid: stable identity of the failing input (known findings are matched on it)."""
        if sum(1 for f in self.failures if f["case"] == self.case) >= 5: return
        self.failures.append({"case": self.case, "what": what, "input": str(inp)[:6000], "detail": str(detail)[:6000], "fid": f"{self.case}:{fid or what}"})
    def check(self, ok, what, inp, detail="", fid=None):
        self.note(inp)
        if not ok: self.fail(what, inp, detail() if callable(detail) else detail, fid)
        return ok
    def eq(self, got, want, what, inp, fid=None):
        self.note(inp)
        if got != want:
            self.fail(what, inp, f"expected {want!r}\n     got {got!r}", fid)
            return False
        return True
    def raises(self, exc, f, what, inp, fid=None):
        self.note(inp)
        try:
            r = f()
        except exc as e:
            return e
        except RecursionError as e:
            self.fail(what + " (other exception)", inp, repr(e), fid)
        except Exception as e:
            self.fail(what + " (other exception)", inp, "".join(traceback.format_exception(e))[-3000:], fid)
        else:
            self.fail(what + " (no exception)", inp, f"returned {r!r}"[:2000], fid)
        return None

CASES = {}
def case(pid, bound=""):
    def deco(f):
        CASES.setdefault(pid, []).append((f.__name__, f, bound))
        return f
    return deco

# ------------------------------------------------------------------ AST equality
def norm_const(v):
    """Value identity of a constant: type, value, sign of zeros, nan."""
    if isinstance(v, (tuple, frozenset)): return (type(v).__name__, tuple(norm_const(x) for x in (sorted(v, key=repr) if isinstance(v, frozenset) else v)))
    return (type(v).__name__, repr(v))

def ast_diff(a, b, path="", locs=False, ctx=True, kind=False):
    """None if equal, else a description of the first difference."""
    if isinstance(a, ast.AST):
        if type(a) is not type(b): return f"{path}: {type(a).__name__} != {type(b).__name__} ({_short(a)} vs {_short(b)})"
        for f in a._fields:
            if f == "kind" and not kind and isinstance(a, ast.Constant): continue
            if f == "ctx" and not ctx: continue
            if f == "type_ignores": continue
            x, y = getattr(a, f, None), getattr(b, f, None)
            if f == "values" and isinstance(a, ast.JoinedStr):  # the parser leaves spurious empty constants around format specs
                x, y = ([v for v in z or [] if not (isinstance(v, ast.Constant) and v.value == "")] for z in (x, y))
            if f in OPT_LIST and (x is None or x == []) and (y is None or y == []): continue
            d = ast_diff(x, y, f"{path}.{f}", locs, ctx, kind)
            if d: return d
        if locs:
            for f in a._attributes:
                if getattr(a, f, None) != getattr(b, f, None): return f"{path}.{f}: {getattr(a, f, None)} != {getattr(b, f, None)}"
        return None
    if isinstance(a, list):
        if not isinstance(b, list): return f"{path}: list != {type(b).__name__}"
        if len(a) != len(b): return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = ast_diff(x, y, f"{path}[{i}]", locs, ctx, kind)
            if d: return d
        return None
    if norm_const(a) != norm_const(b): return f"{path}: {a!r} != {b!r}"
    return None
OPT_LIST = {"type_params"}
def _short(x):
    try: return ast.dump(x)[:120] if isinstance(x, ast.AST) else repr(x)[:120]
    except Exception: return "?"
def ast_eq(a, b, **kw): return ast_diff(a, b, **kw) is None
def dump(x):
    if isinstance(x, list): return "[" + ", ".join(dump(y) for y in x) + "]"
    return ast.dump(x) if isinstance(x, ast.AST) else repr(x)

# ------------------------------------------------------------------ scratch modules
@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vq_", dir=os.environ.get("VQ_TMP") or None)
    try: yield d
    finally: shutil.rmtree(d, ignore_errors=True)

def write(d, name, src):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f: f.write(textwrap.dedent(src).lstrip("\n"))
    return p

@contextlib.contextmanager
def on_path(d):
    """Put d on sys.path; forget modules from it afterwards."""
    before = set(sys.modules)
    sys.path.insert(0, d)
    importlib.invalidate_caches()
    try: yield
    finally:
        with contextlib.suppress(ValueError): sys.path.remove(d)
        for m in set(sys.modules) - before:
            f = getattr(sys.modules[m], "__file__", None) or ""
            if f.startswith(d) or m.startswith(PREFIX): del sys.modules[m]
        importlib.invalidate_caches()
        for k in [k for k in sys.path_importer_cache if k.startswith(d)]: del sys.path_importer_cache[k]

def strip_ansi(s): return re.sub(r"\x1b\[[0-9;]*[A-Za-z]", "", s)

@contextlib.contextmanager
def capture():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield types.SimpleNamespace(out=o, err=e)

def quiet(f, *a, **k):
    with capture(): return f(*a, **k)

def mk_expander(bindings, filename="<vq>"):
    from mcpyrate.expander import MacroExpander
    return MacroExpander(bindings, filename)

# ------------------------------------------------------------------ source corpora
def stdlib_files(R, n):
    import sysconfig
    root = sysconfig.get_paths()["stdlib"]
    out = []
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(x for x in dn if x not in ("site-packages", "dist-packages", "__pycache__", "lib2to3", "bad_coding"))
        out += [os.path.join(dp, f) for f in sorted(fn) if f.endswith(".py")]
    R.rng("stdlib").shuffle(out)
    return out[:n]
def read_source(p):
    with open(p, "rb") as f: b = f.read()
    try: return b.decode("utf-8")
    except UnicodeDecodeError: return None
