"""C15: run-time compiler, run, module helpers."""
import warnings
from rt.lib import *
from mcpyrate import compiler as C
from mcpyrate.compiler import expand, run, create_module, temporary_module
from rt import corpus, gen

SNIPS = [("x = 1", {"x": 1}), ("x = 1\ny = x + 1", {"x": 1, "y": 2}), ("'doc'\nx = 1", {"x": 1}), ("'''long\n   doc'''", {}), ("", {}), ("pass", {}), ("import os\np = os.sep", {"p": os.sep}), ("def f(): return 3\nz = f()", {"z": 3}), ("from __future__ import annotations\ndef f(a: undefined): pass\nx = 4", {"x": 4}),
         ("'d'\nfrom __future__ import annotations\nx: undefined = 5", {"x": 5}), ("''\nx = 7", {"x": 7}), ("f'{1}'\nx = 2", {"x": 2}), ("'a' 'b'\nx = 3", {"x": 3}), ("b'no doc'\nx = 3", {"x": 3}), ("1\nx = 1", {"x": 1}), ("x = [i for i in range(3)]", {"x": [0, 1, 2]}),
         ("n = __name__\nf = __file__", {}), ("from vqcm import macros, five\nx = five[0]", {"x": 5}), ("'doc'\nfrom vqcm import macros, five\nx = five[0] + five[1]", {"x": 10}), ("from vqcm import macros, kill\nx = 1\nwith kill:\n    x = 2", {"x": 1}),
         ("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    import ast\n    def m(tree, **kw): return ast.Constant(8)\nfrom __self__ import macros, m\nx = m[1]\nph = __phase__", {"x": 8, "ph": 0}), ("from vqcd import dialects, Dia\nx = 1", {"x": 1, "d": "dialect"}), ("from vqcd import dialects, Src\nx = REPLACED", {"x": 77})]
PH = "from mcpyrate.multiphase"

def doc_of(src):
    t = ast.parse(src.replace("REPLACED", "77"))
    return ast.get_docstring(t, clean=False)
def forms(src):
    yield "str", src
    yield "bytes", src.encode()
    yield "bytes+coding", ("# -*- coding: latin-1 -*-\n" + src).encode("latin-1")
    if "REPLACED" not in src:
        yield "Module", ast.parse(src)
        yield "list", ast.parse(src).body

@contextlib.contextmanager
def helpers():
    with scratch() as d:
        write(d, "vqcm.py", "import ast\ndef five(tree, **kw): return ast.Constant(5)\ndef kill(tree, **kw): return None\ndef boom(tree, **kw): raise ValueError('boom')\n")
        write(d, "vqcd.py", "import ast\nfrom mcpyrate.dialects import Dialect\nclass Dia(Dialect):\n    def transform_ast(self, tree):\n        tree.body += ast.parse(\"d = 'dialect'\").body\n        return tree\nclass Src(Dialect):\n    def transform_source(self, text): return text.replace('REPLACED', '77')\n")
        write(d, "vqpk/__init__.py", ""); write(d, "vqpk/sub/__init__.py", "")
        with on_path(d):
            import vqpk.sub
            yield d

@case("C15", "snippets (plain, macros, phases, dialects, docstrings) x source forms x module kinds (new, named, object, string)")
def running(R):
    with helpers() as d:
        n = 0
        for src, want in SNIPS:
            for form, s0 in forms(src):
                for how in ("new", "created", "named", "dotted"):
                    n += 1
                    s = copy.deepcopy(s0)           # expansion works in place
                    inp = f"{form}, {how}: {src}"
                    R.note(inp)
                    before = set(sys.modules)
                    name = fname = None
                    try:
                        if how == "new": m = run(s)
                        else:
                            name = f"vqrun{n}" if how != "dotted" else f"vqpk.sub.vqrun{n}"
                            fname = rngname(n, d)
                            mod = create_module(name, fname)
                            m = run(s, mod if how == "created" else name)
                            if m is not mod: R.fail("run does not return the module it ran in", inp)
                            if mod.__name__ != name or mod.__file__ != (fname or mod.__file__): R.fail("name or file of the module", inp, (mod.__name__, mod.__file__))
                    except Exception as e: R.fail("run fails", inp, "".join(traceback.format_exception(e))[-2500:]); continue
                    got = {k: m.__dict__.get(k) for k in want}
                    if got != want: R.fail("values after run", inp, f"{got} != {want}")
                    if m.__doc__ != doc_of(src): R.fail("module docstring after run", inp, f"{m.__doc__!r} != {doc_of(src)!r}")
                    if sys.modules.get(m.__name__) is not m: R.fail("the module is not in the module table", inp)
                    if "__name__" in src and (m.n != m.__name__ or m.f != m.__file__): R.fail("name/file seen by the running code", inp)
                    if how == "new" and (m.__name__ in before or not m.__name__.isidentifier()): R.fail("automatically named module", inp, m.__name__)
                    sys.modules.pop(m.__name__, None)
def rngname(n, d): return [None, "a label", f"/nonexistent/vqfile{n}.py"][n % 3]

@case("C15", "random sequences of snippets run in one module, against exec in one dictionary")
def sequences(R):
    rng = R.rng()
    st = ["x = 1", "y = 2", "x = x + 1", "y = x * 2", "def g(): return x", "z = g()", "del x", "import os", "x = [1]", "x.append(2)", "class K: a = x", "y = K.a", "'doc {}'", "global q; q = 1", "for i in range(3): x = i", "x = 1 / 0", "raise KeyError('k')", "z = __name__", "assert x"]
    with helpers():
        for i in range(400 if R.deep else 120):
            if R.left() < 5: break
            name = f"vqseq{i}"
            m = create_module(name)
            ref = {"__name__": name, "__file__": m.__file__}
            trace = []
            for j in range(rng.randrange(1, 8)):
                src = "\n".join(rng.choice(st).format(j) for _ in range(rng.randrange(1, 4)))
                form = rng.choice(["str", "bytes", "Module", "list", "code"])
                trace.append((form, src))
                s = {"str": lambda: src, "bytes": lambda: src.encode(), "Module": lambda: ast.parse(src), "list": lambda: ast.parse(src).body, "code": lambda: C.compile(src, name, self_module=name)}[form]()
                e1 = e2 = None
                try: run(s, rng.choice([m, name]))
                except Exception as e: e1 = e
                try: exec(compile(ast.parse(src), "f", "exec", dont_inherit=True), ref)
                except Exception as e: e2 = e
                R.note(repr(trace))
                if type(e1) is not type(e2): R.fail("exception differs from running the code directly", repr(trace), f"{e1!r} vs {e2!r}"); break
                ref.setdefault("__doc__", None)
                a = {k: v for k, v in vars(m).items() if not k.startswith("__") and not callable(v)}; b = {k: v for k, v in ref.items() if not k.startswith("__") and not callable(v)}
                if a != b: R.fail("definitions after a sequence of runs", repr(trace), f"{a}\n{b}"); break
                if form != "code" and m.__doc__ != doc_of(src): R.fail("docstring after a later run", repr(trace), repr(m.__doc__)); break
            sys.modules.pop(name, None)

@case("C15", "ordinary modules: corpus and random modules; expand/compile leave code without macros as it is")
def no_macros(R):
    rng = R.rng()
    for s, t in [(s, t) for s, t in corpus.trees()] + [(s, m) for m, s in gen.modules(rng, 400 if R.deep else 80)]:
        if R.left() < 5: break
        for form in ("str", "Module", "list"):
            src = {"str": s, "Module": copy.deepcopy(t), "list": copy.deepcopy(t).body}[form]
            if form == "str":
                try: ref = ast.parse(s)
                except SyntaxError: continue
            else: ref = t
            R.note(form + s)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore"); out = expand(src, "<vq>")
            except Exception as e: R.fail("expand fails on ordinary code", s, repr(e)); continue
            df = ast_diff(ref, out)
            if df: R.fail("expand changes ordinary code", s, df)

@case("C15", "malformed source, module and name arguments")
def malformed(R):
    with helpers():
        for bad in (None, 1, object(), ast.parse("x", mode="eval"), ast.Pass(), ("x = 1",), {}, 2.5):
            R.raises(TypeError, lambda: expand(bad, "f.py"), "expand accepts a malformed source", repr(bad))
        for bad in ([1], ["x"], [ast.Name("x")], [ast.Pass(), None], ast.Module(body=[ast.Name("x")], type_ignores=[]), [[ast.Pass()]], [ast.Constant(1)]):
            R.raises(TypeError, lambda: expand(bad, "f.py"), "expand accepts a body with non-statements", repr(bad))
        for bad in (1, b"x", ["m"], {}, object(), 0, ""):
            exc = TypeError if not isinstance(bad, str) else ModuleNotFoundError
            R.raises(exc, lambda: run("x = 1", bad), "run accepts a malformed module", repr(bad))
        R.raises(ModuleNotFoundError, lambda: run("x = 1", "vq_not_there"), "run accepts the name of a module that does not exist", "vq_not_there")
        R.raises(ValueError, lambda: expand("from mcpyrate.multiphase import macros, phase\nwith phase[1]: pass", "f.py"), "multi-phase code without a module name", "phase")
        R.raises(ImportError, lambda: expand("x = = 1", "f.py"), "source that does not parse", "x = = 1")
        for bad, exc in ((1, TypeError), (b"x", TypeError), ("a b", TypeError), ("a..b", TypeError), (".a", TypeError), ("a.", TypeError), ("1a", TypeError), ("a-b", TypeError), (["a"], TypeError), (".", TypeError), ("vq_nopar.x", ModuleNotFoundError), ("vqpk.nosub.x", ModuleNotFoundError)):
            before = dict(sys.modules)
            R.raises(exc, lambda: create_module(bad), "create_module accepts a malformed name", repr(bad))
            R.check(set(sys.modules) == set(before), "a failing create_module registers something", repr(bad))
        R.raises(TypeError, lambda: create_module("vqx", 1), "create_module accepts a malformed file name", "1")
        R.check("vqx" not in sys.modules, "a failing create_module registers something", "vqx")

class Model:
    """Registration state: sys.modules entries and parent attributes of the names used."""
    NAMES = ["vqt", "vqt2", "vqpk.a", "vqpk.b", "vqpk.sub.a", "vqt.x"]
    def __init__(self): self.t, self.attr = {}, {}

@case("C15", "random histories of create_module and nested temporary_module contexts (6 names, both parent modes, failures, bodies that unregister)")
def registration(R):
    rng = R.rng()
    with helpers():
        for i in range(800 if R.deep else 300):
            if R.left() < 5: break
            for n in Model.NAMES: sys.modules.pop(n, None)
            import vqpk, vqpk.sub
            for p in (vqpk, vqpk.sub):
                for a in ("a", "b"): vars(p).pop(a, None)
            vqpk.sub = sys.modules["vqpk.sub"]
            T, trace = {}, []           # expected: name -> module
            A = {}                      # expected: (parent module id, attr) -> module
            def parent(n):
                p = n.rpartition(".")[0]
                return (sys.modules.get(p) if not p in T else T[p]) if p else None
            def check():
                R.note(repr(trace))
                for n in Model.NAMES:
                    if sys.modules.get(n) is not T.get(n): R.fail("module table", repr(trace), f"{n}: {sys.modules.get(n)!r} expected {T.get(n)!r}"); return False
                for (pid, a), m in A.items():
                    p = next((x for x in [vqpk, vqpk.sub] + mods if id(x) == pid), None)
                    if p is not None and vars(p).get(a) is not m: R.fail("attribute of the parent package", repr(trace), f"{p.__name__}.{a}: {vars(p).get(a)!r} expected {m!r}"); return False
                return True
            mods = []
            def create(n, f, up):
                p = parent(n)
                ok = "." not in n or p is not None
                try: m = create_module(n, f, update_parent=up)
                except ModuleNotFoundError:
                    if ok: R.fail("create_module fails", repr(trace))
                    return None
                if not ok: R.fail("create_module without a parent package succeeds", repr(trace))
                enter(n, f, up, m, p)
                return m
            def enter(n, f, up, m, p):
                mods.append(m); T[n] = m
                if p is not None and up: A[(id(p), n.rpartition(".")[2])] = m
                if m.__name__ != n or (f and m.__file__ != f) or not m.__file__ or (getattr(m, "__package__", None) != n.rpartition(".")[0] if "." in n else False): R.fail("attributes of the new module", repr(trace), vars(m))
            class Boom(Exception): pass
            def steps(depth):
                for _ in range(rng.randrange(1, 4)):
                    n, f, up = rng.choice(Model.NAMES), rng.choice([None, "lab", "/x/y.py"]), rng.random() < .6
                    op = rng.choice(["create", "temp", "temp", "temp", "drop"] if depth else ["create", "temp", "temp"])
                    trace.append("  " * (3 - depth) + f"{op} {n} {f} {up}")
                    if op == "create": create(n, f, up)
                    elif op == "drop":
                        if n in T: del T[n], sys.modules[n]
                    else:
                        p = parent(n)
                        fail = rng.random() < .3
                        entered = False
                        try:
                            with temporary_module(n, f, update_parent=up) as m:
                                entered = True
                                enter(n, f, up, m, p)
                                check()
                                if depth: steps(depth - 1)
                                if fail: raise Boom()
                        except Boom:
                            if not fail: raise
                        except ModuleNotFoundError:
                            if entered or p is not None or "." not in n: R.fail("temporary_module fails", repr(trace))
                        if entered:
                            T.pop(n, None)
                            q = parent(n)
                            if q is not None and up: A[(id(q), n.rpartition(".")[2])] = None
                        trace.append("  " * (3 - depth) + f"end {n}{' (failed)' if fail and entered else ''}")
                    if not check(): return
            steps(3)
            for n in Model.NAMES: sys.modules.pop(n, None)

@case("C15", "automatic names are unique; module attributes; run failing half-way keeps what was defined")
def details(R):
    a, b = create_module(), create_module()
    R.check(a.__name__ != b.__name__ and a.__file__ != b.__file__ and sys.modules[a.__name__] is a and sys.modules[b.__name__] is b, "automatic module names", "two create_module() calls", (a.__name__, b.__name__))
    for m in (a, b): del sys.modules[m.__name__]
    m = create_module("vqhalf")
    try: run("x = 1\n1/0\ny = 2", m)
    except ZeroDivisionError: pass
    R.check(m.x == 1 and not hasattr(m, "y") and sys.modules["vqhalf"] is m, "state after a failing run", "x = 1; 1/0; y = 2")
    code = C.compile("'''D'''\nx = 5", "vqf.py", self_module="vqhalf")
    R.check(run(code, m).x == 5 and m.__doc__ == "D", "running a compiled code object", "code")
    del sys.modules["vqhalf"]
    with temporary_module() as t:
        nm = t.__name__
        R.check(sys.modules[nm] is t, "temporary module registered", nm)
    R.check(nm not in sys.modules, "temporary module unregistered", nm)
    # optimize is handed to the final compile
    for o, w in ((0, 1), (1, 0), (2, 0)):
        g = {}; 
        exec(C.compile("x = 0\ntry:\n    assert False\nexcept AssertionError:\n    x = 1", "f.py", optimize=o), g); R.eq(g["x"], w, "optimize", str(o))
