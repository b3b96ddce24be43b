"""C07: macro-imports."""
from rt.lib import *
from mcpyrate.coreutils import ismacroimport, get_macros
from mcpyrate.expander import find_macros

class Tree:
    """A scratch package tree of macro modules."""
    def __init__(self, d):
        self.d = d
        self.mods = {}
        for name, path in [("vqa", "vqa.py"), ("vqpkg", "vqpkg/__init__.py"), ("vqpkg.one", "vqpkg/one.py"), ("vqpkg.sub", "vqpkg/sub/__init__.py"), ("vqpkg.sub.two", "vqpkg/sub/two.py"), ("vqpkg.sub.sub3", "vqpkg/sub/sub3/__init__.py"), ("vqpkg.sub.sub3.four", "vqpkg/sub/sub3/four.py")]:
            write(d, path, f"""
                m0 = lambda tree, **kw: tree
                def m1(tree, **kw): return {name!r}
                class M2:
                    def __init__(self, tree, **kw): pass
                class _C:
                    def __call__(self, tree, **kw): return tree
                m3 = _C()
                notcallable = 42
                nothing = None
                macros = m1
                name = {name!r}
            """)
            self.mods[name] = path
        write(d, "vqbad.py", "import vq_no_such_module_at_all\n")
        write(d, "vqexc.py", "raise LookupError('at import')\n")
    def files(self):
        """(filename, package or None)"""
        return [(os.path.join(self.d, "vquser.py"), None), (os.path.join(self.d, "vqpkg", "vquser.py"), "vqpkg"), (os.path.join(self.d, "vqpkg", "sub", "vquser.py"), "vqpkg.sub"), (os.path.join(self.d, "vqpkg", "sub", "sub3", "vquser.py"), "vqpkg.sub.sub3")]

MACROS = ["m0", "m1", "M2", "m3"]

@case("C07", "import statements: level 0..4 x 8 targets x 4 importing files x 0..4 names with renames, misses and non-callables")
def get(R):
    rng = R.rng()
    with scratch() as d:
        T = Tree(d)
        with on_path(d):
            for _ in range(3000 if R.deep else 900):
                if R.left() < 5: break
                fn, pkg = rng.choice(T.files())
                level = rng.choice([0, 0, 0, 1, 1, 2, 3, 4])
                mod = rng.choice(list(T.mods) + ["vq_missing", "vqpkg.vq_missing"]) if level == 0 else rng.choice(["one", "two", "sub", "sub.two", "sub3", "four", "vq_missing", "sub3.four"])
                names = [(rng.choice(MACROS + ["macros"]) if rng.random() < .85 else rng.choice(["notcallable", "nothing", "vq_nope"]), rng.choice([None, None, "z", "m0", "m1"])) for _ in range(rng.randrange(5))]
                first = rng.choice(["macros", "macros", "dialects", "whatever"])
                src = f"from {'.' * level}{mod} import {first}" + "".join(f", {n}" + (f" as {a}" if a else "") for n, a in names)
                inp = f"{src} in {os.path.relpath(fn, d)}"
                st = ast.parse("\n" * rng.randrange(4) + src).body[0]
                # oracle
                want = None
                if level:
                    base = pkg.split(".") if pkg else None
                    if base is None or len(base) < level - 1 + 1: err = ImportError
                    else: absname, err = ".".join(base[:len(base) - (level - 1)] + [mod]), None
                else: absname, err = mod, None
                if err is None and absname not in T.mods: err = ModuleNotFoundError
                b = {}
                if err is None:
                    M = importlib.import_module(absname)
                    for n, a in names:
                        if n == "vq_nope" or not callable(getattr(M, n)): err = ImportError; break
                        b[a or n] = getattr(M, n)
                R.note(inp)
                before = dump(st)
                try: got = get_macros(st, filename=fn)
                except Exception as e:
                    if err is None: R.fail("a valid macro-import fails", inp, "".join(traceback.format_exception(e))[-2000:])
                    elif not isinstance(e, err): R.fail(f"error of a failing macro-import is not {err.__name__}", inp, repr(e))
                    elif not (level and (pkg is None or len(pkg.split(".")) < level)) and f"{fn}:{st.lineno}" not in strip_ansi(str(e)): R.fail("the error does not give the location of the statement", inp, strip_ansi(str(e)))
                    continue
                if err is not None: R.fail("a failing macro-import is accepted", inp, got); continue
                if got[0] != absname: R.fail("absolute module name", inp, got[0])
                if list(got[1]) != list(b) or any(got[1][k] is not b[k] for k in b): R.fail("bindings differ from the imported objects", inp, f"expected {b}\n got {got[1]}")
                if dump(st) != before: R.fail("the statement is modified", inp, dump(st))

@case("C07", "renaming refused on request, self-imports, missing module names, failing modules")
def options(R):
    with scratch() as d:
        T = Tree(d)
        fn = os.path.join(d, "vqpkg", "vquser.py")
        P = lambda s: ast.parse(s).body[0]
        with on_path(d):
            R.raises(ImportError, lambda: get_macros(P("from vqa import macros, m0 as x"), filename=fn, allow_asname=False), "renaming accepted with allow_asname=False", "m0 as x")
            R.eq(list(quiet(get_macros, P("from vqa import macros, m0"), filename=fn, allow_asname=False)[1]), ["m0"], "plain names with allow_asname=False", "m0")
            e = R.raises(SyntaxError, lambda: get_macros(P("from . import macros, m0"), filename=fn), "missing module name", "from . import macros")
            R.check(e is None or f"{fn}:1" in strip_ansi(str(e)), "location of a missing module name", "from . import macros", str(e))
            e = R.raises(ModuleNotFoundError, lambda: get_macros(P("from vqbad import macros, m0"), filename=fn), "a macro module with a failing import", "vqbad")
            R.raises(LookupError, lambda: get_macros(P("from vqexc import macros, m0"), filename=fn), "a macro module that raises", "vqexc")
            # self
            M = types.ModuleType("vq_self_mod"); M.mm = lambda tree, **kw: tree; M.notc = 1
            sys.modules["vq_self_mod"] = M
            try:
                R.check(get_macros(P("from __self__ import macros, mm as q, mm"), filename=fn, self_module="vq_self_mod") == ("vq_self_mod", {"q": M.mm, "mm": M.mm}), "self-import", "mm")
                R.raises(SyntaxError, lambda: get_macros(P("from .__self__ import macros, mm"), filename=fn, self_module="vq_self_mod"), "relative self-import", "mm")
                R.raises(ImportError, lambda: get_macros(P("from __self__ import macros, vq_nope"), filename=fn, self_module="vq_self_mod"), "missing name in self-import", "vq_nope")
                R.raises(ImportError, lambda: get_macros(P("from __self__ import macros, notc"), filename=fn, self_module="vq_self_mod"), "non-callable in self-import", "notc")
            finally: del sys.modules["vq_self_mod"]
            R.raises(ModuleNotFoundError, lambda: get_macros(P("from __self__ import macros, mm"), filename=fn, self_module="vq_self_mod"), "self-import of a module that is not there", "mm")
            # reload gives new objects, no reload the same ones
            a = get_macros(P("from vqa import macros, m0"), filename=fn)[1]["m0"]
            R.check(get_macros(P("from vqa import macros, m0"), filename=fn)[1]["m0"] is a, "the same function on a second import", "m0")
            b = get_macros(P("from vqa import macros, m0"), filename=fn, reload=True)[1]["m0"]
            R.check(b is not a and b is sys.modules["vqa"].m0, "reload gives the reloaded function", "m0")

@case("C07", "all import statement forms: first name, renames, magic names")
def predicate(R):
    for src, want in [("from x import macros", True), ("from x import macros, a", True), ("from . import macros", True), ("from .x import macros as macros_", False), ("from x import macros as m", False), ("from x import a, macros", False), ("from x import dialects", False),
                      ("import macros", False), ("import x.macros", False), ("from macros import x", False), ("macros", False), ("from x import *", False), ("x = macros", False), ("from x import Macros", False), ("from x import macros as macros", False), ("from __self__ import macros", True)]:
        R.eq(bool(ismacroimport(ast.parse(src).body[0])), want, "ismacroimport", src)
        s2 = src.replace("dialects", "#").replace("macros", "dialects").replace("#", "macros")
        R.eq(bool(ismacroimport(ast.parse(s2).body[0], magicname="dialects")), want, "ismacroimport(magicname='dialects')", s2)

ORD = ["x = 1", "import os", "from os import path", "def f(): pass", "'doc'", "from vqa import m0", "from vqa import m0 as macros", "from vqa import m0, macros", "if x:\n    from vqa import macros, m0", "class C:\n    from vqa import macros, m1", "try:\n    from vqpkg.one import macros, m1\nexcept ImportError: pass", "from __future__ import annotations", "import vqa", "with phase[1]:\n    from vqa import macros, m0"]

@case("C07", "random module bodies of <= 8 statements with macro-imports (absolute, relative, self), with and without transform and locations")
def find(R):
    rng = R.rng()
    with scratch() as d:
        T = Tree(d)
        with on_path(d):
            S = types.ModuleType("vq_self_mod"); S.s0 = lambda tree, **kw: 0; S.m0 = lambda tree, **kw: 1
            sys.modules["vq_self_mod"] = S
            try:
                for i in range(2500 if R.deep else 700):
                    if R.left() < 5: break
                    fn, pkg = T.files()[rng.choice([0, 1, 2, 3])]
                    self_module = rng.choice([None, "vq_self_mod"])
                    stmts, want_b, want_s = [], {}, []
                    transform = rng.choice([True, True, False]); noloc = rng.random() < .15
                    for _ in range(rng.randrange(9)):
                        k = rng.random()
                        if k < .45:
                            s = rng.choice(ORD); stmts.append(s); want_s.append(s); continue
                        if k < .6 and self_module:
                            names = [(rng.choice(["s0", "m0"]), rng.choice([None, None, "z"])) for _ in range(rng.randrange(3))]
                            M, head, absname = S, "__self__", None
                        else:
                            absname = rng.choice(list(T.mods)); M = importlib.import_module(absname)
                            head = absname
                            if pkg and absname.startswith("vqpkg.") and rng.random() < .5:
                                p = pkg.split(".")
                                for lev in range(1, len(p) + 1):
                                    base = ".".join(p[:len(p) - lev + 1])
                                    if absname.startswith(base + "."): head = "." * lev + absname[len(base) + 1:]; break
                            names = [(rng.choice(MACROS), rng.choice([None, None, None, "z", "m1"])) for _ in range(rng.randrange(4))]
                        src = f"from {head} import macros" + "".join(f", {n}" + (f" as {a}" if a else "") for n, a in names)
                        stmts.append(src)
                        for n, a in names: want_b[a or n] = getattr(M, n)
                        if not transform: want_s.append(src)
                        elif absname: want_s.append(f"import {absname}")
                        else: want_s.append("#self" if not noloc else None)
                    src = "\n".join(stmts)
                    try: tree = ast.parse(src)
                    except SyntaxError: continue
                    if noloc:
                        for n in ast.walk(tree):
                            for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                                if hasattr(n, a): delattr(n, a)
                    inp = f"transform={transform} noloc={noloc} self={self_module} file={os.path.relpath(fn, d)}\n{src}"
                    R.note(inp)
                    old = list(tree.body)
                    try: got = find_macros(tree, filename=fn, self_module=self_module, transform=transform)
                    except Exception as e: R.fail("find_macros fails", inp, "".join(traceback.format_exception(e))[-2000:]); continue
                    if got != want_b or any(got[k] is not want_b[k] for k in got): R.fail("bindings", inp, f"expected {want_b}\n got {got}")
                    want_s = [s for s in want_s if s is not None]
                    if len(tree.body) != len(want_s): R.fail("statements lost or added", inp, ast.unparse(tree)); continue
                    for a, w in zip(tree.body, want_s):
                        if w == "#self":
                            c = [x for x in ast.walk(a) if isinstance(x, (ast.Import, ast.ImportFrom))]
                            if c or "_mcpyrate_coverage" not in dump(a): R.fail("a self-import must leave only a coverage marker", inp, dump(a))
                        else:
                            dd = ast_diff(ast.parse(w).body[0], a)
                            if dd: R.fail("statement after processing", inp, f"expected {w}\n{dd}")
                            elif not noloc and not hasattr(a, "lineno"): R.fail("location lost", inp, w)
                    if not transform and any(x is not y for x, y in zip(old, tree.body)): R.fail("transform=False replaces statements", inp)
            finally: sys.modules.pop("vq_self_mod", None)

@case("C07", "modules imported through the import hook: bindings, name removal, order of overriding imports")
def through_import(R):
    import mcpyrate.activate
    with scratch() as d:
        T = Tree(d)
        write(d, "vqmm.py", "import ast\ndef one(tree, **kw): return ast.Constant(1)\ndef two(tree, **kw): return ast.Constant(2)\n")
        write(d, "vqpkg/rel.py", "from ..vqmm import macros, one\n" if False else "from .pm import macros, three as th\nx = th[0]\ndef has(): return 'th' in globals() or 'three' in globals() or 'macros' in globals()\n")
        write(d, "vqpkg/pm.py", "import ast\ndef three(tree, **kw): return ast.Constant(3)\n")
        with on_path(d):
            for i, (src, want) in enumerate([("from vqmm import macros, one\nx = one[0]", 1), ("from vqmm import macros, one as two\nx = two[0]", 1), ("from vqmm import macros, one, two as one\nx = one[0]", 2), ("from vqmm import macros, one\nfrom vqmm import macros, two as one\nx = one[0]", 2),
                                             ("x = [one[0], two[1]]\nfrom vqmm import macros, one, two", [1, 2]), ("one = [7]\nfrom vqmm import macros, two\nx = one[0]", 7), ("if True:\n    from vqmm import one\nx = callable(one)", True), ("from vqmm import macros, one\nimport sys\nx = 'vqmm' in globals() and sys.modules['vqmm'] is vqmm", True)]):
                write(d, f"vquse{i}.py", src)
                try: m = importlib.import_module(f"vquse{i}")
                except Exception as e: R.fail("import fails", src, "".join(traceback.format_exception(e))[-2000:]); continue
                R.eq(m.x, want, "result of a module with macro-imports", src)
                R.check("macros" not in vars(m), "the magic name is bound at run time", src)
            m = importlib.import_module("vqpkg.rel")
            R.check(m.x == 3 and not m.has(), "relative macro-import", "vqpkg.rel", vars(m).get("x"))
