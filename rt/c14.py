"""C14: dialects."""
import warnings
from rt.lib import *
from mcpyrate.compiler import expand, compile as mcompile
from mcpyrate.dialects import Dialect, DialectExpander

LOG = []          # (dialect, kind, instance, input)
OPS_SRC = ["ni", "ni", "add", "same", "intro_end", "intro_next", "intro_top", "replace"]
OPS_AST = ["ni", "ni", "add", "inplace", "intro_end", "intro_top", "new"]
OPS_POST = ["ni", "ni", "add", "inplace", "new"]

def make(rng, name, fail=None):
    """A dialect class with random behaviour, and its description."""
    b = {"src": rng.choice(OPS_SRC), "ast": rng.choice(OPS_AST), "post": rng.choice(OPS_POST), "intro": None, "fail": fail}
    return b

def modsource(behs, mod):
    return f"""
        import ast
        import rt.c14 as T
        from mcpyrate.dialects import Dialect
        def mk(name, b):
            class D(Dialect):
                def __init__(self, expander):
                    super().__init__(expander)
                    if b["fail"] == "init": raise ZeroDivisionError("init " + name)
                def transform_source(self, text): return T.do_src(self, name, b, text)
                def transform_ast(self, tree): return T.do_ast(self, name, b, tree)
                def postprocess_ast(self, tree): return T.do_post(self, name, b, tree)
            D.__name__ = D.__qualname__ = name
            return D
        for _n, _b in {behs!r}.items():
            globals()[_n] = mk(_n, _b)
        notadialect = 42
        def func(*a): pass
        class NotDialect: pass
    """

def failing(b, stage, ok):
    f = b["fail"]
    if f == stage + "_raise": raise LookupError("boom")
    if f == stage + "_none": return None
    if f == stage + "_empty": return ""
    if f == stage + "_stop": raise StopIteration()
    return ok

def f_src(name, b, text):
    op = b["src"]
    if op == "ni": return NotImplemented
    if op == "same": return text
    if op == "add": return text + f"\ns_{name} = 1\n"
    if op == "replace": return text.replace("placeholder", f"ph_{name}")
    if b["intro"] is None or b["intro"] in text: return text + f"\ns_{name} = 2\n"
    if op == "intro_end": return text + "\n" + b["intro"] + "\n"
    if op == "intro_top": return b["intro"] + "\n" + text
    return "\n".join(l + ("\n" + b["intro"] if f" import dialects, " in l and name in l else "") for l in text.split("\n"))
def f_ast(name, b, tree):
    op = b["ast"]
    if op == "ni": return NotImplemented
    new = ast.parse(f"a_{name} = 1").body
    if op == "add": tree.body = tree.body + new; return tree
    if op == "inplace": tree.body.insert(0, new[0]); return tree
    if op == "new": return ast.Module(body=tree.body + new, type_ignores=[])
    if b["intro_ast"] is None: return tree
    st = ast.parse(b["intro_ast"]).body
    tree.body = tree.body + st if op == "intro_end" else st + tree.body
    return tree
def f_post(name, b, tree):
    op = b["post"]
    if op == "ni": return NotImplemented
    new = ast.fix_missing_locations(ast.parse(f"p_{name} = 1")).body
    if op == "inplace": tree.body.append(new[0]); return tree
    return ast.Module(body=tree.body + new, type_ignores=[])
def do_src(self, name, b, text):
    LOG.append((name, "src", self, text, self.lineno))
    return failing(b, "src", f_src(name, b, text))
def do_ast(self, name, b, tree):
    LOG.append((name, "ast", self, ast.unparse(tree), self.lineno))
    return failing(b, "ast", f_ast(name, b, tree))
def do_post(self, name, b, tree):
    LOG.append((name, "post", self, ast.unparse(tree), self.lineno))
    return failing(b, "post", f_post(name, b, tree))

class Failed(Exception): pass
def reference(src, B, nomacro=lambda t: t, kind="src"):
    """(expected log without instances, final tree or Failed)"""
    log, seen = [], set()
    def names(line): return [x.strip() for x in line.split(" import dialects,")[1].split(",")]
    if kind == "src":
        while True:
            for no, line in enumerate(src.split("\n"), 1):
                if re.match(r"from\s+[.\w]+\s+import dialects, ", line) and "(" not in line and "\\" not in line and line.strip() not in seen:
                    break
            else: break
            seen.add(line.strip())
            for n in names(line):
                if B[n]["fail"] == "init": return log, Failed(n)
                log.append((n, "src", src, no))
                f = B[n]["fail"] or ""
                if f.startswith("src_"): return log, Failed(n)
                r = f_src(n, B[n], src)
                if r is not NotImplemented: src = r
    tree = ast.parse(src)
    insts = []
    while True:
        for i, st in enumerate(tree.body):
            if isinstance(st, ast.ImportFrom) and st.names[0].name == "dialects" and st.names[0].asname is None: break
        else: break
        no = st.lineno
        tree.body[i] = ast.copy_location(ast.Import(names=[ast.alias(name=st.module)]), st)
        for n in [a.name for a in st.names[1:]]:
            if B[n]["fail"] == "init": return log, Failed(n)
            log.append((n, "ast", ast.unparse(tree), no))
            f = B[n]["fail"] or ""
            if f.startswith("ast_"): return log, Failed(n)
            insts.append(n)
            r = f_ast(n, B[n], tree)
            if r is not NotImplemented: tree = r
    tree = nomacro(tree)
    for n in insts:
        log.append((n, "post", ast.unparse(tree), None))
        f = B[n]["fail"] or ""
        if f.startswith("post_"): return log, Failed(n)
        r = f_post(n, B[n], tree)
        if r is not NotImplemented: tree = r
    return log, tree

ORD = ["x = 1", "import os", "'doc'", "def f():\n    return 1", "placeholder = 2", "from os import path", "# from vqd import dialects, D0", "s = 'from vqd import dialects, D0'", "if True:\n    y = 1", "# comment", "t = '''\nnot a dialect import\n'''", "class C: pass", "\x0c", "ff = 1  # one\x0ctwo", "u = 'a\u2028b\x85c\x1cd'", "# v\x0bt \u2029"]
def world(rng, mod, n=6, fails=False):
    B = {f"D{i}": make(rng, f"D{i}") for i in range(n)}
    if fails:
        for nm in rng.sample(list(B), 1): B[nm]["fail"] = rng.choice(["init", "src_raise", "src_none", "src_empty", "src_stop", "ast_raise", "ast_none", "ast_stop", "post_raise", "post_none"])
    ns = list(B)
    for i, nm in enumerate(ns):
        # imports introduced by a transformer: only of dialects introduced nowhere else (no endless growth)
        B[nm]["intro"] = f"from {mod} import dialects, I{i}"
        B[nm]["intro_ast"] = f"from {mod} import dialects, J{i}"
    for i in range(n):
        for p in "IJ":
            b = make(rng, f"{p}{i}"); b["intro"] = b["intro_ast"] = None
            B[f"{p}{i}"] = b
    return B, ns
def program(rng, mod, ns):
    out, k = [], 0
    used = set()
    for _ in range(rng.randrange(1, 7)):
        if rng.random() < .55:
            c = [n for n in ns if n not in used]
            pick = rng.sample(c, min(len(c), rng.choice([1, 1, 1, 2, 3])))
            if not pick: continue
            used |= set(pick)
            out.append(f"from {mod} import dialects, " + ", ".join(pick))
        else: out.append(rng.choice(ORD))
    return "\n".join(out)

def run(R, src, B, mod, kind, inp, filename):
    del LOG[:]
    wlog, want = reference(src, B, kind=kind)
    try:
        if kind == "src": got = expand(src, filename, self_module="vq_mod")
        else: got = expand(ast.parse(src), filename, self_module="vq_mod")
    except Exception as e: got = e
    glog = [x for x in LOG]
    R.note(inp)
    if isinstance(want, Failed) != isinstance(got, Exception):
        R.fail("one of expected and real expansion fails", inp, f"{want!r}\n" + ("".join(traceback.format_exception(got))[-2000:] if isinstance(got, Exception) else ast.unparse(got))); return
    a = [x[:3] for x in wlog]; b = [(x[0], x[1], x[3]) for x in glog]
    if a != b:
        i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
        R.fail("order or input of dialect transformers", inp, f"expected {[x[:2] for x in a]}\n     got {[x[:2] for x in b]}\nstep {i}: expected {a[i] if i < len(a) else None}\n got {b[i] if i < len(b) else None}"); return
    for (n, k, _, no), (n2, k2, inst, _, gno) in zip(wlog, glog):
        if k == "src" and gno != no: R.fail("line number given to a dialect", inp, f"{n}: expected {no} got {gno}")
    if isinstance(want, Failed):
        if not isinstance(got, (ImportError, TypeError)) or want.args[0] not in str(got): R.fail("a failing dialect is not reported by name", inp, repr(got)); return
    else:
        insts = {}
        for n, k, inst, *_ in glog:
            if k == "ast": insts.setdefault(n, []).append(inst)
            if k == "post" and not any(i is inst for i in insts.get(n, [])): R.fail("postprocessing runs on another instance", inp, n)
        from rt.c07 import find_macros  # noqa  (ordinary code has no macros)
        df = ast_diff(want, got)
        if df: R.fail("final tree", inp, df + "\n" + ast.unparse(got))

def with_world(R, rng, fails, i, kinds=("src", "src", "ast")):
    mod = f"vqd{R.case}{i}"
    with scratch() as d:
        B, ns = world(rng, mod, fails=fails)
        if "/verif" not in sys.path and False: pass
        write(d, mod + ".py", modsource(B, mod))
        with on_path(d):
            for j in range(12 if R.deep else 6):
                src = program(rng, mod, ns)
                try: ast.parse(src)
                except SyntaxError: continue
                kind = rng.choice(kinds)
                desc = {n: {k: v for k, v in B[n].items() if v and k in ("src", "ast", "post", "fail")} for n in B if n in src or n[0] in "IJ"}
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        run(R, src, B, mod, kind, f"{kind}\n{src}\n# {desc}", os.path.join(d, "vq_user.py"))
                except Failed: pass

@case("C14", "random programs importing 0..6 dialects (18 random behaviours per world: decline, edit, replace, introduce further dialect-imports), from text and from a tree")
def pipeline(R):
    rng = R.rng()
    for i in range(2000 if R.deep else 500):
        if R.left() < 5: break
        with_world(R, rng, False, i)

@case("C14", "the same with one dialect failing (constructor, each transformer: exception, None, empty text)")
def failures(R):
    rng = R.rng()
    for i in range(1500 if R.deep else 400):
        if R.left() < 5: break
        with_world(R, rng, True, i)

@case("C14", "non-dialects, missing modules and names, missing methods, renamed imports")
def malformed(R):
    with scratch() as d:
        write(d, "vqdm.py", modsource({"D0": {"src": "ni", "ast": "ni", "post": "ni", "intro": None, "fail": None}}, "vqdm"))
        write(d, "vqdn.py", """
            from mcpyrate.dialects import Dialect
            class NoInit(Dialect):
                def __init__(self): pass
            class Kw(Dialect):
                def transform_source(self): pass
        """)
        with on_path(d):
            fn = os.path.join(d, "vq_user.py")
            for src, excs, words in [("from vqdm import dialects, notadialect", (TypeError, ImportError), ["notadialect"]), ("from vqdm import dialects, func", (TypeError,), ["func"]), ("from vqdm import dialects, NotDialect", (TypeError,), ["NotDialect"]), ("from vqdm import dialects, missing", (ImportError,), ["missing"]),
                                     ("from vq_no_such import dialects, D0", (ModuleNotFoundError,), ["vq_no_such"]), ("from vqdm import dialects, D0 as E", (ImportError,), []), ("from vqdn import dialects, NoInit", (ImportError,), ["NoInit"]), ("from vqdn import dialects, Kw", (ImportError,), ["Kw"])]:
                for kind in ("src", "ast"):
                    if kind == "ast" and "Kw" in src: continue
                    for pre in ("", "x = 1\n", "from vqdm import dialects, D0\n"):
                        s = pre + src
                        R.note(kind + s)
                        try: expand(s if kind == "src" else ast.parse(s), fn)
                        except excs as e:
                            t = strip_ansi(str(e) + str(e.__cause__ or ""))
                            if not all(w in t for w in words): R.fail("the error does not name the dialect", s, t)
                        except Exception as e: R.fail("other exception", s, repr(e))
                        else: R.fail("accepted", s)

@case("C14", "dialect-import line forms in source text")
def line_forms(R):
    with scratch() as d:
        beh = {f"D{i}": {"src": "ni", "ast": "ni", "post": "ni", "intro": None, "fail": None} for i in range(3)}
        write(d, "vqdl/__init__.py", ""); write(d, "vqdl/mod.py", modsource(beh, "vqdl.mod"))
        write(d, "vqdl/under_score9.py", modsource(beh, "vqdl.under_score9"))
        with on_path(d):
            fn = os.path.join(d, "vqdl", "user.py")
            for src, src_names, ast_names in [
                ("from vqdl.mod import dialects, D0", ["D0"], ["D0"]), ("from vqdl.mod import dialects, D0, D1", ["D0", "D1"], ["D0", "D1"]), ("from .mod import dialects, D0", ["D0"], ["D0"]), ("from vqdl.under_score9 import dialects, D2", ["D2"], ["D2"]),
                ("x = 1\nfrom vqdl.mod import dialects, D0\ny = 2", ["D0"], ["D0"]), ("if True:\n    from vqdl.mod import dialects, D0", [], []), ("from vqdl.mod import dialects as d, D0", [], []), ("from vqdl.mod import D0, dialects", None, None),
                ("from vqdl.mod import dialects, D0\nfrom vqdl.under_score9 import dialects, D1", ["D0", "D1"], ["D0", "D1"]), ("# from vqdl.mod import dialects, D0", [], []), ("from  vqdl.mod  import dialects,  D0", ["D0"], ["D0"]), ("def f():\n    from vqdl.mod import dialects, D0", [], []), ("'''doc'''\nfrom vqdl.mod import dialects, D0", ["D0"], ["D0"]),
                ("from vqdl.mod import dialects, D0, D1, D2", ["D0", "D1", "D2"], ["D0", "D1", "D2"]), ("from vqdl.mod import dialects, D1\nfrom vqdl.mod import dialects, D0", ["D1", "D0"], ["D1", "D0"]), ("from vqdl.mod import macros, D0" if False else "pass", [], [])]:
                if src_names is None: continue
                del LOG[:]
                R.note(src)
                try: out = expand(src, fn)
                except Exception as e: R.fail("expansion fails", src, "".join(traceback.format_exception(e))[-1500:]); continue
                if [(x[0], x[1]) for x in LOG] != [(n, "src") for n in src_names] + [(n, "ast") for n in ast_names] + [(n, "post") for n in ast_names]: R.fail("dialects run", src, [(x[0], x[1]) for x in LOG])
                left = [s for s in out.body if isinstance(s, ast.ImportFrom) and s.names[0].name == "dialects" and s.names[0].asname is None]
                if left: R.fail("a dialect-import remains", src, ast.unparse(out))
                want = re.sub(r"(?m)^from\s+(\S+)\s+import dialects,.*$", lambda m: "import " + (m.group(1) if m.group(1)[0] != "." else "vqdl" + m.group(1)), src)
                if ast_diff(ast.parse(want), out): R.fail("code beside the dialect-imports is changed", src, ast.unparse(out))
                ls = [x[4] for x in LOG if x[1] == "src"]
                if ls != [1 + next(i for i, l in enumerate(src.split("\n")) if re.match(r"from\s.*dialects,.*\b" + n, l)) for n in src_names]: R.fail("line numbers", src, ls)
        # ordinary code: nothing happens
        for s in ["x = 1", "import dialects", "from dialects import x", ""]:
            R.check(ast_eq(ast.parse(s), expand(s, fn)), "ordinary code is changed", s)

@case("C14", "macros and dialects together: AST transforms see unexpanded macros, postprocessing the expansion")
def with_macros(R):
    import mcpyrate.activate
    with scratch() as d:
        write(d, "vqdmac.py", "import ast\ndef m(tree, **kw): return ast.Constant(99)\n")
        write(d, "vqdia.py", """
            import ast
            from mcpyrate.dialects import Dialect
            SEEN = []
            class A(Dialect):
                def transform_source(self, text): SEEN.append(("src", "m[1]" in text)); return text.replace("SRC", "m[2]")
                def transform_ast(self, tree): SEEN.append(("ast", "m[1]" in ast.unparse(tree) and "m[2]" in ast.unparse(tree) and "import macros" in ast.unparse(tree))); return tree
                def postprocess_ast(self, tree): SEEN.append(("post", ast.unparse(tree).count("99"))); return tree
            class B(Dialect):
                def transform_ast(self, tree): tree.body += ast.parse("z = m[3]").body; return tree
        """)
        for i, src in enumerate(["from vqdia import dialects, A\nfrom vqdmac import macros, m\nx = m[1]\ny = SRC\n", "from vqdmac import macros, m\nx = m[1]\ny = SRC\nfrom vqdia import dialects, A, B\n"]):
            with on_path(d):
                write(d, f"vqdu{i}.py", src); importlib.invalidate_caches()
                import vqdia
                R.note(src)
                try: mm = importlib.import_module(f"vqdu{i}")
                except Exception as e: R.fail("import fails", src, "".join(traceback.format_exception(e))[-1500:]); continue
                n = 2 + ("B" in src)
                if vqdia.SEEN != [("src", True), ("ast", True), ("post", n)]: R.fail("what the dialect sees", src, vqdia.SEEN)
                if (mm.x, mm.y) != (99, 99) or ("B" in src and mm.z != 99): R.fail("result", src)
