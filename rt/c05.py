"""C05: invocation syntaxes, macro inputs, MacroCollector."""
import warnings
from rt.lib import *
from rt.macrolab import *
from rt import corpus, gen
from rt.c04 import both, ENTRIES
from mcpyrate.core import Done, global_bindings
from mcpyrate.expander import MacroCollector, namemacro, parametricmacro, isnamemacro, isparametricmacro

U = ast.unparse
def recorder():
    calls = []
    def mk(name, param=False, namem=False):
        def f(tree, **kw):
            kw.setdefault("optional_vars", None)
            calls.append((name, kw["syntax"], "; ".join(U(x) for x in tree) if isinstance(tree, list) else U(tree), None if kw["args"] is None else [U(x) for x in kw["args"]],
                          None if kw["optional_vars"] is None else U(kw["optional_vars"]), U(kw["invocation"]), kw["expander"]))
            return tree
        if param: f = parametricmacro(f)
        if namem: f = namemacro(f)
        return f
    return calls, {"m": mk("m"), "k": mk("k"), "p": mk("p", True), "n": mk("n", False, True), "b": mk("b", True, True)}

# (code, expected calls: (name, syntax, tree, args, as-part)) ; "SyntaxError" where the documented validation refuses
E = "expr"; D = "decorator"; B_ = "block"; NM = "name"
TABLE = [
    ("m[x]", [("m", E, "x", [], None)]),
    ("m[x, y]", [("m", E, "(x, y)", [], None)]),
    ("m[x][y]", [("m", E, "x", [], None)]),                 # not parametric: m[x] is the invocation, [y] ordinary
    ("m(x)[y]", []), ("m()[y]", "SyntaxError"), ("m(k=1)[y]", []), ("m(*a)[y]", []), ("m", []), ("m(x)", []), ("m.x[y]", []), ("x.m[y]", []), ("f(m)", []), ("m.x", []), ("(m)[x]", [("m", E, "x", [], None)]),
    ("m[x].y", [("m", E, "x", [], None)]), ("m[x](y)", [("m", E, "x", [], None)]), ("m[x:y]", [("m", E, "x:y", [], None)]), ("m[()]", [("m", E, "()", [], None)]),
    ("p[x]", [("p", E, "x", [], None)]), ("p[a][x]", [("p", E, "x", ["a"], None)]), ("p[a, c][x]", [("p", E, "x", ["a", "c"], None)]), ("p[(a, c)][x]", [("p", E, "x", ["a", "c"], None)]),
    ("p[(a, c), d][x]", [("p", E, "x", ["(a, c)", "d"], None)]), ("p[a,][x]", [("p", E, "x", ["a"], None)]), ("p[a][x][y]", [("p", E, "x", ["a"], None)]), ("p(a)[x]", [("p", E, "x", ["a"], None)]), ("p(a, c)[x]", [("p", E, "x", ["a", "c"], None)]),
    ("p((a, c))[x]", [("p", E, "x", ["(a, c)"], None)]), ("p()[x]", "SyntaxError"), ("p(*a)[x]", "SyntaxError"), ("p(a, *c)[x]", "SyntaxError"), ("p(k=1)[x]", []), ("p(a, k=1)[x]", []), ("p(**k)[x]", []), ("p(a)", []), ("p", []),
    ("p[a](x)", [("p", E, "a", [], None)]), ("p(a)(c)[x]", []), ("p[a:c][x]", [("p", E, "x", ["a:c"], None)]), ("q.p[a][x]", []),
    ("n", [("n", NM, "n", None, None)]), ("n[x]", [("n", E, "x", [], None)]), ("n + n", [("n", NM, "n", None, None)] * 2), ("n.x", [("n", NM, "n", None, None)]), ("n(x)", [("n", NM, "n", None, None)]), ("n(x)[y]", [("n", NM, "n", None, None)]),
    ("x.n", []), ("f(n=1)", []), ("lambda n: 1", []), ("n = 1", [("n", NM, "n", None, None)]), ("del n", [("n", NM, "n", None, None)]), ("def n(): pass", []), ("import n", []), ("def f(n): pass", []), ("class n: pass", []), ("global n", []), ("from x import n", []),
    ("b", [("b", NM, "b", None, None)]), ("b[a][x]", [("b", E, "x", ["a"], None)]), ("b(a)[x]", [("b", E, "x", ["a"], None)]), ("b(a)", [("b", NM, "b", None, None)]), ("b(k=1)[x]", [("b", NM, "b", None, None)]),
    ("with m: pass", [("m", B_, "pass", [], None)]), ("with m as z: pass", [("m", B_, "pass", [], "z")]), ("with m as (y, z): pass", [("m", B_, "pass", [], "(y, z)")]), ("with m[a]: pass", [("m", E, "a", [], None)]), ("with m(a): pass", []), ("with m(): pass", "SyntaxError"),
    ("with m(): x", "SyntaxError"), ("with m.y: pass", []), ("with p[a]: pass", [("p", B_, "pass", ["a"], None)]), ("with p(a): pass", [("p", B_, "pass", ["a"], None)]), ("with p(a) as z: x\n", [("p", B_, "x", ["a"], "z")]), ("with p(): pass", "SyntaxError"), ("with p(*a): pass", "SyntaxError"),
    ("with p(k=1): pass", []), ("with p[a][c]: pass", [("p", E, "c", ["a"], None)]), ("with open(m): pass", []), ("with n: pass", [("n", B_, "pass", [], None)]), ("with x as n: pass", [("n", NM, "n", None, None)]), ("with n(a): pass", [("n", NM, "n", None, None)]),
    ("with m, k: x", [("m", B_, "with k:\n    x", [], None), ("k", B_, "x", [], None)]), ("with k, m: x", [("k", B_, "with m:\n    x", [], None), ("m", B_, "x", [], None)]),
    ("with m as z, k as w: x", [("m", B_, "with k as w:\n    x", [], "z"), ("k", B_, "x", [], "w")]), ("with m, y as z, k: x", [("m", B_, "with y as z, k:\n    x", [], None), ("k", B_, "with y as z:\n    x", [], None)]),
    ("with y, m: x", [("m", B_, "with y:\n    x", [], None)]), ("with m, m: x", [("m", B_, "with m:\n    x", [], None), ("m", B_, "x", [], None)]), ("with m:\n  with k: x", [("m", B_, "with k:\n    x", [], None), ("k", B_, "x", [], None)]),
    ("with m, p[a]: x", [("m", B_, "with p[a]:\n    x", [], None), ("p", B_, "x", ["a"], None)]), ("with p[a], p[c]: x", [("p", B_, "with p[c]:\n    x", ["a"], None), ("p", B_, "x", ["c"], None)]),
    ("async def f():\n  async with m: pass", []), ("async def f():\n  with m: pass", [("m", B_, "pass", [], None)]),
    ("@m\ndef f(): pass", [("m", D, "def f():\n    pass", [], None)]), ("@m\nclass C: pass", [("m", D, "class C:\n    pass", [], None)]), ("@m\nasync def f(): pass", []), ("@m(a)\ndef f(): pass", []), ("@m()\ndef f(): pass", "SyntaxError"), ("@m[a]\ndef f(): pass", [("m", E, "a", [], None)]), ("@m.y\ndef f(): pass", []),
    ("@p[a]\ndef f(): pass", [("p", D, "def f():\n    pass", ["a"], None)]), ("@p(a, c)\ndef f(): pass", [("p", D, "def f():\n    pass", ["a", "c"], None)]), ("@p()\ndef f(): pass", "SyntaxError"), ("@p(*a)\ndef f(): pass", "SyntaxError"), ("@p(k=a)\ndef f(): pass", []),
    ("@m\n@k\ndef f(): pass", [("k", D, "@m\ndef f():\n    pass", [], None), ("m", D, "def f():\n    pass", [], None)]), ("@m\n@y\n@k\ndef f(): pass", [("k", D, "@m\n@y\ndef f():\n    pass", [], None), ("m", D, "@y\ndef f():\n    pass", [], None)]),
    ("@y\n@m\n@z\nclass C: pass", [("m", D, "@y\n@z\nclass C:\n    pass", [], None)]), ("@m\n@m\ndef f(): pass", [("m", D, "@m\ndef f():\n    pass", [], None), ("m", D, "def f():\n    pass", [], None)]),
    ("@n\ndef f(): pass", [("n", D, "def f():\n    pass", [], None)]), ("@n(a)\ndef f(): pass", [("n", NM, "n", None, None)]), ("@p[a]\n@p(c)\ndef f(): pass", [("p", D, "@p[a]\ndef f():\n    pass", ["c"], None), ("p", D, "def f():\n    pass", ["a"], None)]),
    ("m[k[x]]", [("m", E, "k[x]", [], None), ("k", E, "x", [], None)]), ("m[x] + k[y]", [("m", E, "x", [], None), ("k", E, "y", [], None)]), ("m[x] = k[y]", [("m", E, "x", [], None), ("k", E, "y", [], None)]), ("del m[x]", [("m", E, "x", [], None)]), ("x: m[y]", [("m", E, "y", [], None)]),
    ("f'{m[x]}'", [("m", E, "x", [], None)]), ("def f(a=m[x]) -> k[y]: pass", [("m", E, "x", [], None), ("k", E, "y", [], None)]), ("[m[x] for q in k[y]]", [("m", E, "x", [], None), ("k", E, "y", [], None)]), ("lambda: m[x]", [("m", E, "x", [], None)]),
    ("if x:\n  pass\nelse:\n  m[x]", [("m", E, "x", [], None)]), ("try: m[x]\nfinally: k[y]", [("m", E, "x", [], None), ("k", E, "y", [], None)]), ("match x:\n  case 1 if m[x]: k[y]", [("m", E, "x", [], None), ("k", E, "y", [], None)]),
    ("x[m[y]]", [("m", E, "y", [], None)]), ("m[x][k[y]]", [("m", E, "x", [], None), ("k", E, "y", [], None)]), ("x = m", []), ("m = 1", []), ("def m(): m", []), ("print(m, p)", []), ("p[a]", [("p", E, "a", [], None)]), ("m[p][x]", [("m", E, "p", [], None)]),
]
LEGIT_ORDER = lambda calls: calls

@case("C05", "table of candidate shapes x positions x (plain, parametric, name, both) macro kinds")
def table(R):
    for code, want in TABLE:
        for wrapped_in in ("{}", "if w:\n{i}", "class Z:\n{i}", "def g():\n{i}", "with other:\n{i}", "while w:\n  pass\nelse:\n{i}"):
            src = wrapped_in.format(code, i=textwrap.indent(code, "    "))
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore"); tree = ast.parse(src)
            except SyntaxError as e:
                R.fail("table entry does not parse", src, repr(e)); continue
            before = dump(tree)
            calls, bindings = recorder()
            e = mk_expander(bindings)
            inv = [U(tree)]
            R.note(src)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore"); out = e.visit(tree); err = None
            except Exception as ex: err = ex
            if want == "SyntaxError":
                if not (isinstance(err, SyntaxError) or isinstance(err and err.__cause__, SyntaxError)): R.fail("malformed macro arguments are not refused with a SyntaxError", src, repr(err))
                continue
            if err is not None: R.fail("expansion fails", src, repr(err)); continue
            if [c[:5] for c in calls] != want: R.fail("macro calls", src, f"expected {want}\n     got {[c[:5] for c in calls]}")
            if not all(c[6] is e for c in calls): R.fail("macro does not get the expander", src)
            if not want and dump(tree) != before: R.fail("code without macro invocations is changed", src, dump(tree))
            # single invocations: the `invocation` argument is the complete invocation
            if len(want) == 1 and wrapped_in == "{}":
                if want[0][1] in (D, B_) and not code.startswith("async") and calls[0][5] != U(ast.parse(code)): R.fail("invocation argument is not the complete invocation", src, calls[0][5])
                if want[0][1] == E and calls[0][5] not in U(ast.parse(code)): R.fail("invocation argument is not the complete invocation", src, calls[0][5])
            # the collector: same invocations, no duplicates (args are collected too; none contain macros here except by nesting)
            mc = MacroCollector(mk_expander(bindings))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mc.visit(ast.parse(src))
            if sorted(mc.collected) != sorted({(c[0], c[1]) for c in want}): R.fail("collected invocations", src, f"expected {sorted({(c[0], c[1]) for c in want})}\n     got {mc.collected}")

def ref_collect(tree, bound, names, params):
    """Every invocation in tree, per the documented syntax."""
    ref = Ref({b: None for b in bound}, "f", names, params)
    out = set()
    def go(t):
        if isinstance(t, list):
            for x in t: go(x)
            return
        if not isinstance(t, ast.AST) or isinstance(t, Done): return
        if isinstance(t, ast.Subscript):
            c = ref.cand(t.value, "expr")
            if c: out.add((c[0], "expr")); go(list(c[1])); go(t.slice); return
        elif isinstance(t, ast.With):
            ms = [i for i in t.items if ref.iscand(i.context_expr)]
            if ms:
                for i in ms:
                    n, a = ref.cand(i.context_expr, "block"); out.add((n, "block")); go(list(a))
                go([i for i in t.items if i not in ms]); go(t.body)
                return
        elif isinstance(t, (ast.FunctionDef, ast.ClassDef)):
            for i in t.decorator_list:
                if ref.iscand(i):
                    n, a = ref.cand(i, "decorator"); out.add((n, "decorator")); go(list(a))
                else: go(i)
            for f in t._fields:
                if f != "decorator_list": go(getattr(t, f, None))
            return
        elif isinstance(t, ast.Name):
            if t.id in bound and t.id in names: out.add((t.id, "name"))
            return
        for f in t._fields: go(getattr(t, f, None))
    go(tree)
    return out

@case("C05", "random macro-using modules, random subsets of names bound")
def collector(R):
    rng = R.rng()
    Bh = behaviours()
    for i in range(6000 if R.deep else 2000):
        if R.left() < 5: break
        only = {n for n in Bh if rng.random() < .7} if i % 3 else set(Bh)
        bindings, names, params = bind(Bh, only)
        src, tree = Prog(rng, Bh, depth=rng.choice([1, 2, 3])).module()
        if i % 4 == 0:
            for n in ast.walk(tree):
                b = getattr(n, "body", None)
                if isinstance(b, list) and b and rng.random() < .3: b[0] = Done(b[0])
        before = snap(tree)
        inp = f"bound {sorted(only)}\n{src}"
        R.note(inp)
        try: want = ref_collect(tree, only, names, params)
        except SyntaxError: want = None
        mc = MacroCollector(mk_expander(bindings))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try: mc.visit(tree); got = mc.collected
            except SyntaxError: got = None
        if want is None or got is None:
            if want is not got: R.fail("malformed argument syntax: collector and documentation disagree", inp, f"{want} vs {got}")
            continue
        if len(got) != len(set(got)): R.fail("collector reports an invocation kind twice", inp, got)
        if set(got) != want: R.fail("collector differs from the invocations present", inp, f"expected {sorted(want)}\n     got {sorted(got)}")
        if snap(tree) != before: R.fail("collecting changes the tree", inp)
        # clearing and again
        mc.clear()
        if mc.collected != []: R.fail("clear", inp, mc.collected)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mc.visit(tree)
        if mc.collected != got: R.fail("collecting again after clear", inp, f"{got}\n{mc.collected}")

@case("C05", "random macro-using modules with argument-bearing macros (inputs compared with the reference)")
def inputs(R):
    rng = R.rng()
    Bh = {k: v for k, v in behaviours().items() if k in ("m_id", "m_wrap", "m_dup", "m_args", "m_emit", "n_a", "n_c", "m_once")}
    for i in range(3000 if R.deep else 700):
        if R.left() < 5: break
        bindings, names, params = bind(Bh)
        src, tree = Prog(rng, Bh, depth=rng.choice([1, 2, 3])).module()
        both(R, src, tree, Bh, bindings, names, params, ENTRIES[i % 3])

@case("C05", "corpus trees and random modules: expander with bindings for unused names, collector with bindings for used ones")
def ordinary_code(R):
    rng = R.rng()
    srcs = [(s, t) for s, t in corpus.trees()]
    srcs += [(ast.unparse(m) if False else s, m) for m, s in gen.modules(rng, 300 if R.deep else 60)]
    f = lambda tree, **kw: 1 / 0
    for s, t in srcs:
        if R.left() < 5: break
        t = copy.deepcopy(t)
        used = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
        attrs = {n.attr for n in ast.walk(t) if isinstance(n, ast.Attribute)} | {n.arg for n in ast.walk(t) if isinstance(n, (ast.arg, ast.keyword)) and n.arg} | {a.name for n in ast.walk(t) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        free = (attrs - used) | {"zz_unused"}
        before = snap(t)
        R.note(s)
        bindings = {n: (namemacro(parametricmacro(lambda tree, **kw: 1 / 0))) for n in free}
        try: out = mk_expander(bindings).visit(t)
        except Exception as e: R.fail("ordinary code: the expander fails", s, "".join(traceback.format_exception(e))[-1500:]); continue
        if snap(t) != before or out is not t: R.fail("ordinary code is changed by the expander", s, ast_diff(ast.parse(s), t) or "")
        # plain macros for the used names: nothing but Subscript/With/decorators may be an invocation
        plain = {n: (lambda tree, **kw: tree) for n in used}
        if plain:
            mc = MacroCollector(mk_expander(plain))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try: mc.visit(t)
                except SyntaxError as e:
                    try: ref_collect(t, used, set(), set())
                    except SyntaxError: continue      # name() in invocation position: the documented refusal
                    R.fail("the collector fails on ordinary code", s, repr(e)); continue
                except Exception as e: R.fail("the collector fails on ordinary code", s, "".join(traceback.format_exception(e))[-1500:]); continue
            want = ref_collect(t, used, set(), set())
            if set(mc.collected) != want: R.fail("collector on ordinary code", s, f"{sorted(want)}\n{sorted(mc.collected)}")

@case("C05", "global and local bindings, declaration predicates")
def bindings_lookup(R):
    calls, bs = recorder()
    one = {"m": bs["m"]}
    e = mk_expander({"k": bs["k"]})
    g = "vq_glob"
    R.check(e.isbound(g) is False, "isbound of an unbound name", g)
    global_bindings[g] = bs["p"]; global_bindings["k"] = bs["m"]
    try:
        R.check(e.isbound(g) is bs["p"] and e.isbound(g, global_only=True) is bs["p"], "isbound of a global binding", g)
        R.check(e.isbound("k") is bs["k"] and e.isbound("k", global_only=True) is bs["m"], "local bindings shadow global ones", "k")
        e.visit(ast.parse(f"{g}[a][x]")); R.eq(calls[-1][:4], ("p", "expr", "x", ["a"]), "globally bound macro", g)
        e.visit(ast.parse("k[x]")); R.eq(calls[-1][:4], ("k", "expr", "x", []), "locally bound macro", "k")
        R.check(mk_expander({}).isbound(g) is bs["p"], "global bindings are seen by every expander", g)
    finally:
        del global_bindings[g], global_bindings["k"]
    R.check(e.isbound(g) is False and e.isbound("k") is bs["k"], "isbound after removing a global binding", g)
    for n in "mkpnb":
        R.eq((isnamemacro(bs[n]), isparametricmacro(bs[n])), (n in "nb", n in "pb"), "declaration predicates", n)
    def f(): pass
    R.check(namemacro(f) is f and isnamemacro(f) and not isparametricmacro(f) and parametricmacro(f) is f and isparametricmacro(f), "decorators return the function and declare it", "f")
