"""C06: errors of failing or misbehaving macros; accepted outputs."""
import itertools
import warnings
from rt.lib import *
from rt.macrolab import *
from rt.c04 import both, ENTRIES
from mcpyrate.core import MacroApplicationError, Done, MacroExpansionError
from mcpyrate.expander import expand_macros

ANS = lambda s: strip_ansi(s)
def flat(e): return ANS(str(e))

@case("C06", "random programs with failing and misbehaving macros (20 kinds) at random depths")
def error_reports(R):
    rng = R.rng()
    F = {k: v for k, v in failing().items() if k != "f_bad13"}     # f_bad13 is a shared generator: not repeatable
    B = {**behaviours(), **F}
    bindings, names, params = bind(B)
    n = 0
    for i in range(4000 if R.deep else 1000):
        if R.left() < 5: break
        src, tree = Prog(rng, behaviours(), depth=rng.choice([1, 2]), fail=list(F)).module()
        r = both(R, src, tree, B, bindings, names, params, ENTRIES[i % 6])
        if not r or r[1] is None: continue
        _, gexc, wexc = r
        n += 1
        inp = f"{ENTRIES[i % 6]}\n{src}"
        if isinstance(wexc, SyntaxError):
            if not isinstance(gexc, SyntaxError): R.fail("malformed invocation: not a SyntaxError", inp, repr(gexc))
            continue
        judge(R, inp, gexc, wexc.chain, wexc.cause)
    R.check(n > (100 if i > 500 else 0), "too few failing programs generated", n)

def judge(R, inp, e, chain, cause):
    """e: the exception of the real expander; chain: [(macro, syntax, lineno)] outermost first; cause: the original exception of the reference run."""
    if not isinstance(e, MacroApplicationError): R.fail("not a MacroApplicationError", inp, repr(e)); return
    text = flat(e)
    pos = 0
    for name, syntax, line in chain:
        want = f"in {syntax} macro invocation for '{name}'"
        p = text.find(want, pos)
        if p < 0: R.fail("the report does not name the macro uses outermost first", inp, f"missing {want!r} after offset {pos} in\n{text}"); return
        if line is not None:
            before = text[pos:p]
            if f"<vq>:{line}:" not in before and f"<vq>:{line}" not in before: R.fail("the report does not give file and line of a use site", inp, f"expected <vq>:{line} before {want!r} in\n{text}"); return
        pos = p + len(want)
    if text.count(" macro invocation for '") != len(chain): R.fail("the report lists a number of macro uses other than those active", inp, f"{len(chain)} active\n{text}")
    c = e.__cause__
    if isinstance(cause, BadOutput):
        if not (isinstance(c, MacroApplicationError) and c.__cause__ is None): R.fail("bad macro output: the cause is not the output report", inp, repr(c))
    elif type(c) is not type(cause) or str(c) != str(cause): R.fail("the cause is not the original exception", inp, f"expected {cause!r}\n got {c!r}")

@case("C06", "exception classes x invocation syntaxes x nesting depth 1..6 (macros expanding inside out, outside in, once)")
def nesting(R):
    class Own(Exception): pass
    class OwnBase(MacroExpansionError): pass
    def chained():
        try: 1 / 0
        except ZeroDivisionError as z: raise Own("from") from z
    excs = [ValueError("v"), Own("own"), OwnBase("mx"), SyntaxError("syn"), StopIteration("s"), KeyError("k"), AssertionError(), RuntimeError("multi\nline\ntext"), MacroApplicationError("raised by a macro"),
            ImportError("i"), RecursionError("r"), TypeError(), OSError(2, "x"), UnicodeDecodeError("utf8", b"a", 0, 1, "r"), "chained", StopAsyncIteration(), NotImplementedError(), LookupError("An exception occurred during macro expansion.")]
    for exc in excs:
        raised = []
        def boom(tree, **kw):
            try:
                if exc == "chained": chained()
                raise exc
            except Exception as e: raised.append(e); raise
        def inner(tree, *, expander, **kw): return expander.visit(tree)
        def innerrec(tree, *, expander, **kw): return expander.visit_recursively(tree)
        def inneronce(tree, *, expander, **kw): return expander.visit_once(tree)
        def outer(tree, **kw): return tree
        for depth in range(0, 6):
            for combo in ([["i", "r", "o", "t"][(depth + j) % 4] for j in range(depth)], ["i"] * depth, ["t"] * depth, ["o"] * depth):
                for kind in ("expr", "block", "decorator"):
                    bs = {"boom": boom, "i": inner, "r": innerrec, "o": inneronce, "t": outer}
                    if kind == "expr":
                        src = "\n\n" + "[\n".join(combo + ["boom"]) + "[x" + "]" * (depth + 1)
                        lines = [3 + j for j in range(depth + 1)]
                    elif kind == "block":
                        src = "\n" + "".join("    " * j + f"with {c}:\n" for j, c in enumerate(combo + ["boom"])) + "    " * (depth + 1) + "pass"
                        lines = [2 + j for j in range(depth + 1)]
                    else:
                        src = "\n" + "".join("    " * j + f"@{c}\n" + "    " * j + f"def f{j}():\n" for j, c in enumerate(combo + ["boom"])) + "    " * (depth + 1) + "pass"
                        lines = None
                    chain = []
                    names = combo + ["boom"]
                    # a macro that returns first ("t") has finished before what it contains expands
                    # ... so only the macros still running (i, r, o) plus boom are reported
                    for j, c in enumerate(names):
                        if c != "t": chain.append((c, kind, lines[j] if lines else None))
                    mode, lost = True, False           # 't' in once mode: its output is not expanded, and Done protects it later
                    for c in combo:
                        if c == "t" and not mode: lost = True
                        elif c in "ro": mode = c == "r"
                    tree = ast.parse(src)
                    del raised[:]
                    e = mk_expander(bs, "<vq>")
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore"); e.visit(tree)
                    except Exception as err:
                        inp = f"{exc!r}\n{src}"
                        R.note(inp)
                        if not isinstance(err, MacroApplicationError): R.fail("not a MacroApplicationError", inp, repr(err)); continue
                        text = flat(err)
                        if isinstance(exc, MacroApplicationError):
                            # a macro that itself raises the internal error type: still reported with its use site
                            if "'boom'" not in text: R.fail("use site missing", inp, text)
                        if len(raised) != 1: R.fail("macro applied more than once", inp, len(raised)); continue
                        if err.__cause__ is not raised[0]: R.fail("the cause is not the very exception the macro raised", inp, f"{err.__cause__!r} vs {raised[0]!r}")
                        c = exc if not isinstance(exc, str) else raised[0]
                        judge(R, inp, err, chain, c)
                        if e.recursive is not True: R.fail("mode not restored", inp)
                    else:
                        if not lost: R.fail("no exception", src, repr(exc))

def iterables(xs):
    class Seq:
        def __len__(self): return len(xs)
        def __getitem__(self, i): return xs[i]
    class It:
        def __iter__(self): return iter(list(xs))
    yield "list", list(xs); yield "tuple", tuple(xs); yield "generator", (x for x in xs); yield "iterator", iter(xs); yield "Seq", Seq(); yield "It", It(); yield "map", map(lambda x: x, xs); yield "dictkeys", {x: 1 for x in xs}.keys(); yield "dict", {x: 1 for x in xs}

@case("C06", "iterable kinds x lengths 0..3 x statement positions")
def accepted_outputs(R):
    P = lambda s: ast.parse(s).body
    hosts = ["{}", "a\n{}\nb", "if w:\n    a\n    {}", "def g():\n    {}\n    b", "while w:\n    pass\nelse:\n    {}\n    a", "class Z:\n    a\n    {}", "try:\n    a\n    {}\nexcept E:\n    {}\n    b", "match x:\n    case 1:\n        {}\n        c"]
    mark = lambda n: ast.dump(ast.parse(f"_mcpyrate_coverage = {n!r}").body[0])
    for host in hosts:
        for inv in ("with m: z", "@m\nclass Q: pass", "@m\ndef q(): pass"):
            for n in range(4):
                for kind, _ in iterables([]):
                    src = "\n".join(l.replace("{}", "") + textwrap.indent(inv, " " * (len(l) - len(l.lstrip()))).lstrip() if False else (textwrap.indent(inv, l[:len(l) - len(l.lstrip())]) if l.strip() == "{}" else l) for l in host.split("\n"))
                    k = src.count("m:") + src.count("@m")
                    def m(tree, **kw):
                        xs = P("\n".join(f"o{j}" for j in range(n)))
                        return dict(iterables(xs))[kind]
                    inp = f"{kind} of {n} nodes\n{src}"
                    R.note(inp)
                    try: out = expand_macros(ast.parse(src), {"m": m}, filename="<vq>")
                    except Exception as e: R.fail("valid macro output refused", inp, flat(e)); continue
                    got = re.sub(r"(?m)^ *_mcpyrate_coverage = .*\n?", "", ast.unparse(out) + "\n")
                    rep = lambda l: "".join(l[:len(l) - len(l.lstrip())] + f"o{j}\n" for j in range(n))
                    want = "".join(rep(l) if l.strip() == "{}" else l + "\n" for l in host.split("\n"))
                    if got.replace("\n\n", "\n").strip() != want.strip(): R.fail("macro output is not spliced in place", inp, f"expected\n{want}\ngot\n{got}")
                    cov = [x for x in ast.walk(out) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "_mcpyrate_coverage"]
                    if len(cov) != k or any("'m'" not in x.value.value or "<vq>:" not in x.value.value for x in cov): R.fail("coverage marker", inp, [ast.unparse(c) for c in cov])
                    try: compile(out, "<vq>", "exec")
                    except Exception as e: R.fail("expanded code does not compile", inp, repr(e))

@case("C06", "None in statement and expression slots of every kind; run and compared")
def nothing(R):
    def m(tree, **kw): return None
    from mcpyrate.expander import namemacro
    nm = namemacro(lambda tree, **kw: None)
    exprs = ["m[x]", "[m[x]]", "{m[x]: m[y]}", "(m[x] is None)", "[q for q in [1, 2] if m[q] is None]", "(lambda: m[x])()", "f'{m[x]}'", "dict(k=m[x])", "n", "[n, m[n]]", "(n, 1)[0]", "m[m[x]]", "(1 if m[x] is None else 2)", "list((m[1], *[m[2]]))", "(yield_ := m[x])", "not m[x]", "m[x] == n"]
    for s in exprs:
        want = eval(re.sub(r"\bm\[", "_NONE[", s), {"_NONE": type("N", (), {"__getitem__": lambda self, i: None})(), "n": None, "x": 1, "y": 2})
        R.note(s)
        try:
            t = expand_macros(ast.parse(s, mode="eval"), {"m": m, "n": nm}, filename="<vq>")
            got = eval(compile(t, "<vq>", "eval"), {})
        except Exception as e: R.fail("expression replaced by nothing: fails", s, "".join(traceback.format_exception(e))[-1500:]); continue
        if got != want: R.fail("expression replaced by nothing does not evaluate to None", s, f"{got!r} != {want!r}")
    stmts = {"a = 1\nwith m:\n    a = 2\nb = a": {"a": 1, "b": 1}, "@m\ndef f(): pass\nb = 1": {"b": 1}, "a = 0\nfor q in [1, 2]:\n    with m: a = 5\n    a += q": {"a": 3, "q": 2}, "a = 1\nif a:\n    with m: a = 2": {"a": 1},
             "a = 3\ndef f():\n    with m: pass\nb = f()": {"a": 3, "b": None}, "a = 1\nm[a]\nb = m[a]": {"a": 1, "b": None}, "class C:\n    with m: x = 1\nb = hasattr(C, 'x')": {"b": False}, "a = 1\nn\nb = n": {"a": 1, "b": None}}
    for s, want in stmts.items():
        R.note(s)
        for entry in ("expand_macros",):
            g = {}
            try:
                t = expand_macros(ast.parse(s), {"m": m, "n": nm}, filename="<vq>")
                exec(compile(t, "<vq>", "exec"), g)
            except Exception as e: R.fail("statement replaced by nothing: fails", s, "".join(traceback.format_exception(e))[-1500:]); continue
            got = {k: v for k, v in g.items() if k in want}
            extra = [k for k in g if k not in want and k not in ("__builtins__", "_mcpyrate_coverage", "f", "C")]
            if got != want or extra: R.fail("statement replaced by nothing", s, f"{got} {extra}, wanted {want}")

@case("C06", "macro outputs that are no AST, iterable of AST or None, in every syntax")
def refused_outputs(R):
    class Bad:
        def __iter__(self): raise ValueError("no")
        def __repr__(self): return "<Bad>"
    class BadRepr:
        def __repr__(self): raise ValueError("repr")
    vals = [1, 0, "s", "", b"b", 2.5, True, False, [1], [ast.Pass(), None], [None], [[ast.Pass()]], {"a": 1}, object(), Bad(), ast.Pass, [ast.Pass], (ast.Pass(), "x"), lambda: 0, ..., NotImplemented, {1, 2}, range(2), [[]], [ast.Pass(), []]]
    empty_ok = ("", b"")
    for v in vals:
        for inv in ("m[x]", "with m:\n    x", "@m\ndef f(): pass", "if a:\n    with m:\n        x"):
            inp = f"{v!r} from\n{inv}" if not isinstance(v, BadRepr) else inv
            e = mk_expander({"m": lambda tree, **kw: v}, "<vq>")
            R.note(inp)
            if isinstance(v, (str, bytes)) and not v: continue      # an empty iterable of nodes
            try: e.visit(ast.parse(inv)); R.fail("bad macro output accepted", inp); continue
            except MacroApplicationError as ex: err = ex
            except Exception as ex: R.fail("bad macro output: not a MacroApplicationError", inp, repr(ex)); continue
            line = 1 if inv[0] in "mw" else 2            # a decorated definition's own line is that of its `def`
            if f"<vq>:{line}" not in flat(err) or "macro invocation for 'm'" not in flat(err): R.fail("bad macro output: use site missing", inp, flat(err))
            c = err.__cause__
            if not isinstance(c, MacroApplicationError) or "expected macro to return AST" not in flat(c): R.fail("bad macro output: the reason is not the cause", inp, repr(c))
            if e.recursive is not True: R.fail("mode not restored", inp)

@case("C06", "failures seen through the whole pipeline: file and line of the use site")
def through_import(R):
    with scratch() as d:
        write(d, "vqmac.py", """
            import ast
            def good(tree, *, expander, **kw): return expander.visit(tree)
            def bad(tree, **kw): raise ValueError("bad one")
            def num(tree, **kw): return 42
        """)
        with on_path(d):
            for i, (body, lines, names) in enumerate([("x = bad[1]\n", [4], ["bad"]), ("def f():\n    return good[\n        bad[1]]\n", [5, 6], ["good", "bad"]), ("with good:\n    with good:\n        bad[1]\n", [4, 5, 6], ["good", "good", "bad"]), ("num[1]\n", [4], ["num"]), ("with good:\n    @bad\n    def f(): pass\n", [4, 6], ["good", "bad"])]):
                p = write(d, f"vquse{i}.py", '"""doc"""\n\nfrom vqmac import macros, good, bad, num\n' + body)
                from mcpyrate.compiler import expand
                import mcpyrate.importer
                import mcpyrate.activate
                R.note(body)
                try: importlib.import_module(f"vquse{i}")
                except MacroApplicationError as e:
                    text = flat(e); pos = 0
                    for l, n in zip(lines, names):
                        a = text.find(f"{p}:{l}", pos)
                        if a < 0: R.fail("use site file and line missing", body, f"{p}:{l} not after {pos} in\n{text}"); break
                        b = text.find(f"'{n}'", a)
                        if b < 0: R.fail("macro name missing", body, text); break
                        pos = b
                    if names[-1] == "bad" and not (isinstance(e.__cause__, ValueError) and str(e.__cause__) == "bad one"): R.fail("cause", body, repr(e.__cause__))
                except Exception as e: R.fail("not a MacroApplicationError", body, repr(e))
                else: R.fail("no error", body)
