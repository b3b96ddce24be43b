"""C22: expanding quoted code agrees with ordinary expansion."""
import types
from rt.lib import *
from rt.macrolab import *
from rt.c21 import nodone, warnings_off
import mcpyrate.compiler as C
import mcpyrate.metatools as M
from mcpyrate import core
from mcpyrate.expander import MacroExpander
from mcpyrate.utils import extract_bindings

MOD = "vqc22macros"
NOLOC = ("lineno", "col_offset", "end_lineno", "end_col_offset")
def noloc(t):
    for n in ast.walk(t) if isinstance(t, ast.AST) else [m for x in t for m in ast.walk(x)]:
        for a in NOLOC:
            if a in n.__dict__: delattr(n, a)
    return t

@contextlib.contextmanager
def macromodule():
    B = behaviours()
    real, names, params = bind(B)
    m = types.ModuleType(MOD)
    for n, f in real.items():
        f.__module__, f.__qualname__ = MOD, n
        setattr(m, n, f)
    sys.modules[MOD] = m
    old = dict(core.global_bindings)       # hygienically captured macros of one program must not reach the next one's macro module
    try: yield B, real, names, params
    finally:
        sys.modules.pop(MOD, None)
        core.global_bindings.clear(); core.global_bindings.update(old)

HEAD = f"from {MOD} import macros, %s\nfrom mcpyrate.quotes import macros, q%s\nfrom mcpyrate.metatools import macros, expand1sq, expandsq, expand1s, expands, expand1rq, expandrq, expand1r, expandr, macro_bindings, fill_location, expand_first, stepr\n"
def crun(src):
    m = C.create_module()
    try: return C.run(src, m)
    finally: sys.modules.pop(m.__name__, None)
def run(src, B, ops=""):
    with warnings_off():
        return crun(HEAD % (", ".join(sorted(B)), ops) + src)

def direct(real, t, mode):
    """What direct expansion makes of t."""
    e = mk_expander(real, "<vq>")
    t = copy.deepcopy(t)
    with warnings_off():
        return e.visit_once(t).body if mode == "1" else e.visit_recursively(t)

def same(R, what, inp, want, got):
    want, got = (nodone(copy.deepcopy(x)) for x in (want, got))
    if isinstance(want, (ast.AST, list)) != isinstance(got, (ast.AST, list)): return R.fail(what, inp, f"expected {want!r}, got {got!r}")
    d = ast_diff(want, got, ctx=False)
    R.check(not d, what, inp, d)

def chain(x):
    while x.__cause__ is not None: x = x.__cause__
    return type(x).__name__

EXPR = ["expand1sq[{}]", "expandsq[{}]", "expand1s[q[{}]]", "expands[q[{}]]", "expand1rq[{}]", "expandrq[{}]", "expand1r[q[{}]]", "expandr[q[{}]]"]
def mode(tool): return "1" if "1" in tool.split("[")[0] else "r"

@case("C22", "8 tools on random quoted expressions (depth 2) with 18 macro behaviours; each against direct expansion with the same bindings")
def expressions(R):
    rng = R.rng()
    with macromodule() as (B, real, names, params):
        for i in range(700 if R.deep else 130):
            if R.left() < 5: break
            p = Prog(rng, B, depth=2)
            srcs = []
            while len(srcs) < 4:
                s = p.expr(2)
                try:
                    with warnings_off(): ast.parse(s, mode="eval")
                except SyntaxError: continue
                srcs.append(s)
            for s in srcs:
                t = ast.parse(s, mode="eval").body
                ws = {}
                for m in "1r":
                    try: ws[m] = direct(real, t, m)
                    except Exception as x: ws[m] = x
                bad = any(isinstance(w, Exception) for w in ws.values())
                inp = "\n".join(f"X{k} = " + tool.format(s) for k, tool in enumerate(EXPR)) + "\n"
                R.note(inp)
                if bad:
                    for tool in EXPR:
                        m = mode(tool)
                        if not isinstance(ws[m], Exception): continue
                        code = "X = " + tool.format(s) + "\n"
                        try: run(code, B)
                        except Exception as x: R.eq(chain(x), chain(ws[m]), "the error of the expansion", code)
                        else: R.fail("direct expansion fails, the tool does not", code, repr(ws[m]))
                    continue
                try: mod = run(inp, B)
                except Exception as x:
                    R.fail("direct expansion works, the tool fails", inp, f"{x!r} {x.__cause__!r}"); continue
                for k, tool in enumerate(EXPR):
                    same(R, "tool and direct expansion differ: " + tool, tool.format(s), ws[mode(tool)], getattr(mod, f"X{k}"))

BLOCK = ["expand1sq", "expandsq", "expand1rq", "expandrq"]
@case("C22", "4 tools on random quoted blocks (statement depth <= 2)")
def blocks(R):
    rng = R.rng()
    with macromodule() as (B, real, names, params):
        for i in range(900 if R.deep else 170):
            if R.left() < 5: break
            p = Prog(rng, B, depth=rng.choice([1, 2]))
            s, t = p.module()
            body = "".join("    " + l + "\n" for l in s.rstrip("\n").split("\n"))
            inp = "".join(f"with {tool} as X{k}:\n{body}" for k, tool in enumerate(BLOCK))
            R.note(inp)
            ws = {}
            for k, tool in enumerate(BLOCK):
                tt = copy.deepcopy(t.body)
                if "rq" in tool: noloc(tt)
                try: ws[k] = direct(real, tt, mode(tool))
                except Exception as x: ws[k] = x
            if any(isinstance(w, Exception) for w in ws.values()): continue
            try: mod = run(inp, B)
            except Exception as x:
                R.fail("direct expansion works, the tool fails", inp, f"{x!r} {x.__cause__!r}"); continue
            for k, tool in enumerate(BLOCK):
                w, g = strip_cov(ws[k]), strip_cov(getattr(mod, f"X{k}"))
                same(R, "tool and direct expansion differ: " + tool, f"with {tool} as X:\n{body}", w, g)

def strip_cov(t):
    """Leave out the coverage dummies: the line they name depends on where the block stands."""
    if t is None: return t
    t = nodone(copy.deepcopy(t))
    def iscov(x): return isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "_mcpyrate_coverage"
    for n in [m for x in (t if isinstance(t, list) else [t]) for m in ast.walk(x)]:
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(n, f, None), list): setattr(n, f, [x for x in getattr(n, f) if not iscov(x)])
    t = [x for x in t if not iscov(x)] if isinstance(t, list) else t
    return t or None

@case("C22", "code without invocations: 8 expression tools and 4 block tools on generated code; unquoted parts are spliced before run-time expansion")
def without_invocations(R):
    rng = R.rng()
    from rt.gen import exprs, modules
    with macromodule() as (B, real, names, params):
        used = set(B) | {"q", "u", "n", "a", "s", "t", "h", "stepr", "expand_first", "fill_location", "macro_bindings"} | set(BLOCK) | {x.split("[")[0] for x in EXPR}
        k = 0
        for t, s in exprs(rng, 400 if R.deep else 90, 2):
            if R.left() < 5: break
            if used & {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}: continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(t)): continue
            try: ast.parse(f"({s})", mode="eval")
            except SyntaxError: continue
            t = ast.parse(f"({s})", mode="eval").body
            src = "\n".join(f"X{k} = " + tool.format(f"({s})") for k, tool in enumerate(EXPR)) + "\n"
            R.note(src)
            try: mod = run(src, B)
            except Exception as x: R.fail("code without invocations fails", src, f"{x!r} {x.__cause__!r}"); continue
            for k, tool in enumerate(EXPR): same(R, "code without invocations is changed by " + tool, s, t, getattr(mod, f"X{k}"))
        for src, wants in [("x = q[m_id[7]]\nX = expandrq[f(a[x])]\n", "f(7)"), ("x = q[m_wrap[7]]\nX = expand1rq[f(a[x])]\n", "f(W(7))"), ("X = expandrq[m_wrap[u[3 + 4]]]\n", "W(7)"), ("x = q[m_wrap[m_wrap[y]]]\nX = expand1r[x]\nY = expand1r[q[g(a[x])]]\nassert type(Y.args[0].args[0]).__name__ == 'Subscript'\n", "W(m_wrap[y])"),
                           ("x = q[m_wrap[m_wrap[y]]]\nX = expandr[expand1r[x]]\n", "W(W(y))"), ("X = expands[expand1s[q[m_wrap[m_wrap[m_wrap[y]]]]]]\n", "W(W(W(y)))"), ("X = expand1s[expand1s[q[m_wrap[m_wrap[m_wrap[y]]]]]]\n", "W(W(m_wrap[y]))"),
                           ("X = expand1s[expand1sq[m_wrap[m_wrap[m_wrap[y]]]]]\n", "W(W(m_wrap[y]))"), ("X = expandr[expand1sq[m_wrap[m_wrap[m_wrap[y]]]]]\n", "W(W(W(y)))"), ("m_wrap_local = 1\nX = expandsq[m_wrap[m_wrap_local]]\n", "W(m_wrap_local)"),
                           ("X = expandrq[n_b]\n", "bee"), ("def go(t): return expandr[t]\nX = go(q[m_wrap[m_id[5]]])\n", "W(5)"), ("X = [expand1r[t_] for t_ in [q[m_wrap[m_id[5]]]]][0]\n", "W(m_id[5])")]:
            R.note(src)
            mod = run(src, B, ", a, u")
            same(R, "a tool on mixed quoted and unquoted code", src, ast.parse(wants, mode="eval").body, mod.X)
        for tool in EXPR:
            for syn in (f"@{tool.split('[')[0]}\ndef f(): pass\n",):
                R.raises(Exception, lambda: run(syn, B), "decorator form is an error", syn)
        for tool in ("expand1s", "expands"):
            for v in ("x", "3", "f(x)", "[x]"):
                R.raises(Exception, lambda: run(f"x = q[y]\nX = {tool}[{v}]\n", B), "only quoted code can be expanded at macro expansion time", f"{tool}[{v}]")

@case("C22", "macro_bindings snapshots under random import orders and aliases")
def bindings_snapshot(R):
    rng = R.rng()
    with macromodule() as (B, real, names, params):
        for i in range(60):
            ns = rng.sample(sorted(B), rng.randrange(1, 6))
            al = [f"z{k}" if rng.random() < .4 else n for k, n in enumerate(ns)]
            src = "from mcpyrate.metatools import macros, macro_bindings\n" + "".join(f"from {MOD} import macros, {n}" + (f" as {b}" if n != b else "") + "\n" for n, b in zip(ns, al)) + "def g(): return macro_bindings\nX = macro_bindings\nY = g()\n"
            R.note(src)
            with warnings_off():
                mod = crun(src)
            for v in (mod.X, mod.Y):
                got = {k: f for k, f in v.items() if not k.startswith("_") and "uuid" not in k and k in al + ["macro_bindings"] or k in al}
                R.eq(got, {**dict(zip(al, [real[n] for n in ns])), "macro_bindings": M.macro_bindings}, "the snapshot of the bindings", src)
                e = MacroExpander(v, "f.py")
                R.check(all(e.isbound(b) for b in al), "the snapshot makes a working expander", src)
            R.check(mod.X is not mod.Y, "each evaluation gives a fresh dict", src)

@case("C22", "fill_location on random quoted code: missing locations filled, others kept")
def filling(R):
    rng = R.rng()
    with macromodule() as (B, real, names, params):
        for i in range(60):
            s = Prog(rng, B, depth=2).expr(2)
            try:
                with warnings_off(): ast.parse(s, mode="eval")
            except SyntaxError: continue
            pad = "\n" * rng.randrange(4)
            src = f"{pad}x = q[{s}]\nif True:\n    X = fill_location[x]\n"
            R.note(src)
            mod = run(src, B)
            line = 3 + len(pad) + 3
            for n in ast.walk(mod.X):
                if "lineno" in n._attributes and not (getattr(n, "lineno", None) == line and getattr(n, "col_offset", None) == 8): R.fail("location filled from the invocation", src, f"{type(n).__name__} {getattr(n, 'lineno', None)} {getattr(n, 'col_offset', None)}, expected {line} 8"); break
            same(R, "fill_location changes the tree", src, ast.parse(s, mode="eval").body, mod.X)
            t = noloc(ast.parse(s, mode="eval").body)
            kept = {}
            for n in ast.walk(t):
                if "lineno" in n._attributes and rng.random() < .4: n.lineno, n.col_offset = 77, 5; kept[id(n)] = n
            mod = run(f"{pad}\ndef fill(x):\n    return fill_location[x]\n", B)
            t2 = mod.fill(t)
            R.check(all((n.lineno, n.col_offset) == (77, 5) for n in kept.values()), "locations already there are kept", src)
            R.check(all(hasattr(n, "lineno") for n in ast.walk(t2) if "lineno" in n._attributes), "no location is left missing", src)

@case("C22", "expand_first over random blocks and random sets of macros; aliases; hygienic names; errors")
def first(R):
    rng = R.rng()
    with macromodule() as (B, real, names, params):
        for i in range(500 if R.deep else 150):
            if R.left() < 5: break
            s, t = Prog(rng, B, depth=rng.choice([1, 2])).module()
            ms = rng.sample(sorted(B), rng.randrange(1, 4))
            body = t.body
            inp = f"with expand_first[{', '.join(ms)}]:\n{s}"
            R.note(inp)
            alias = {"zz": real[ms[0]]} if rng.random() < .3 else {}
            binds = {**real, **alias}
            def go(f):
                with warnings_off():
                    try: return f(), None
                    except Exception as x: return None, x
            sub = extract_bindings(binds, *[real[m] for m in ms])
            R.eq(sorted(sub), sorted(k for k, v in binds.items() if v in [real[m] for m in ms]), "all names of the given macros are expanded first", inp)
            def want():
                a = mk_expander(sub, "<vq>").visit(copy.deepcopy(body))
                return mk_expander(binds, "<vq>").visit(a if a is not None else [])
            w, we = go(want)
            wt = ast.With(items=[ast.withitem(context_expr=ast.Subscript(value=N("expand_first"), slice=ast.Tuple(elts=[N(m) for m in ms], ctx=ast.Load()), ctx=ast.Load()))], body=copy.deepcopy(body))
            e = mk_expander({**binds, "expand_first": M.expand_first}, "<vq>")
            g, ge = go(lambda: e.visit(wt))
            if (we is None) != (ge is None): R.fail("expand_first and the two expansions in a row: only one fails", inp, f"{we!r}\n{ge!r} {ge.__cause__ if ge else None!r}"); continue
            if we is not None: continue
            same(R, "expand_first and the two expansions in a row", inp, w or [], (g or []) )
        for src in ("with expand_first:\n    x\n", "with expand_first[f(x)]:\n    x\n", "with expand_first[nosuch]:\n    x\n", "with expand_first[m_id] as z:\n    x\n", "expand_first[m_id][x]\n", "with expand_first[m_id, 3]:\n    x\n"):
            R.raises(Exception, lambda: run(src, B), "wrong use of expand_first", src)
        for src, w in [("with expand_first[q[h[m_id]]]:\n    z = m_id[3]\n", 3)]:
            R.note(src)
            mod = run("x = 1\ndef W(y): return y\n" + src, B, ", h")
            if w: R.eq(mod.z, w, "a hygienically captured name in expand_first", src)

@case("C22", "the run-time entry points called directly: bindings, filename and mode of the expander used")
def entry_points(R):
    with macromodule() as (B, real, names, params):
        seen = []
        def probe(tree, *, expander, **kw): seen.append((expander.filename, expander.recursive, dict(expander.local_bindings))); return tree
        b = {"probe": probe}
        for f, rec in ((M.runtime_expand1, False), (M.runtime_expand, True)):
            del seen[:]
            got = f(b, "some/file.py", ast.parse("probe[probe[x]]", mode="eval").body)
            R.note(f.__name__)
            R.eq(seen, [("some/file.py", rec, b)] * (2 if rec else 1), "the expander used at run time", f.__name__)
            same(R, "result", f.__name__, ast.parse("x" if rec else "probe[x]", mode="eval").body, got)
        src = "from mcpyrate.quotes import macros, q\nfrom mcpyrate.metatools import macros, expand1r, expandr\nX = expandr[q[notbound[x]]]\nY = expand1r[q[notbound[x]]]\n"
        with warnings_off(): mod = crun(src)
        same(R, "names not bound at the use site are left alone", src, ast.parse("notbound[x]", mode="eval").body, mod.X)
        same(R, "names not bound at the use site are left alone", src, ast.parse("notbound[x]", mode="eval").body, mod.Y)

@case("C22", "8 expression tools and 4 block tools inside an invocation of a macro that expands its tree by visit_once, visit_recursively or visit")
def inside_modes(R):
    rng = R.rng()
    def vq_once(tree, *, expander, **kw):
        t = expander.visit_once(tree)
        return t.body
    def vq_rec(tree, *, expander, **kw): return expander.visit_recursively(tree)
    def vq_visit(tree, *, expander, **kw): return expander.visit(tree)
    def vq_once_rec(tree, *, expander, **kw): return expander.visit_once(expander.visit_once(tree).body).body
    extra = {f.__name__: f for f in (vq_once, vq_rec, vq_visit, vq_once_rec)}
    with macromodule() as (B, real, names, params):
        for n, f in extra.items():
            f.__module__, f.__qualname__ = MOD, n
            setattr(sys.modules[MOD], n, f)
        imp = f"from {MOD} import macros, {', '.join(extra)}\n"
        fixed = ["m_wrap[m_wrap[m_wrap[y]]]", "m_wrap[y]", "f(m_wrap[m_id[3]])"]
        for i in range(60 if R.deep else 16):
            if R.left() < 5: break
            s = fixed[i] if i < len(fixed) else Prog(rng, B, depth=2).expr(2)
            try:
                with warnings_off(): t = ast.parse(s, mode="eval").body
            except SyntaxError: continue
            ws = {}
            try:
                for m in "1r": ws[m] = direct(real, t, m)
            except Exception: continue
            inp = imp + "\n".join(f"X{k}_{o} = {o}[{tool.format(s)}]" for k, tool in enumerate(EXPR) for o in extra) + "\n"
            R.note(inp)
            try: mod = run(inp, B)
            except Exception as x:
                R.fail("direct expansion works, the tool fails", inp, f"{x!r} {x.__cause__!r}"); continue
            for k, tool in enumerate(EXPR):
                for o in extra:
                    same(R, f"tool and direct expansion differ: {tool} inside {o}", f"{o}[{tool.format(s)}]", ws[mode(tool)], getattr(mod, f"X{k}_{o}"))
        for s, w in [("m_wrap[m_wrap[y]]", {"1": "W(m_wrap[y])", "r": "W(W(y))"})]:
            for o in extra:
                inp = imp + "".join(f"with {o}:\n    with {tool} as X{k}:\n        {s}\n" for k, tool in enumerate(BLOCK))
                R.note(inp)
                try: mod = run(inp, B)
                except Exception as x:
                    R.fail("direct expansion works, the tool fails", inp, f"{x!r} {x.__cause__!r}"); continue
                for k, tool in enumerate(BLOCK):
                    same(R, f"tool and direct expansion differ: {tool} inside {o}", inp, ast.parse(w["1" if "1" in tool else "r"]).body, getattr(mod, f"X{k}"))
