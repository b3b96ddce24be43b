"""C21: debugging aids only print."""
import textwrap
from rt.lib import *
from rt.macrolab import *
import mcpyrate.debug as D
from mcpyrate.core import Done
from mcpyrate.unparser import unparse_with_fallbacks
from mcpyrate.astdumper import dump as mdump
from rt.c04 import Prog

F = "vqfile.py"
@contextlib.contextmanager
def capture():
    import io
    o, e = io.StringIO(), io.StringIO()
    with warnings_off(), contextlib.redirect_stdout(o), contextlib.redirect_stderr(e): yield o, e

def noline(s):
    import re
    return re.sub(r"^ *L +(\d+|-+) ", "", s.rstrip(), flags=re.M)
def nodone(t):
    class T(ast.NodeTransformer):
        def visit_Done(self, n):
            b = n.body
            if isinstance(b, list): return many(b)
            return self.visit(b)
    def many(xs):
        out = []
        for x in xs:
            r = T().visit(x)
            if isinstance(r, list): out += r
            else: out.append(r)
        return out
    return many(t) if isinstance(t, list) else T().visit(t) if t is not None else None
def setup(fail=False):
    B = behaviours()
    if fail: B.update(failing())
    real, names, params = bind(B)
    return B, {**real, "step_expansion": D.step_expansion, "show_bindings": D.show_bindings}, names, params

def layers(B, names, params, tree, k=40):
    """tree after 0, 1, 2, ... layers, by the reference expander"""
    out = [copy.deepcopy(tree)]
    while len(out) < k:
        ref = Ref({n: v[0] for n, v in B.items()}, F, names, params); ref.recursive = False
        t = copy.deepcopy(out[-1]); del LOG[:]
        t = ref.visit(t)
        if not LOG: break
        out.append(t)
    return out

def clean(R, inp, e):
    R.check(e._debughook is None, "a debug hook is left installed", inp)
    R.check(D._step_expansion_level.value == 0, "the nesting level is not restored", inp, repr(D._step_expansion_level.value))
    R.check(e.recursive is True, "the recursion mode is not restored", inp)

def wrap_tree(t, args, block):
    h = N("step_expansion")
    if args: h = ast.Subscript(value=h, slice=ast.Tuple(elts=[ast.Constant(a) for a in args], ctx=ast.Load()) if len(args) > 1 else ast.Constant(args[0]), ctx=ast.Load())
    if block:
        w = ast.With(items=[ast.withitem(context_expr=h)], body=t, lineno=1, col_offset=0)
        ast.fix_missing_locations(w)
        return w
    return ast.fix_missing_locations(ast.copy_location(ast.Subscript(value=h, slice=t, ctx=ast.Load()), t))

OPTS = [[], ["unparse"], ["dump"], ["detailed"], ["dump", "detailed"], ["detailed", "summary"], ["summary", "unparse"], ["unparse", "detailed"]]

@case("C21", "random programs with 18 macro behaviours under step_expansion, 8 option sets, expression and block form, nested; against the plain expander and layer by layer against the reference expander")
def stepping(R):
    rng = R.rng()
    B, bindings, names, params = setup()
    skipped = 0
    for i in range(2500 if R.deep else 380):
        if R.left() < 5: break
        p = Prog(rng, B, depth=rng.choice([1, 2, 2]))
        opts = OPTS[i % len(OPTS)]
        block = rng.random() < .5
        if block: src, t = p.module(); t = t.body
        else:
            src = p.expr(2)
            try:
                with warnings_off(): t = ast.parse(src, mode="eval").body
            except SyntaxError: continue
        inp = f"step_expansion{opts} {'block' if block else 'expr'}\n{src}"
        R.note(inp)
        e1, e2 = mk_expander(bindings, F), mk_expander(bindings, F)
        del LOG[:]
        try: want = e1.visit(copy.deepcopy(t)); err = None
        except Exception as x: err = x
        wl = sorted(x[0] for x in LOG); del LOG[:]
        tree = wrap_tree(copy.deepcopy(t), opts, block)
        with capture() as (_, er):
            try: got = e2.visit(tree); gerr = None
            except Exception as x: gerr = x
        gl = list(LOG)
        clean(R, inp, e2)
        if (err is None) != (gerr is None): R.fail("the program expands with only one of stepping and not stepping", inp, f"plain {err!r}\nstepped {gerr!r} {gerr.__cause__ if gerr else ''!r}"); continue
        if err: continue
        if block:
            got = got[1:]
            if want is None: want = []
        L = layers(B, names, params, t)
        # Expanding one layer at a time is what stepping is documented to do; the two orders differ only where
        # an expansion leaves a bare macro name that forms a new invocation with the code around it.
        same = not ast_diff(nodone(copy.deepcopy(L[-1])), nodone(copy.deepcopy(want)), ctx=False)
        if not same: skipped += 1; want = L[-1]
        d = ast_diff(nodone(copy.deepcopy(want)), nodone(copy.deepcopy(got)), ctx=False)
        if d: R.fail("stepping changes what the program becomes", inp, d); continue
        if same: R.eq(sorted(x[0] for x in gl), wl, "macro calls made while stepping", inp)
        text = strip_ansi(er.getvalue())
        fmt = (lambda x: mdump(x, include_attributes=True, color=False)) if "dump" in opts else (lambda x: unparse_with_fallbacks(x, debug=True, color=False, expander=e2))
        heads = [l for l in text.split("\n") if l.startswith("**Tree")]
        tag = [h.split(") ", 1)[1] for h in heads if " processing step " not in h]
        n = len(L) - 1
        R.eq(tag, ["before macro expansion:"] + [f"after step {k}:" for k in range(1, n + 1)] + [f"macro expansion complete after {n} step{'s' if n != 1 else ''}."], "each step is reported once", inp)
        if "dump" not in opts:
            parts = []
            for l in text.split("\n"):
                if l.startswith("**Tree"): parts.append((l.split(") ", 1)[1], []))
                else: parts[-1][1].append(l)
            shown = ["\n".join(b) for h, b in parts if h.startswith(("before", "after step"))]
            for k, (s, t_k) in enumerate(zip(shown, L)):
                w = textwrap.indent(fmt(t_k), "  ")
                if not R.check(noline(s) == noline(w), f"the tree shown at step {k}", inp, f"shown\n{s}\nexpected\n{w}"): break
        if "detailed" in opts:
            R.eq(text.count("Applying ") , len(gl), "number of applications reported in detail", inp)
            # outermost-first order within each step is the order of the calls
            import re
            R.eq(re.findall(r"^ +Applying (\w+) at subtree", text, re.M), [x[0] for x in gl], "the macro applications reported in detail", inp) if not set(wl) & {"m_in", "m_once", "m_rec", "n_o"} else None
        else: R.check("Applying " not in text, "details only when asked", inp)

@contextlib.contextmanager
def warnings_off():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); yield

@case("C21", "programs with failing macros under step_expansion, 8 option sets, nested twice")
def failing_steps(R):
    rng = R.rng()
    B, bindings, names, params = setup(fail=True)
    bad = failing()
    for i in range(1500 if R.deep else 260):
        if R.left() < 5: break
        p = Prog(rng, behaviours(), depth=2, fail=bad)
        src, t = p.module(); t = t.body
        opts = OPTS[i % len(OPTS)]
        inp = f"step_expansion{opts}\n{src}"; R.note(inp)
        e1, e2 = mk_expander(bindings, F), mk_expander(bindings, F)
        def chain(x):
            while x is not None and x.__cause__ is not None: x = x.__cause__
            return type(x).__name__
        err = gerr = None
        try: e1.visit(copy.deepcopy(t))
        except Exception as x: err = chain(x)
        tree = wrap_tree([wrap_tree(copy.deepcopy(t), opts, True)], OPTS[(i // 8) % 8], True) if i % 3 == 0 else wrap_tree(copy.deepcopy(t), opts, True)
        with capture():
            try: e2.visit(tree)
            except Exception as x: gerr = chain(x)
        clean(R, inp, e2)
        R.check((err is None) == (gerr is None), "stepping changes whether expansion fails", inp, f"plain {err} stepped {gerr}")

@case("C21", "nested debug hooks: every exit, restored to what was installed before; level tracker")
def hooks(R):
    B, bindings, names, params = setup()
    calls = []
    def h(*a): calls.append(a)
    for opts in OPTS:
        for src in ("m_wrap[m_id[x]]", "m_id[m_cd[3]]", "m_none[1]"):
            for bad in (False, True):
                e = mk_expander({**bindings, "boom": failing()["f_raise"][0]}, F)
                code = f"boom[{src}]" if bad else src
                t = wrap_tree(ast.parse(code, mode="eval").body, opts, False)
                inp = f"step_expansion{opts}[{code}] under a user's debug hook"
                with e.debughook(h):
                    with capture():
                        try: e.visit(t)
                        except Exception: pass
                    R.check(e._debughook is h, "the debug hook in force before is in force after", inp, repr(e._debughook))
                clean(R, inp, e)
    for a in ("foo", 1, None, b"dump"):
        e = mk_expander(bindings, F)
        with capture():
            R.raises(Exception, lambda: e.visit(wrap_tree(ast.parse("m_id[1]", mode="eval").body, [a], False)), "unknown option", repr(a))
        clean(R, repr(a), e)
    for src in ("@step_expansion\ndef f(): pass", "show_bindings[1]", "with show_bindings: pass", "@show_bindings\ndef f(): pass"):
        e = mk_expander(bindings, F)
        with capture(): R.raises(Exception, lambda: e.visit(ast.parse(src)), "wrong syntax is an error", src)
        clean(R, src, e)

@case("C21", "show_bindings/format_bindings on random binding sets; local and global")
def bindings_report(R):
    rng = R.rng()
    from mcpyrate.utils import format_macrofunction
    from mcpyrate.core import global_bindings
    def mkf(n):
        def f(tree, **kw): return tree
        f.__name__ = f.__qualname__ = n; f.__module__ = "vqmod"
        return f
    for i in range(300):
        b = {}
        for k in range(rng.randrange(6)): b[f"vq{rng.randrange(99)}"] = mkf(f"fn{k}")
        e = mk_expander(b, F)
        before = dict(e.bindings)
        want = "Macro bindings for vqfile.py:\n" + ("".join(f"    {k}: vqmod.{b[k].__qualname__}\n" for k in sorted(b)) or "    <no bindings>\n")
        inp = repr(sorted((k, f.__qualname__) for k, f in b.items())); R.note(inp)
        R.eq(D.format_bindings(e), want, "the report of the local bindings", inp)
        R.eq(strip_ansi(D.format_bindings(e, color=True)), want, "the colored report", inp)
        g = D.format_bindings(e, globals_too=True)
        R.eq([l.split(":")[0].strip() for l in g.split("\n")[1:-1]], sorted(e.bindings) or ["<no bindings>"], "the report with the global bindings", inp)
        R.check(dict(e.bindings) == before, "reporting leaves the bindings alone", inp)
        e = mk_expander({**b, "show_bindings": D.show_bindings}, F)
        with capture() as (o, er):
            t = e.visit(ast.parse("f(show_bindings, 1)"))
        R.check(o.getvalue() == "" and er.getvalue().count("Macro bindings") == 1, "the report is printed once, to stderr", inp, o.getvalue() + er.getvalue())
        d = ast_diff(ast.parse("f((lambda: None)(), 1)"), nodone(t), ctx=False)
        R.check(not d, "show_bindings is None at run time", inp, d)

@case("C21", "modules with 0-3 dialects and StepExpansion in every position; modules with phases and step_phases")
def dialect_and_phase_stepping(R):
    import mcpyrate.compiler as C
    from mcpyrate.dialects import Dialect
    rng = R.rng()
    import types
    class DA(Dialect):
        def transform_source(self, text): return text.replace("AAA", "1")
        def transform_ast(self, tree): tree.body.append(ast.parse("da = 1").body[0]); return tree
    class DB(Dialect):
        def transform_ast(self, tree): tree.body.append(ast.parse("db = 2").body[0]); return tree
        def postprocess_ast(self, tree): tree.body.append(ast.parse("dbp = 3").body[0]); return tree
    class DC(Dialect):
        def transform_source(self, text): return text.replace("CCC", "4")
        def postprocess_ast(self, tree): return NotImplemented
    steps = {"DA": "sa", "DB": "ap", "DC": "s"}
    m = types.ModuleType("vqdial"); m.DA, m.DB, m.DC = DA, DB, DC
    sys.modules["vqdial"] = m
    try:
        for i in range(120 if R.deep else 60):
            ds = rng.sample(["DA", "DB", "DC"], rng.randrange(4))
            body = "from mcpyrate.debug import macros, show_bindings\n" * (i % 2) + "x = [AAA, CCC]\ny = 'z'\n" if {"DA", "DC"} <= set(ds) else "x = 5\n"
            lines = [f"from vqdial import dialects, {d}\n" for d in ds]
            pos = rng.randrange(len(lines) + 1)
            stepped = lines[:pos] + ["from mcpyrate.debug import dialects, StepExpansion\n"] + lines[pos:]
            # keep the line numbers the same: a blank comment line where StepExpansion is not
            plain = lines[:pos] + ["# no stepping\n"] + lines[pos:]
            a, b = "".join(plain) + body, "".join(stepped) + body
            inp = b; R.note(inp)
            with capture() as (_, e0): t0 = C.expand(a, F)
            with capture() as (_, e1): t1 = C.expand(b, F)
            t1.body = [x for x in t1.body if not (isinstance(x, ast.Import) and x.names[0].name == "mcpyrate.debug")]
            t0.body = [x for x in t0.body if not (isinstance(x, ast.Import) and x.names[0].name == "mcpyrate.debug")]
            d = ast_diff(t0, t1)
            R.check(not d, "StepExpansion changes what the program becomes", inp, d)
            R.check("ialect" not in e0.getvalue(), "no stepping unless asked", a, e0.getvalue())
            text = strip_ansi(e1.getvalue())
            import re
            got = re.findall(r"after (.+?) \(step (\d+)\)", text)
            n0 = sum("s" in steps[d] for d in ds[:pos])
            want, n = [], n0
            n += 1; want.append(("mcpyrate.debug.StepExpansion.transform_source", str(n)))
            for d in ds[pos:]:
                if "s" in steps[d]: n += 1; want.append((f"vqdial.{d}.transform_source", str(n)))
            for d in ds:
                if "a" in steps[d]: n += 1; want.append((f"vqdial.{d}.transform_ast", str(n)))
            for d in ds:
                if "p" in steps[d]: n += 1; want.append((f"vqdial.{d}.postprocess_ast" , str(n)))
            got = [(re.sub(r" (object )?at 0x[0-9a-f]+>?", "", g[0]), g[1]) for g in got]
            gotn = [(x[0].split(".")[-2] + "." + x[0].split(".")[-1], x[1]) for x in got]
            R.eq(gotn, [(x[0].split(".")[-2] + "." + x[0].split(".")[-1], x[1]) for x in want], "each dialect step is reported once, in order", inp)
    finally: del sys.modules["vqdial"]
    for i in range(40 if R.deep else 12):
        n = rng.choice([1, 2, 3])
        body = "".join(f"with phase[{k}]:\n    from mcpyrate.debug import macros, show_bindings\n    v{k} = {rng.randrange(9)}\n" for k in rng.sample(range(1, n + 1), n)) + "z = 1\n"
        res = []
        for flag in (False, True):
            src = "from mcpyrate.multiphase import macros, phase\n" + ("from mcpyrate.debug import macros, step_phases\n" if flag else "# plain\n") + body
            with capture() as (_, er):
                m = C.create_module()
                try: mod = C.run(src, m)
                finally: sys.modules.pop(m.__name__, None)
            res.append(({k: v for k, v in vars(mod).items() if not k.startswith("__")}, strip_ansi(er.getvalue())))
        R.note(src)
        R.eq(sorted(res[0][0]), sorted(res[1][0]), "the names the module defines with step_phases", src)
        R.eq({k: v for k, v in res[0][0].items() if isinstance(v, int)}, {k: v for k, v in res[1][0].items() if isinstance(v, int)}, "the values", src)
        import re
        R.eq(re.findall(r"AST for PHASE (\d+)", res[1][1]), [str(k) for k in range(n, -1, -1)], "each phase is reported once", src)
        R.check("PHASE" not in res[0][1], "no report unless asked", src, res[0][1])

@case("C21", "random trees with location fields removed at random; the validator and the formatters leave the tree alone")
def readers(R):
    from mcpyrate.utils import format_context, format_location
    rng = R.rng()
    from rt.gen import modules
    for k, (mod, src) in enumerate(modules(rng, 400 if R.deep else 120)):
        if R.left() < 5: break
        t = copy.deepcopy(mod); missing = []
        for n in ast.walk(t):
            if "lineno" in n._attributes and rng.random() < .08:
                for f in rng.choice([("lineno",), ("col_offset",), ("lineno", "col_offset")]):
                    if hasattr(n, f): delattr(n, f)
        want = []
        def go(n):
            if "lineno" in n._attributes:
                m = [f for f in ("lineno", "col_offset") if not hasattr(n, f)]
                if m: want.append((id(n), tuple(m)))
            for c in ast.iter_child_nodes(n): go(c)
        go(t)
        before = ast.dump(t, include_attributes=True)
        ig = {n for n in ast.walk(t) if "lineno" not in n._attributes}
        v = D.SourceLocationInfoValidator(ignore=ig); v.visit(t)
        R.note(src)
        R.eq(sorted((id(a), tuple(m)) for a, _, m in v.collected), sorted(want), "nodes reported as missing locations", src)
        format_context(t, n=rng.choice([1, 5])); format_location("f.py", t, None)
        R.check(ast.dump(t, include_attributes=True) == before, "reading a tree changes it", src)

@case("C21", "stepr on run-time trees against expandr")
def run_time_stepping(R):
    import mcpyrate.metatools as M
    import mcpyrate.quotes as Q
    B, bindings, names, params = setup()
    rng = R.rng()
    for i in range(150 if R.deep else 60):
        p = Prog(rng, B, depth=1); src = p.expr(2)
        try:
            with warnings_off(): t = ast.parse(src, mode="eval").body
        except SyntaxError: continue
        opts = OPTS[i % len(OPTS)]
        inp = f"stepr{opts} {src}"; R.note(inp)
        try: want = M.runtime_expand(bindings, F, copy.deepcopy(t))
        except Exception: want = None
        e = mk_expander(bindings, F)
        with capture() as (o, er):
            try: got = D.step_expansion(copy.deepcopy(t), args=[ast.Constant(x) for x in opts], syntax="expr", expander=e)
            except Exception as x: got = None
        if want is None or got is None:
            R.check(want is got, "only one of stepped and unstepped fails", inp, f"{want} {got}"); continue
        L = layers(B, names, params, t)
        d = ast_diff(nodone(L[-1]), nodone(got), ctx=False)
        R.check(not d, "stepr gives another tree than expandr", inp, d)
        R.check(o.getvalue() == "", "debug output goes to stderr", inp)
        clean(R, inp, e)
