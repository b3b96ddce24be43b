"""C08: contexts and source locations."""
import warnings
from rt.lib import *
from rt.macrolab import *
from rt import corpus, gen
from mcpyrate.astfixers import fix_ctx, fix_locations
from mcpyrate.expander import expand_macros
from mcpyrate.core import Done

def corpus_trees(R, rng, n):
    for s, t in corpus.trees(): yield s, copy.deepcopy(t)
    for m, s in gen.modules(rng, n): yield s, m
    for p in stdlib_files(R, 60 if R.deep else 6):
        s = read_source(p)
        if s is None or len(s) > 200000: continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                yield p, ast.parse(s)
        except SyntaxError: pass

def damage(rng, t, how):
    for n in ast.walk(t):
        if "ctx" in n._fields:
            if how == "delete":
                if "ctx" in n.__dict__: del n.ctx
            elif how == "load": n.ctx = ast.Load()
            elif how == "store": n.ctx = ast.Store()
            elif how == "del": n.ctx = ast.Del()
            else:
                k = rng.randrange(4)
                if k == 0: n.__dict__.pop("ctx", None)
                else: n.ctx = [ast.Load, ast.Store, ast.Del][k - 1]()
    return t

@case("C08", "corpus, random modules and library files; contexts removed or set to random values; both sharing modes")
def contexts(R):
    rng = R.rng()
    for i, (s, t) in enumerate(corpus_trees(R, rng, 1200 if R.deep else 250)):
        if R.left() < 5: break
        want = copy.deepcopy(t)
        for how in (("delete", "random", "store") if i % 4 == 0 else (rng.choice(["delete", "load", "store", "del", "random"]),)):
            d = damage(rng, copy.deepcopy(want), how)
            for csn in (True, False):
                x = copy.deepcopy(d)
                R.note(f"{how} {csn} {s}")
                try: r = fix_ctx(x, copy_seen_nodes=csn)
                except Exception as e: R.fail("fix_ctx fails", s, repr(e)); continue
                if r is not x: R.fail("fix_ctx does not return the tree", s)
                df = ast_diff(want, r)
                if df: R.fail("context after fix_ctx is not what the position demands", f"{s}\ncontexts: {how}, copy_seen_nodes={csn}", df)
        # lists
        x = damage(rng, copy.deepcopy(want), "random").body
        r = fix_ctx(x, copy_seen_nodes=rng.random() < .5)
        df = ast_diff(want.body, r)
        if r is not x or df: R.fail("fix_ctx of a statement list", s, df)

@case("C08", "corpus and random modules in which up to 6 expression nodes are shared between positions")
def shared_nodes(R):
    rng = R.rng()
    pool = ["x", "x.y", "x[i]", "(x, y)", "[x, y.z]", "x[i].y"]
    for i, (s, t) in enumerate(corpus_trees(R, rng, 1200 if R.deep else 300)):
        if R.left() < 5: break
        if s.endswith(".py") and "\n" not in s and not R.deep: continue
        # positions: targets (Store/Del ctx nodes) and loads of the same kind of place
        slots = []
        for n in ast.walk(t):
            for f in n._fields:
                v = getattr(n, f, None)
                if isinstance(v, list): slots += [(v, k) for k, x in enumerate(v) if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript))]
                elif isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)) and not (isinstance(n, (ast.NamedExpr,)) and f == "target") and not (type(n).__name__ == "TypeAlias"): slots.append((n, f))
        if len(slots) < 2: continue
        pick = rng.sample(slots, min(len(slots), rng.choice([2, 2, 3, 6])))
        node = ast.parse(rng.choice(pool[:3]), mode="eval").body
        for o, k in pick:
            x = node
            if isinstance(o, list): o[k] = x
            else: setattr(o, k, x)
        damage(rng, t, rng.choice(["delete", "random", "load"]))
        flat = copy.deepcopy(unshare(t))
        want = fix_ctx_ref(flat)
        R.note(f"shared {ast.unparse(node) if False else type(node).__name__} x{len(pick)} in {s}")
        try: r = fix_ctx(t, copy_seen_nodes=True)
        except Exception as e: R.fail("fix_ctx fails on a shared node", s, repr(e)); continue
        df = ast_diff(want, r)
        if df: R.fail("a node shared between positions gets a wrong context", s, df)
        ids = [id(n) for n in ast.walk(r) if "ctx" in n._fields]
        if len(ids) != len(set(ids)): R.fail("nodes with a context stay shared", s)

def unshare(t):
    if isinstance(t, list): return [unshare(x) for x in t]
    if isinstance(t, ast.AST):
        n = type(t)()
        for f in t._fields:
            if hasattr(t, f): setattr(n, f, unshare(getattr(t, f)))
        return n
    return t

TARGET = {("Assign", "targets"): "S", ("AnnAssign", "target"): "S", ("AugAssign", "target"): "S", ("NamedExpr", "target"): "S", ("comprehension", "target"): "S", ("For", "target"): "S", ("AsyncFor", "target"): "S", ("withitem", "optional_vars"): "S", ("Delete", "targets"): "D", ("TypeAlias", "name"): "S"}
def fix_ctx_ref(t, ctx="L"):
    """The context every position demands, from the grammar."""
    if isinstance(t, list):
        for x in t: fix_ctx_ref(x, ctx)
        return t
    if not isinstance(t, ast.AST): return t
    if "ctx" in t._fields: t.ctx = {"L": ast.Load, "S": ast.Store, "D": ast.Del}[ctx]()
    for f in t._fields:
        v = getattr(t, f, None)
        inner = TARGET.get((type(t).__name__, f), ctx if isinstance(t, (ast.Tuple, ast.List, ast.Starred)) and f in ("elts", "value") else "L")
        if f != "ctx" and v is not None: fix_ctx_ref(v, inner)
    return t

ATTRS = ("lineno", "col_offset", "end_lineno", "end_col_offset")
def locs(t): return {a: t.__dict__[a] for a in ATTRS if a in t.__dict__}
def ref_fix(t, cur, mode):
    if t is None: return
    if isinstance(t, list):
        for x in t: ref_fix(x, cur, mode)
        return
    cur = dict(cur)
    for a, b in (("lineno", "end_lineno"), ("col_offset", "end_col_offset")):
        if a in t._attributes:
            if mode == "overwrite" or not hasattr(t, a):
                setattr(t, a, cur[a]); setattr(t, b, cur[b])
            elif mode == "update": cur[a], cur[b] = getattr(t, a), getattr(t, b, None)
    for c in ast.iter_child_nodes(t): ref_fix(c, cur, mode)

@case("C08", "corpus and random modules, locations removed at random nodes, 3 modes, references with and without locations")
def locations(R):
    rng = R.rng()
    for i, (s, t) in enumerate(corpus_trees(R, rng, 800 if R.deep else 250)):
        if R.left() < 5: break
        orig = t
        for mode in ("reference", "update", "overwrite"):
            t = copy.deepcopy(orig)
            p = rng.choice([0, .3, .3, .7, 1])
            for n in ast.walk(t):
                if "lineno" in n._attributes and rng.random() < p:
                    for a in ATTRS: n.__dict__.pop(a, None)
            ref = ast.Name(id="r", ctx=ast.Load())
            k = rng.randrange(8)
            if k: ref.lineno, ref.col_offset = 1234, 56
            if k > 1: ref.end_lineno, ref.end_col_offset = 1240, 78
            if k == 0 and rng.random() < .5: ref.lineno = 5
            tree = rng.choice([t, t, t.body]); 
            want = copy.deepcopy(tree)
            if k: ref_fix(want, {"lineno": 1234, "col_offset": 56, "end_lineno": getattr(ref, "end_lineno", None), "end_col_offset": getattr(ref, "end_col_offset", None)}, mode)
            before = {id(n): locs(n) for n in ast.walk(t)}
            inp = f"mode={mode} missing={p} reference={locs(ref)}\n{s}"
            R.note(inp)
            try: r = fix_locations(tree, ref, mode=mode)
            except Exception as e: R.fail("fix_locations fails", inp, repr(e)); continue
            if r is not tree: R.fail("fix_locations does not return the tree", inp)
            df = ast_diff(want, r, locs=True)
            if df: R.fail("locations after fix_locations", inp, df)
            if k == 0 and any(locs(n) != before[id(n)] for n in ast.walk(t)): R.fail("a reference without location must change nothing", inp)
            if k and any("lineno" in n._attributes and not (hasattr(n, "lineno") and hasattr(n, "col_offset")) for n in ast.walk(t)): R.fail("a node is left without a location", inp)
            if k and mode != "overwrite" and any(before[id(n)] and locs(n) != before[id(n)] for n in ast.walk(t)): R.fail("a location that was present is changed", inp)
    ref = ast.parse("x").body[0]
    R.check(fix_locations(None, ref, mode="reference") is None, "None is passed through", "None")

class Share:
    """Macros which put one node into several positions, or emit nodes without locations or with strange contexts."""
    def __init__(self, rng): self.rng = rng
    def bindings(self):
        from mcpyrate.expander import namemacro
        def dup(tree, *, syntax, **kw):
            if syntax != "expr": return tree
            return ast.Tuple(elts=[tree, tree])
        def asg(tree, *, syntax, **kw):
            if syntax == "expr": return tree
            n = ast.Name(id="shared")
            if syntax == "block": return [ast.Assign(targets=[n], value=n), ast.Delete(targets=[n]), ast.AugAssign(target=n, op=ast.Add(), value=n)] + tree + [ast.For(target=n, iter=n, body=[ast.Expr(n)], orelse=[])]
            return [tree, ast.Assign(targets=[ast.List(elts=[n, ast.Starred(value=n)])], value=n)]
        def sto(tree, *, syntax, **kw):
            if syntax == "expr": return ast.Attribute(value=tree, attr="z", ctx=ast.Store())
            return tree
        def nam(tree, *, syntax, **kw): return tree if syntax != "name" else ast.Attribute(value=ast.Name(id="repl", ctx=ast.Del()), attr="w", ctx=ast.Del())
        return {"dup": dup, "asg": asg, "sto": sto, "nam": namemacro(nam)}

@case("C08", "random modules with macros that share nodes, drop locations and give wrong contexts; result compiled")
def after_expansion(R):
    rng = R.rng()
    S = Share(rng)
    forms = ["dup[{e}]", "sto[{e}]", "x = dup[{e}]", "sto[{n}] = {e}", "del sto[{n}]", "nam = {e}", "del nam", "nam += {e}", "for nam in {e}:\n    {n}", "with {e} as nam:\n    {n}", "[q for nam in {e}]", "with asg:\n    x = {e}\n    with asg:\n        del {n}", "@asg\ndef f(a={e}):\n    return dup[{n}]", "a, *nam, (sto[{n}], b) = {e}",
             "nam.x = {e}", "nam.q[{e}] = 1", "x = nam.q[dup[{e}]]", "sto[{n}]: int = {e}", "f(nam, *dup[{e}], k=sto[{n}])", "async def g():\n    async for nam in {e}:\n        async with {n} as nam: pass", "import os", "global zz", "match {n}:\n    case 1: nam = {e}"]
    es = ["x", "dup[x]", "sto[y]", "nam", "f(dup[nam])", "(lambda: sto[x])", "[dup[q] for q in nam]", "dup[dup[x]]", "sto[dup[x]]", "a[dup[i]:nam]", "{nam: dup[x]}"]
    for i in range(4000 if R.deep else 700):
        if R.left() < 5: break
        src = "\n".join(rng.choice(forms).format(e=rng.choice(es), n=rng.choice(["x", "nam", "y"])) for _ in range(rng.choice([1, 1, 2, 3])))
        try: tree = ast.parse(src)
        except SyntaxError as e: R.fail("form does not parse", src, e); continue
        R.note(src)
        lines = {n.lineno for n in ast.walk(tree) if hasattr(n, "lineno")}
        orig = {}
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = expand_macros(tree, S.bindings(), filename="<vq>")
        except Exception as e: R.fail("expansion fails", src, "".join(traceback.format_exception(e))[-1500:]); continue
        want = fix_ctx_ref(unshare(out))
        df = ast_diff(want, out)
        if df: R.fail("wrong context after expansion", src, df)
        for n in ast.walk(out):
            if "lineno" in n._attributes:
                if not (hasattr(n, "lineno") and hasattr(n, "col_offset")): R.fail("a node without location after expansion", src, ast.dump(n)); break
                if n.lineno not in lines: R.fail("location is not one of the source", src, ast.dump(n)); break
        try: compile(out, "<vq>", "exec")
        except SyntaxError as e:
            if not ok_to_refuse(out): R.fail("expanded code does not compile", src, repr(e))
        except Exception as e: R.fail("expanded code does not compile", src, repr(e))

def ok_to_refuse(out):
    """Does the ordinary compiler refuse the same code as text?"""
    try: compile(ast.unparse(out), "<u>", "exec"); return False
    except SyntaxError: return True

@case("C08", "invocation location is given to unlocated macro output, located output keeps its own")
def locations_from_invocation(R):
    rng = R.rng()
    for i in range(600 if R.deep else 150):
        pad = rng.randrange(5)
        inner_loc = rng.random() < .5
        made = []
        def m(tree, *, syntax, **kw):
            new = ast.parse("w(a, [b, c.d], lambda z: e)", mode="eval").body
            for n in ast.walk(new):
                if rng.random() < .6:
                    for a in ATTRS: n.__dict__.pop(a, None)
                elif hasattr(n, "lineno"): n.lineno = n.end_lineno = 4000 + len(made); 
                made.append((n, locs(n)))
            return new if syntax == "expr" else ast.Expr(new)
        kind = rng.choice(["m[x]", "with m:\n  pass", "@m\ndef f(): pass", "q(m[x])"])
        src = "\n" * pad + kind
        tree = ast.parse(src)
        inv = tree.body[0].value if kind == "m[x]" else tree.body[0].value.args[0] if kind[0] == "q" else tree.body[0]
        at = locs(inv)
        R.note(f"{src!r} {i}")
        e = mk_expander({"m": m}, "<vq>")
        e.visit(tree)
        for n, l in made:
            if "lineno" not in n._attributes: continue
            want = l or at
            if locs(n) != want: R.fail("location of a macro-generated node", src, f"{ast.dump(n)} expected {want} got {locs(n)}"); break
