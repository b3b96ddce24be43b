from rt.lib import *
from rt import corpus, gen
import mcpyrate
from mcpyrate import quotes as Q
from mcpyrate.quotes import astify, unastify
from mcpyrate.astfixers import fix_ctx
from mcpyrate.core import Done, MacroApplicationError
from mcpyrate.markers import ASTMarker

NAMES = dict(vq_q=Q.q, vq_u=Q.u, vq_n=Q.n, vq_a=Q.a, vq_s=Q.s, vq_t=Q.t, vq_h=Q.h)

def ex(): return mk_expander(dict(NAMES))
def evaluate(tree, env=None):
    t = ast.Expression(body=tree)
    fix_ctx(t, copy_seen_nodes=True); ast.fix_missing_locations(t)
    return eval(compile(t, "<vq>", "eval"), {"mcpyrate": mcpyrate, **(env or {})})
def execute(stmts, env=None):
    m = ast.Module(body=stmts, type_ignores=[])
    fix_ctx(m, copy_seen_nodes=True); ast.fix_missing_locations(m)
    g = {"mcpyrate": mcpyrate, **(env or {})}
    exec(compile(m, "<vq>", "exec"), g)
    return g
def inv(op, tree): return ast.Subscript(value=ast.Name(id=op, ctx=ast.Load()), slice=tree, ctx=ast.Load())
def located(t):
    for r in (t if isinstance(t, list) else [t]):
        for n in ast.walk(r): n.__dict__.setdefault("lineno", 1); n.__dict__.setdefault("col_offset", 0)
    return t
def quote(tree):
    """The code produced by the quasiquote macro for an expression or a list of statements, ready to evaluate."""
    if isinstance(tree, list):
        w = ast.With(items=[ast.withitem(context_expr=ast.Name(id="vq_q", ctx=ast.Load()), optional_vars=ast.Name(id="quoted", ctx=ast.Store()))], body=tree, lineno=1, col_offset=0)
        out = ex().visit(ast.Module(body=[ast.fix_missing_locations(w)], type_ignores=[]))
        return [x for x in out.body if type(x) is ast.Assign]  # without the coverage marker
    out = ex().visit(ast.Expression(body=ast.fix_missing_locations(inv("vq_q", tree))))
    return out.body
def run_quote(tree, env=None):
    code = quote(tree)
    return execute(code, env)["quoted"] if isinstance(tree, list) else evaluate(code, env)
def nodes(t): return [n for r in (t if isinstance(t, list) else [t]) for n in ast.walk(r)]

def plain(R, tree, src):
    """tree: an AST or list of statements, without quasiquotes."""
    R.current_input = src
    want = copy.deepcopy(tree)
    try: code = astify(tree)
    except Exception as e: R.check(False, "astify fails", src, repr(e)); return
    R.check(not ast_diff(tree, want, kind=True), "astify modifies its input", src)
    try: got = evaluate(copy.deepcopy(code))
    except Exception as e: R.check(False, "the quoted code does not evaluate", src, repr(e)); return
    d = ast_diff(want, got, kind=True)
    R.check(not d, "evaluating the quoted code gives another tree", src, d)
    ids = {id(n) for n in nodes(tree)}
    ns = nodes(got)
    R.check(not any(id(n) in ids for n in ns) and len({id(n) for n in ns if n._fields}) == len([n for n in ns if n._fields]), "nodes are not fresh", src)
    R.check(not any("lineno" in n.__dict__ for n in ns), "the result carries source locations", src)
    try: back = unastify(code)
    except Exception as e: R.check(False, "unastify fails", src, repr(e)); return
    d = ast_diff(want, back, kind=True)
    R.check(not d, "unastify does not undo astify", src, d)
    try: code = quote(copy.deepcopy(tree))
    except Exception as e: R.check(False, "q fails", src, repr(e) + repr(e.__cause__)); return
    try:
        block = isinstance(tree, list)
        one = execute(copy.deepcopy(code))["quoted"] if block else evaluate(copy.deepcopy(code))
        two = execute(copy.deepcopy(code))["quoted"] if block else evaluate(copy.deepcopy(code))
    except Exception as e: R.check(False, "the code made by q does not evaluate", src, repr(e)); return
    d = ast_diff(want, one, kind=True) or ast_diff(want, two, kind=True)
    R.check(not d, "q gives another tree", src, d)
    a, b = {id(n) for n in nodes(one) if n._fields}, {id(n) for n in nodes(two) if n._fields}
    R.check(not (a & b) and not (a & ids), "evaluating the quote twice shares nodes", src)
    if block and len(code) == 1 and type(code[0]) is ast.Assign: code = code[0].value
    if not isinstance(code, list):
        try: back = unastify(code)
        except Exception as e: R.check(False, "unastify(q) fails", src, repr(e)); return
        d = ast_diff(want, back, kind=True)
        R.check(not d, "unastify does not undo q", src, d)

@case("C02", "all corpus snippets (as statement lists; expressions also in expression mode)")
def snippets(R):
    for s, m in corpus.trees():
        plain(R, m.body, s)
        if len(m.body) == 1 and isinstance(m.body[0], ast.Expr): plain(R, m.body[0].value, "expr: " + s)

@case("C02", "random expressions and statement lists")
def randoms(R):
    for e, s in gen.exprs(R.rng("e"), 80 if not R.deep else 1500, 4): plain(R, e, "expr: " + s)
    for m, s in gen.modules(R.rng("m"), 50 if not R.deep else 800): plain(R, m.body, s)

def rvalue(rng, d=0):
    k = rng.random()
    if d > 2 or k < .5: return rng.choice([0, 1, -3, 2.5, 1j, "s", "", b"b", True, False, None, ..., 10**30, float("inf")])
    n = rng.randrange(0, 3)
    if k < .65: return [rvalue(rng, d + 1) for _ in range(n)]
    if k < .8: return tuple(rvalue(rng, d + 1) for _ in range(n))
    if k < .9: return {rng.choice([1, "k", None, (1, 2), b"z"]): rvalue(rng, d + 1) for _ in range(n)}
    return {rng.choice([1, "k", None, (1, 2), b"z"]) for _ in range(n + 1)}
def lift(v):
    """Reference: the tree that a plain value is lifted into."""
    T = type(v)
    if T is list: return ast.List(elts=[lift(x) for x in v])
    if T is tuple: return ast.Tuple(elts=[lift(x) for x in v])
    if T is dict: return ast.Dict(keys=[lift(x) for x in v], values=[lift(x) for x in v.values()])
    if T is set: return ast.Set(elts=[lift(x) for x in v])
    return ast.Constant(value=v)

@case("C02", "all supported value types, nested")
def values(R):
    rng = R.rng()
    for i in range(300 if not R.deep else 5000):
        v = rvalue(rng); s = repr(v); R.current_input = s
        try:
            c = astify(v)
            d = ast_diff(lift(v), c, ctx=False)
            R.check(not d, "value lifted into another tree", s, d)
            R.check(norm(evaluate(astify(v))) == norm(v), "lifted value evaluates to another value", s)
            R.check(norm(unastify(astify(v))) == norm(v), "unastify of a lifted value", s)
        except Exception as e: R.check(False, "lifting a value fails", s, repr(e))
    for bad in (object(), ASTMarker(ast.Name(id="x")), int, [object()], (1, object()), {1: object()}, ast.Expr(value=ASTMarker(ast.Pass())), frozenset({1}), len):
        R.raises(TypeError, lambda: astify(bad), "astify of an unsupported value", repr(bad))
    for bad in (ast.Name(id="x"), 5, ast.BinOp(left=ast.Constant(1), op=ast.Add(), right=ast.Constant(2))):
        R.raises(TypeError, lambda: unastify(bad), "unastify of a tree that no quote makes", repr(bad))
    for body in (ast.Name(id="x", ctx=ast.Load()), [ast.Pass()], ast.Call(func=ast.Name(id="f", ctx=ast.Load()), args=[Done(ast.Name(id="x", ctx=ast.Load()))], keywords=[])):
        t = Done(body)
        try: R.check(ast_eq(evaluate(astify(t)), t) and type(evaluate(astify(t))) is Done and ast_eq(unastify(astify(t)), t), "Done markers survive quoting", dump(t))
        except Exception as e: R.check(False, "Done markers fail", dump(t), repr(e))
def norm(v):
    T = type(v)
    if T in (list, tuple): return (T.__name__, tuple(norm(x) for x in v))
    if T is dict: return (T.__name__, tuple((norm(k), norm(x)) for k, x in v.items()))
    if T is set: return (T.__name__, tuple(sorted((repr(norm(x)) for x in v))))
    return (T.__name__, repr(v))

NSRC = ["kitty", "kitty.tail", "kitty.tail.color", "k[3].paws[2].claws", "f(x)", "a + b * c", "(yield)", "lambda: 0"]
def holes(rng, tree):
    """Replace some expression nodes (in load position) of `tree` by unquotes. -> (tree with unquotes, expected tree, env, [same-object checks])"""
    env, same = {}, []
    class T(ast.NodeTransformer):
        def __init__(self, other): self.other = other
    class Ph(ast.AST):
        _fields = ()
    plan = {}
    def pick(node):
        n = len(plan)
        v = f"v{n}"
        op = rng.choice("uuaanst")
        if op == "u": val = rvalue(rng); return op, val, lambda: lift(val)
        if op == "n": val = rng.choice(NSRC); return op, val, lambda: ast.parse(val, mode="eval").body
        if op == "a":
            val = next(gen.exprs(rng, 1, 2))[0]
            if rng.random() < .2: val = Done(val)
            return op, val, lambda: val
        val = [e for e, _ in gen.exprs(rng, rng.randrange(3), 1)]
        C = ast.List if op == "s" else ast.Tuple
        r = rng.random()
        arg = val if r < .5 else tuple(val) if r < .7 else list([val[:1], [val[1:]]]) if r < .85 else iter(val)
        return op, arg, lambda: C(elts=val)
    def splice_pick():
        es = [e for e, _ in gen.exprs(rng, rng.randrange(4), 1)]
        r = rng.random()
        return es, (es if r < .5 else tuple(es) if r < .7 else [es[:1], [es[1:2], es[2:]]] if r < .85 else (x for x in es))
    def go(n, loadpos=True):
        """-> (quoted, expected)"""
        if isinstance(n, list):
            a, b = [], []
            for x in n:
                p, q = go(x); a.append(p); b.append(q)
            return a, b
        if not isinstance(n, ast.AST): return n, n
        if isinstance(n, ast.expr) and not isinstance(n, (ast.Starred,)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and not getattr(n, "_keep", False) and rng.random() < .18 and len(plan) < 4:
            op, val, f = pick(n)
            v = f"v{len(plan)}"; plan[v] = op; env[v] = val
            e = f()
            if op == "a": same.append((v, val))
            return inv("vq_" + op, ast.Name(id=v, ctx=ast.Load())), e
        a, b = {}, {}
        if isinstance(n, ast.JoinedStr): return copy.deepcopy(n), copy.deepcopy(n)
        if isinstance(n, (ast.pattern, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef, ast.With)) : return copy.deepcopy(n), copy.deepcopy(n)
        for f, v in ast.iter_fields(n): a[f], b[f] = go(v)
        if isinstance(n, (ast.Call, ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and rng.random() < .2 and len(plan) < 4:
            fld = "args" if isinstance(n, ast.Call) else "elts"
            es, val = splice_pick()
            v = f"v{len(plan)}"; plan[v] = "a*"; env[v] = val
            k = rng.randint(0, len(a[fld]))
            a[fld].insert(k, inv("vq_a", ast.Name(id=v, ctx=ast.Load())))
            b[fld][k:k] = es
        p, q = type(n)(**a), type(n)(**b)
        for x in (p, q): ast.copy_location(x, n)
        return p, q
    qt, et = go(tree)
    return qt, et, env, same, plan

@case("C02", "random expressions and statement lists with up to 4 unquotes (u, n, a, a with lists, s, t) anywhere in load position")
def unquotes(R):
    rng = R.rng()
    n = 150 if not R.deep else 3000
    items = [(e, s) for e, s in gen.exprs(rng, n, 4)] + [(m.body, s) for m, s in gen.modules(rng, n // 2)]
    for tree, s in items:
        qt, et, env, same, plan = holes(rng, tree)
        if not plan: continue
        shown = f"{plan} in " + "\n".join(ast.unparse(located(x)) for x in (qt if isinstance(qt, list) else [qt]))
        R.current_input = shown
        try: code = quote(copy.deepcopy(qt))
        except Exception as e: R.check(False, "q with unquotes fails", shown, repr(e) + repr(e.__cause__)); continue
        code2 = copy.deepcopy(code)
        try: got = execute(code, env)["quoted"] if isinstance(qt, list) else evaluate(code, env)
        except Exception as e:
            R.check(False, "the quoted code fails", shown, "".join(traceback.format_exception(e))[-1500:]); continue
        d = ast_diff(et, got, ctx=False)
        R.check(not d, "unquoted result is another tree", shown, d)
        ids = {id(x) for x in nodes(got)}
        R.check(all(id(v) in ids for _, v in same), "`a` inserts a copy", shown)
        if any(o in ("a*", "s", "t") for o in plan.values()): continue
        try:
            if isinstance(qt, list):
                if len(code2) != 1: continue
                code2 = code2[0].value
            again = evaluate(astify(unastify(code2)), env)
            R.check(not ast_diff(et, again, ctx=False), "quoting again after unastify", shown, lambda: ast_diff(et, again, ctx=False))
        except Exception as e: R.check(False, "quoting again after unastify fails", shown, repr(e))

def nocov(t):
    """Drop the coverage markers that a block macro invocation leaves."""
    def cov(x): return type(x) is Done and isinstance(x.body, ast.Assign) and getattr(x.body.targets[0], "id", "") == "_mcpyrate_coverage"
    t = [x for x in t if not cov(x)]
    for n in nodes(t):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list): setattr(n, f, [x for x in v if not cov(x)])
    return t
@case("C02", "block-mode `with a`: nested statement positions, single nodes, lists, nested lists, several items")
def blocks(R):
    rng = R.rng()
    for i in range(60 if not R.deep else 1000):
        env, k = {}, [0]
        def item():
            ms = [m.body[0] for m, _ in gen.modules(rng, rng.randrange(0, 3), 1, 1)]
            r = rng.random()
            v = f"v{k[0]}"; k[0] += 1
            if r < .3 and ms: env[v] = ms[0]; ms = ms[:1]
            else: env[v] = ms if r < .7 else [ms[:1], [ms[1:]]]
            return ast.Expr(value=ast.Name(id=v, ctx=ast.Load())), ms
        def suite(d):
            a, b = [], []
            for _ in range(rng.randrange(1, 4)):
                r = rng.random()
                if r < .4:
                    its = [item() for _ in range(rng.randrange(1, 3))]
                    a.append(ast.With(items=[ast.withitem(context_expr=ast.Name(id="vq_a", ctx=ast.Load()), optional_vars=None)], body=[x for x, _ in its]))
                    for _, ms in its: b += ms
                elif r < .7 or d == 0:
                    a.append(ast.parse("x = 1").body[0]); b.append(ast.parse("x = 1").body[0])
                else:
                    p, q = suite(d - 1); p2, q2 = suite(d - 1) if rng.random() < .5 else ([], [])
                    t = lambda x, y: ast.If(test=ast.Name(id="c", ctx=ast.Load()), body=x, orelse=y)
                    if rng.random() < .4: t = lambda x, y: ast.FunctionDef(name="f", args=ast.parse("def f(a, *, b=1, c): pass").body[0].args, body=x, decorator_list=[], returns=None, type_params=[]); 
                    a.append(t(p, p2)); b.append(t(q, q2))
            return a, b
        p, q = suite(2)
        p = located(p)
        shown = "\n".join(ast.unparse(x) for x in p) + f"  {({k: dump(v) if isinstance(v, (list, ast.AST)) else len(v) for k, v in env.items()})}"
        R.current_input = shown
        try: got = run_quote(copy.deepcopy(p), env)
        except Exception as e: R.check(False, "block unquote fails", shown, "".join(traceback.format_exception(e))[-1500:]); continue
        d = ast_diff(q, nocov(got), ctx=False)
        R.check(not d, "block unquote gives another tree", shown, d)

# ---- nesting
def nest(rng, level, kind, d):
    """A random expression at a quote level; level 0 ones have a value of `kind` ('int' or 'ast')."""
    N = lambda x: ast.Name(id=x, ctx=ast.Load())
    if level == 0:
        if kind == "int":
            if d <= 0 or rng.random() < .5: return N(rng.choice(["i", "j"]))
            return ast.BinOp(left=nest(rng, 0, "int", d - 1), op=ast.Add(), right=nest(rng, 0, "int", d - 1))
        if d <= 0 or rng.random() < .3: return N(rng.choice(["A", "B"]))
        return inv("vq_q", nest(rng, 1, None, d - 1))
    r = rng.random()
    if d <= 0 or r < .15: return N(rng.choice(["x", "y"]))
    if r < .4: return ast.BinOp(left=nest(rng, level, None, d - 1), op=ast.Mult(), right=nest(rng, level, None, d - 1))
    if r < .6: return inv("vq_q", nest(rng, level + 1, None, d - 1))
    if r < .8: return inv("vq_u", nest(rng, level - 1, "int", d - 1))
    return inv("vq_a", nest(rng, level - 1, "ast", d - 1))
ENV = lambda: dict(i=1, j=20, A=ast.Name(id="aa", ctx=ast.Load()), B=ast.parse("bb(1)", mode="eval").body)
def value(e, env):
    """Reference evaluator at level 0."""
    if isinstance(e, ast.Name): return env[e.id]
    if isinstance(e, ast.BinOp): return value(e.left, env) + value(e.right, env)
    return tree_of(e.slice, 1, env)
def tree_of(e, level, env):
    """Reference: the tree that quoting gives, inside `level` quotes."""
    if isinstance(e, ast.Name): return e
    if isinstance(e, ast.BinOp): return ast.BinOp(left=tree_of(e.left, level, env), op=e.op, right=tree_of(e.right, level, env))
    op = e.value.id
    if op == "vq_q": return inv(op, tree_of(e.slice, level + 1, env))
    if level > 1: return inv(op, tree_of(e.slice, level - 1, env))
    v = value(e.slice, env)
    return ast.Constant(value=v) if op == "vq_u" else v

@case("C02", "random nestings of q, u and a up to depth 7")
def nesting(R):
    rng = R.rng()
    for i in range(300 if not R.deep else 5000):
        e = nest(rng, 1, None, rng.randint(2, 7))
        env = ENV(); s = "vq_q[" + ast.unparse(located(copy.deepcopy(e))) + "]"; R.current_input = s
        want = tree_of(e, 1, env)
        try: got = evaluate(quote(copy.deepcopy(e)), env)
        except Exception as ex_: R.check(False, "nested quotes fail", s, repr(ex_) + repr(ex_.__cause__)); continue
        d = ast_diff(want, got, ctx=False)
        R.check(not d, "nested quotes: wrong tree", s, d)
        R.check(Q._quotelevel.value == 0 if hasattr(Q, "_quotelevel") else True, "quote level left changed", s)

@case("C02", "misuse of each operator; the quote level afterwards")
def misuse(R):
    def expand(src):
        return ex().visit(ast.parse(src))
    ok = "vq_q[vq_u[x]]"
    for src, exc in [("vq_u[x]", SyntaxError), ("vq_n['x']", SyntaxError), ("vq_a[x]", SyntaxError), ("vq_s[x]", SyntaxError), ("vq_t[x]", SyntaxError), ("vq_h[x]", SyntaxError),
                     ("vq_q[vq_u[vq_u[x]]]", SyntaxError), ("vq_q[vq_q[vq_u[vq_u[vq_u[x]]]]]", SyntaxError), ("with vq_q:\n    pass", SyntaxError), ("with vq_q as (a, b):\n    pass", SyntaxError), ("with vq_q as x.y:\n    pass", SyntaxError),
                     ("with vq_a:\n    x", SyntaxError), ("with vq_q as quoted:\n    with vq_a as z:\n        x", SyntaxError), ("with vq_q as quoted:\n    with vq_a:\n        x = 1", SyntaxError),
                     ("with vq_q as quoted:\n    with vq_u:\n        x", SyntaxError), ("@vq_q\ndef f(): pass", SyntaxError), ("with vq_q as quoted:\n    @vq_a\n    def f(): pass", SyntaxError), ("with vq_q as quoted:\n    with vq_s:\n        x", SyntaxError)]:
        R.current_input = src
        R.note(src)
        try: quiet(expand, src)
        except MacroApplicationError as e:
            c = e
            while c.__cause__ is not None: c = c.__cause__
            if not isinstance(c, exc): R.fail("misuse: wrong cause", src, repr(c))
        except Exception as e: R.fail("misuse: wrong error", src, repr(e))
        else: R.fail("misuse accepted", src)
        try: R.check(ast_eq(evaluate(ex().visit(ast.parse(ok)).body[0].value, {"x": 1}), ast.Constant(value=1)), "a later quote is affected by a failed one", src)
        except Exception as e: R.check(False, "a later quote is affected by a failed one", src, repr(e))
    for src, env, exc in [("vq_q[vq_n[x]]", {"x": 5}, TypeError), ("vq_q[vq_n[x]]", {"x": ast.Name(id="y")}, TypeError), ("vq_q[vq_a[x]]", {"x": 5}, TypeError), ("vq_q[vq_a[x]]", {"x": ast.Pass()}, TypeError), ("vq_q[f(vq_a[x])]", {"x": [ast.Pass()]}, TypeError),
                          ("vq_q[vq_a[x]]", {"x": [ast.Name(id="y")]}, RuntimeError), ("vq_q[1 + vq_a[x]]", {"x": [ast.Name(id="y")]}, RuntimeError), ("vq_q[vq_s[x]]", {"x": 5}, TypeError), ("vq_q[vq_t[x]]", {"x": [5]}, TypeError), ("vq_q[vq_t[x]]", {"x": [ast.Pass()]}, TypeError),
                          ("vq_q[vq_u[x]]", {"x": object()}, TypeError), ("vq_q[vq_a[x]]", {"x": Done(ast.Pass())}, TypeError)]:
        R.raises(exc, lambda: evaluate(ex().visit(ast.parse(src)).body[0].value, env), "bad run-time value", f"{src} with {env}")
    code = lambda: ex().visit(ast.parse("with vq_q as quoted:\n    with vq_a:\n        x")).body
    for bad, exc in [(ast.Name(id="y"), TypeError), ([ast.Name(id="y")], TypeError), (5, TypeError), (ast.Expr(value=ast.Name(id="y")), None), (Done([ast.Pass()]), None)]:
        if exc: R.raises(exc, lambda: execute(code(), {"x": [bad] if not isinstance(bad, list) else bad}), "block unquote of a bad value", repr(bad))
