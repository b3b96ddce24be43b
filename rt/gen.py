"""Random syntax trees: every expression, statement and pattern form of Python 3.12."""
import ast
import random

NAMES = ["a", "b", "c", "foo", "x", "y", "self", "_", "λx", "match", "type", "case"]
CONSTS = [0, 1, 7, -1, 10**20, 1.5, 1e300, float("inf"), 0.0, 1j, 2.5j, "", "s", "it's", 'say "hi"', "a\nb", "tab\t", "back\\slash", "{br}", "nul\0", "\x1b[31m", "ü€😀", "'''", '"""', "'\"", b"", b"by\xff\n", b"'\"", True, False, None, ...]

class Gen:
    def __init__(self, rng, maxdepth=4):
        self.r, self.md = rng, maxdepth
    def name(self): return self.r.choice(NAMES)
    def chance(self, p): return self.r.random() < p
    def many(self, f, lo=0, hi=3): return [f() for _ in range(self.r.randint(lo, hi))]
    # ---- expressions
    def const(self):
        c = self.r.choice(CONSTS)
        if isinstance(c, (int, float)) and not isinstance(c, bool) and c < 0: return ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=-c))
        return ast.Constant(value=c)
    def expr(self, d=0):
        if d >= self.md: return self.r.choice([self.const, lambda: ast.Name(id=self.name(), ctx=ast.Load())])()
        k = self.r.choice(["const", "name", "name", "binop", "binop", "boolop", "unary", "compare", "call", "call", "attr", "attr", "sub", "sub", "tuple", "list", "set", "dict", "lambda", "ifexp",
                           "listcomp", "setcomp", "dictcomp", "genexp", "fstr", "walrus", "await", "yield", "yieldfrom", "slice1"])
        e = lambda: self.expr(d + 1)
        if k == "const": return self.const()
        if k == "name": return ast.Name(id=self.name(), ctx=ast.Load())
        if k == "binop": return ast.BinOp(left=e(), op=self.r.choice([ast.Add, ast.Sub, ast.Mult, ast.MatMult, ast.Div, ast.Mod, ast.Pow, ast.LShift, ast.RShift, ast.BitOr, ast.BitXor, ast.BitAnd, ast.FloorDiv])(), right=e())
        if k == "boolop": return ast.BoolOp(op=self.r.choice([ast.And, ast.Or])(), values=[e() for _ in range(self.r.randint(2, 4))])
        if k == "unary": return ast.UnaryOp(op=self.r.choice([ast.Invert, ast.Not, ast.UAdd, ast.USub])(), operand=e())
        if k == "compare":
            n = self.r.randint(1, 3)
            return ast.Compare(left=e(), ops=[self.r.choice([ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Is, ast.IsNot, ast.In, ast.NotIn])() for _ in range(n)], comparators=[e() for _ in range(n)])
        if k == "call":
            args = [ast.Starred(value=e(), ctx=ast.Load()) if self.chance(.2) else e() for _ in range(self.r.randint(0, 3))]
            if self.chance(.1): args = [self.comp(ast.GeneratorExp, d)]
            kws = [ast.keyword(arg=None if self.chance(.3) else "k%d" % i, value=e()) for i in range(self.r.randint(0, 2))]
            return ast.Call(func=e(), args=args, keywords=kws)
        if k == "attr": return ast.Attribute(value=e(), attr=self.name(), ctx=ast.Load())
        if k == "sub": return ast.Subscript(value=e(), slice=self.slice(d), ctx=ast.Load())
        if k == "slice1": return ast.Subscript(value=e(), slice=self.slice(d), ctx=ast.Load())
        if k in ("tuple", "list"):
            els = [ast.Starred(value=e(), ctx=ast.Load()) if self.chance(.15) else e() for _ in range(self.r.randint(0, 3))]
            return (ast.Tuple if k == "tuple" else ast.List)(elts=els, ctx=ast.Load())
        if k == "set": return ast.Set(elts=[ast.Starred(value=e(), ctx=ast.Load()) if self.chance(.15) else e() for _ in range(self.r.randint(1, 3))])
        if k == "dict":
            n = self.r.randint(0, 3)
            return ast.Dict(keys=[None if self.chance(.25) else e() for _ in range(n)], values=[e() for _ in range(n)])
        if k == "lambda": return ast.Lambda(args=self.arguments(d, ann=False), body=e())
        if k == "ifexp": return ast.IfExp(test=e(), body=e(), orelse=e())
        if k == "listcomp": return self.comp(ast.ListComp, d)
        if k == "setcomp": return self.comp(ast.SetComp, d)
        if k == "genexp": return self.comp(ast.GeneratorExp, d)
        if k == "dictcomp": return ast.DictComp(key=e(), value=e(), generators=self.gens(d))
        if k == "fstr": return self.fstr(d)
        if k == "walrus": return ast.NamedExpr(target=ast.Name(id=self.name(), ctx=ast.Store()), value=e())
        if k == "await": return ast.Await(value=e())
        if k == "yield": return ast.Yield(value=None if self.chance(.3) else e())
        if k == "yieldfrom": return ast.YieldFrom(value=e())
    def comp(self, C, d): return C(elt=self.expr(d + 1), generators=self.gens(d))
    def gens(self, d):
        return [ast.comprehension(target=self.target(d + 2, star=False), iter=self.expr(d + 1), ifs=self.many(lambda: self.expr(d + 2), 0, 2), is_async=int(self.chance(.15))) for _ in range(self.r.randint(1, 2))]
    def fstr(self, d):
        vals = []
        for _ in range(self.r.randint(0, 3)):
            if self.chance(.4): vals.append(ast.Constant(value=self.r.choice(["txt", "it's", "{", "}}", "a\nb", 'q"q', "\\", "é"])))
            else:
                spec = None
                if self.chance(.4): spec = ast.JoinedStr(values=[ast.Constant(value=self.r.choice([">10", ".2f", "%Y", "x"]))] + ([ast.FormattedValue(value=ast.Name(id="w", ctx=ast.Load()), conversion=-1, format_spec=None)] if self.chance(.4) else []))
                vals.append(ast.FormattedValue(value=self.expr(d + 2), conversion=self.r.choice([-1, -1, 115, 114, 97]), format_spec=spec))
        return ast.JoinedStr(values=vals)
    def slice(self, d):
        o = lambda: None if self.chance(.5) else self.expr(d + 2)
        def one():
            if self.chance(.4): return ast.Slice(lower=o(), upper=o(), step=o())
            return self.expr(d + 2)
        if self.chance(.3): return ast.Tuple(elts=[one() if not self.chance(.1) else ast.Starred(value=self.expr(d + 2), ctx=ast.Load()) for _ in range(self.r.randint(0, 3))], ctx=ast.Load())
        return one()
    def arguments(self, d, ann=True):
        used = set()
        def arg():
            n = "p%d" % len(used); used.add(n)
            return ast.arg(arg=n, annotation=self.expr(d + 2) if ann and self.chance(.3) else None)
        po = [arg() for _ in range(self.r.randint(0, 2) if self.chance(.3) else 0)]
        ar = [arg() for _ in range(self.r.randint(0, 2))]
        nd = self.r.randint(0, len(po) + len(ar)) if self.chance(.5) else 0
        va = arg() if self.chance(.3) else None
        if va is not None and ann and self.chance(.2): va.annotation = ast.Starred(value=ast.Name(id="Ts", ctx=ast.Load()), ctx=ast.Load())
        ko = [arg() for _ in range(self.r.randint(0, 2) if self.chance(.4) else 0)]
        kd = [None if self.chance(.5) else self.expr(d + 2) for _ in ko]
        ka = arg() if self.chance(.3) else None
        return ast.arguments(posonlyargs=po, args=ar, vararg=va, kwonlyargs=ko, kw_defaults=kd, kwarg=ka, defaults=[self.expr(d + 2) for _ in range(nd)])
    # ---- targets
    def target(self, d=0, star=True, ctx=ast.Store, simple=False):
        k = self.r.choice(["name", "name", "name", "attr", "sub", "tuple", "list"])
        if d >= self.md or k == "name": return ast.Name(id=self.name(), ctx=ctx())
        if k == "attr": return ast.Attribute(value=self.expr(d + 2), attr=self.name(), ctx=ctx())
        if k == "sub": return ast.Subscript(value=self.expr(d + 2), slice=self.slice(d + 1), ctx=ctx())
        if simple: return ast.Name(id=self.name(), ctx=ctx())
        els = [self.target(d + 1, ctx=ctx, star=False) for _ in range(self.r.randint(0 if k == "list" else 1, 3))]
        if ctx is ast.Store and els and self.chance(.3):
            i = self.r.randrange(len(els)); els[i] = ast.Starred(value=els[i], ctx=ctx())
        return (ast.Tuple if k == "tuple" else ast.List)(elts=els, ctx=ctx())
    # ---- statements
    def body(self, d): return [self.stmt(d + 1) for _ in range(self.r.randint(1, 3))]
    def stmt(self, d=0):
        e = lambda: self.expr(1)
        simple = ["expr", "assign", "assign", "aug", "ann", "del", "return", "raise", "assert", "import", "importfrom", "global", "nonlocal", "pass", "break", "continue", "typealias"]
        comp = ["if", "if", "for", "while", "with", "with", "try", "trystar", "def", "def", "class", "match", "match", "async"]
        k = self.r.choice(simple if d >= 3 else simple + comp)
        if k == "expr": return ast.Expr(value=e())
        if k == "assign": return ast.Assign(targets=[self.target() for _ in range(self.r.randint(1, 2))], value=e(), type_comment=None)
        if k == "aug": return ast.AugAssign(target=self.target(simple=True), op=self.r.choice([ast.Add, ast.MatMult, ast.Pow, ast.FloorDiv, ast.RShift])(), value=e())
        if k == "ann":
            t = self.target(simple=True)
            return ast.AnnAssign(target=t, annotation=e(), value=e() if self.chance(.6) else None, simple=int(isinstance(t, ast.Name) and self.chance(.8)))
        if k == "del": return ast.Delete(targets=[self.target(ctx=ast.Del) for _ in range(self.r.randint(1, 3))])
        if k == "return": return ast.Return(value=e() if self.chance(.7) else None)
        if k == "raise":
            x = e() if self.chance(.8) else None
            return ast.Raise(exc=x, cause=e() if x is not None and self.chance(.4) else None)
        if k == "assert": return ast.Assert(test=e(), msg=e() if self.chance(.4) else None)
        if k == "import": return ast.Import(names=[ast.alias(name=self.r.choice(["os", "os.path", "a.b.c"]), asname=self.name() if self.chance(.4) else None) for _ in range(self.r.randint(1, 3))])
        if k == "importfrom":
            lvl = self.r.choice([0, 0, 1, 2])
            return ast.ImportFrom(module=None if lvl and self.chance(.4) else self.r.choice(["m", "m.n"]), names=[ast.alias(name="*", asname=None)] if self.chance(.15) else [ast.alias(name=self.name(), asname=self.name() if self.chance(.4) else None) for _ in range(self.r.randint(1, 3))], level=lvl)
        if k == "global": return ast.Global(names=[self.name() for _ in range(self.r.randint(1, 2))])
        if k == "nonlocal": return ast.Nonlocal(names=[self.name() for _ in range(self.r.randint(1, 2))])
        if k == "pass": return ast.Pass()
        if k == "break": return ast.Break()
        if k == "continue": return ast.Continue()
        if k == "typealias": return ast.TypeAlias(name=ast.Name(id=self.name(), ctx=ast.Store()), type_params=self.tparams(), value=e())
        orelse = lambda: self.body(d) if self.chance(.4) else []
        if k == "if":
            o = orelse()
            if self.chance(.3): o = [self.mk_if(d)]
            return ast.If(test=e(), body=self.body(d), orelse=o)
        if k == "for": return ast.For(target=self.target(1), iter=e(), body=self.body(d), orelse=orelse(), type_comment=None)
        if k == "while": return ast.While(test=e(), body=self.body(d), orelse=orelse())
        if k == "with": return ast.With(items=self.items(), body=self.body(d), type_comment=None)
        if k in ("try", "trystar"):
            hs = [ast.ExceptHandler(type=e(), name=self.name() if self.chance(.5) else None, body=self.body(d)) for _ in range(self.r.randint(0 if k == "try" else 1, 2))]
            if hs and k == "try" and self.chance(.3): hs[-1].type = None; hs[-1].name = None
            fin = self.body(d) if not hs or self.chance(.4) else []
            return (ast.Try if k == "try" else ast.TryStar)(body=self.body(d), handlers=hs, orelse=self.body(d) if hs and self.chance(.3) else [], finalbody=fin)
        if k == "def": return self.fdef(ast.FunctionDef, d)
        if k == "async":
            j = self.r.choice(["def", "for", "with"])
            if j == "def": return self.fdef(ast.AsyncFunctionDef, d)
            if j == "for": return ast.AsyncFor(target=self.target(1), iter=e(), body=self.body(d), orelse=orelse(), type_comment=None)
            return ast.AsyncWith(items=self.items(), body=self.body(d), type_comment=None)
        if k == "class": return ast.ClassDef(name=self.name(), bases=[ast.Starred(value=e(), ctx=ast.Load()) if self.chance(.15) else e() for _ in range(self.r.randint(0, 2))], keywords=[ast.keyword(arg="metaclass" if self.chance(.7) else None, value=e())] if self.chance(.3) else [], body=self.body(d), decorator_list=self.many(e, 0, 2) if self.chance(.4) else [], type_params=self.tparams())
        if k == "match": return ast.Match(subject=e(), cases=[ast.match_case(pattern=self.pattern(), guard=e() if self.chance(.3) else None, body=self.body(d)) for _ in range(self.r.randint(1, 3))])
    def mk_if(self, d): return ast.If(test=self.expr(1), body=self.body(d), orelse=self.body(d) if self.chance(.3) else [])
    def items(self): return [ast.withitem(context_expr=self.expr(1), optional_vars=self.target(1) if self.chance(.5) else None) for _ in range(self.r.randint(1, 3))]
    def tparams(self):
        if not self.chance(.25): return []
        out = []
        for i in range(self.r.randint(1, 3)):
            k = self.r.randrange(3)
            out.append(ast.TypeVar(name="T%d" % i, bound=self.expr(2) if self.chance(.4) else None) if k == 0 else ast.ParamSpec(name="P%d" % i) if k == 1 else ast.TypeVarTuple(name="Ts%d" % i))
        return out
    def fdef(self, C, d):
        return C(name=self.name(), args=self.arguments(0), body=self.body(d), decorator_list=self.many(lambda: self.expr(1), 0, 2) if self.chance(.4) else [], returns=self.expr(1) if self.chance(.3) else None, type_comment=None, type_params=self.tparams())
    # ---- patterns
    def pattern(self, d=0, closed=False):
        k = self.r.choice(["value", "value", "single", "capture", "wild", "seq", "map", "class", "or", "as", "attr"])
        if d >= 3: k = self.r.choice(["value", "single", "capture", "attr"])
        p = lambda: self.pattern(d + 1)
        if k == "value": return ast.MatchValue(value=self.pconst())
        if k == "attr": return ast.MatchValue(value=ast.Attribute(value=ast.Name(id="mod", ctx=ast.Load()), attr="K", ctx=ast.Load()))
        if k == "single": return ast.MatchSingleton(value=self.r.choice([None, True, False]))
        if k == "capture": return ast.MatchAs(pattern=None, name=self.r.choice("abcxyz"))
        if k == "wild": return ast.MatchAs(pattern=None, name=None)
        if k == "seq":
            ps = [p() for _ in range(self.r.randint(0, 3))]
            if self.chance(.4): ps.insert(self.r.randint(0, len(ps)), ast.MatchStar(name=self.r.choice([None, "rest"])))
            return ast.MatchSequence(patterns=ps)
        if k == "map":
            n = self.r.randint(0, 2)
            ks = [self.pconst() if self.chance(.8) else ast.Attribute(value=ast.Name(id="mod", ctx=ast.Load()), attr="K", ctx=ast.Load()) for _ in range(n)]
            if self.chance(.2): ks = ks + [ast.Constant(value=None)]
            return ast.MatchMapping(keys=ks, patterns=[p() for _ in ks], rest=self.r.choice([None, "rest"]))
        if k == "class":
            n, m = self.r.randint(0, 2), self.r.randint(0, 2)
            return ast.MatchClass(cls=self.r.choice([ast.Name(id="C", ctx=ast.Load()), ast.Attribute(value=ast.Name(id="m", ctx=ast.Load()), attr="C", ctx=ast.Load())]), patterns=[p() for _ in range(n)], kwd_attrs=["kw%d" % i for i in range(m)], kwd_patterns=[p() for _ in range(m)])
        if k == "or": return ast.MatchOr(patterns=[p() for _ in range(self.r.randint(2, 3))])
        if k == "as": return ast.MatchAs(pattern=p(), name=self.r.choice("abc"))
    def pconst(self):
        c = self.r.choice([1, "s", b"b", 1.5, 2j, "neg", "cplx", "ncplx"])
        C = lambda v: ast.Constant(value=v)
        if c == "neg": return ast.UnaryOp(op=ast.USub(), operand=C(3))
        if c == "cplx": return ast.BinOp(left=C(1), op=ast.Add(), right=C(2j))
        if c == "ncplx": return ast.BinOp(left=ast.UnaryOp(op=ast.USub(), operand=C(1)), op=ast.Sub(), right=C(2j))
        return C(c)

def parse_tree(tree):
    """Turn a generated tree into one the parser produces, or None if it has no source form."""
    try:
        src = ast.unparse(ast.fix_missing_locations(tree))
        return ast.parse(src), src
    except (SyntaxError, ValueError, RecursionError, AttributeError, TypeError, KeyError):
        return None, None

def modules(rng, n, depth=3, stmts=2):
    """n parser-produced modules with their source."""
    g = Gen(rng, depth)
    k = 0
    tries = 0
    while k < n and tries < n * 6:
        tries += 1
        t, src = parse_tree(ast.Module(body=[g.stmt() for _ in range(rng.randint(1, stmts))], type_ignores=[]))
        if t is None: continue
        k += 1
        yield t, src

def exprs(rng, n, depth=4):
    g = Gen(rng, depth)
    k = tries = 0
    while k < n and tries < n * 6:
        tries += 1
        t, src = parse_tree(ast.Module(body=[ast.Expr(value=g.expr())], type_ignores=[]))
        if t is None or len(t.body) != 1 or not isinstance(t.body[0], ast.Expr): continue
        k += 1
        yield t.body[0].value, src
