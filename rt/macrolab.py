"""Reference macro expander (written from the documentation) and a generator of macro-using programs."""
import ast
import contextlib
import copy
import types
from rt.lib import *

LOG = []
class RefError(Exception):
    def __init__(self, chain, cause): super().__init__(chain); self.chain, self.cause = chain, cause

def done_cls():
    from mcpyrate.core import Done
    return Done

def snap(x):
    """Stable description of anything a macro gets (locations and contexts left out)."""
    if isinstance(x, list): return "[" + ",".join(snap(y) for y in x) + "]"
    if isinstance(x, ast.AST):
        return type(x).__name__ + "(" + ",".join(f"{f}={snap(getattr(x, f, None))}" for f in x._fields if f not in ("ctx", "type_params", "kind", "type_comment", "type_ignores")) + ")"
    return repr(x)

class Ref:
    """What MacroExpander is documented to do."""
    def __init__(self, bindings, filename, names=(), params=()):
        self.b, self.filename, self.recursive = bindings, filename, True
        self.names, self.params = names, params
    # -- the part of the interface macros use
    @contextlib.contextmanager
    def mode(self, r):
        old, self.recursive = self.recursive, r
        try: yield
        finally: self.recursive = old
    def visit_recursively(self, t):
        with self.mode(True): return self.visit(t)
    def visit_once(self, t):
        with self.mode(False): return done_cls()(self.visit(t))
    def visit(self, t):
        if not self.b or isinstance(t, done_cls()) or t is None: return t
        if isinstance(t, list):
            out = self.seq(t)
            if not out: return None
            t[:] = out
            return t
        f = getattr(self, "v_" + type(t).__name__, None)
        return f(t) if f else self.children(t)
    def seq(self, xs):
        out = []
        for x in xs:
            if isinstance(x, ast.AST):
                r = self.visit(x)
                if r is None: continue
                if isinstance(r, list): out += r
                else: out.append(r)
            else: out.append(x)
        return out
    def children(self, t):
        for f in t._fields:
            x = getattr(t, f, None)
            if isinstance(x, list): x[:] = self.seq(x)
            elif isinstance(x, ast.AST):
                r = self.visit(x)
                if r is None: delattr(t, f)
                else: setattr(t, f, r)
        return t
    # -- invocation syntaxes
    def cand(self, t, syntax):
        """(name, args) if t, in candidate position, invokes a macro."""
        if isinstance(t, ast.Name): n, a = t.id, []
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            n, a = t.value.id, (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice])
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and not t.keywords: n, a = t.func.id, t.args
        else: return None
        if n not in self.b: return None
        if a and n not in self.params: return None
        if isinstance(t, ast.Call):
            if not a: raise SyntaxError("no args")
            if any(isinstance(x, ast.Starred) for x in a): raise SyntaxError("splat")
        return n, a
    def iscand(self, t):
        try: return self.cand(t, None) is not None
        except SyntaxError: return True
    def v_Subscript(self, t):
        c = self.cand(t.value, "expr")
        if c is None: return self.children(t)
        r = self.expand("expr", t, c[0], t.slice, dict(args=c[1]))
        return self.none_expr(t) if r is None else r
    def v_Name(self, t):
        if t.id not in self.b or t.id not in self.names: return t
        with self.mode(False):
            r = self.expand("name", t, t.id, t, dict(args=None))
        if r is None: return self.none_expr(t)
        if isinstance(r, ast.Name) and r.id == t.id: return done_cls()(r)
        return self.visit(r) if self.recursive else r
    def v_With(self, t):
        ms = [i for i in t.items if self.iscand(i.context_expr)]
        if not ms: return self.children(t)
        it = ms[0]
        name, args = self.cand(it.context_expr, "block")
        orig = copy.copy(t); orig.items = list(t.items)
        t.items = [i for i in t.items if i is not it]
        r = self.expand("block", orig, name, [t] if t.items else t.body, dict(args=args, optional_vars=it.optional_vars))
        return self.covered(r, t, name)
    def v_FunctionDef(self, t):
        ms = [d for d in t.decorator_list if self.iscand(d)]
        if not ms: return self.children(t)
        d = ms[-1]
        name, args = self.cand(d, "decorator")
        orig = copy.copy(t); orig.decorator_list = list(t.decorator_list)
        t.decorator_list = [x for x in t.decorator_list if x is not d]
        r = self.expand("decorator", orig, name, t, dict(args=args))
        return self.covered(r, d, name)
    v_ClassDef = v_FunctionDef
    def covered(self, r, at, name):
        if not hasattr(at, "lineno"): return r
        r = [] if r is None else [r] if isinstance(r, ast.AST) else r
        mark = ast.Assign(targets=[ast.Name("_mcpyrate_coverage", ast.Store())], value=ast.Constant(f"{self.filename}:{at.lineno} invoked macro '{name}'"))
        return [done_cls()(mark)] + r
    def none_expr(self, t):
        return done_cls()(ast.parse("(lambda: None)()", mode="eval").body)
    def expand(self, syntax, target, name, tree, kw):
        try:
            r = self.b[name](tree, syntax=syntax, expander=self, invocation=target, **kw)
            if r is not None and not isinstance(r, ast.AST):
                try: r = list(r)
                except Exception as e: raise BadOutput() from e
                if not all(isinstance(x, ast.AST) for x in r): raise BadOutput()
        except RefError as e:
            raise RefError([(name, syntax, getattr(target, "lineno", None))] + e.chain, e.cause)
        except Exception as e:
            raise RefError([(name, syntax, getattr(target, "lineno", None))], e)
        if r is None: return None
        for top in (r if isinstance(r, list) else [r]):
            for n in ast.walk(top):
                if "lineno" in n._attributes and not hasattr(n, "lineno"):
                    for a in ("lineno", "col_offset"):
                        if hasattr(target, a): setattr(n, a, getattr(target, a))
        return self.visit(r) if self.recursive else r
class BadOutput(Exception): pass

# ------------------------------------------------------------------ macros
N = lambda i: ast.Name(id=i, ctx=ast.Load())
def wrapped(tree, syntax, tag):
    """Put tree somewhere where it stays legal."""
    if syntax == "block": return [ast.If(test=N(tag), body=tree if tree else [ast.Pass()], orelse=[])]
    if syntax == "decorator": return tree
    return ast.Call(func=N(tag), args=[tree], keywords=[])

def behaviours():
    """name -> (function(tree, kw) -> output, parametric?, namemacro?)"""
    def log(name, tree, kw):
        e = kw["expander"]
        extra = sorted(k for k in kw if k not in ("args", "syntax", "expander", "invocation", "optional_vars"))
        LOG.append((name, kw["syntax"], snap(tree), "-" if kw["args"] is None else snap(list(kw["args"])), snap(kw.get("optional_vars")), snap(kw["invocation"]), e.recursive, tuple(extra),
                    getattr(kw["invocation"], "lineno", None), sorted(kw) == sorted(["args", "syntax", "expander", "invocation"] + (["optional_vars"] if kw["syntax"] == "block" else []))))
    B = {}
    def mac(name, param=False, namem=False):
        def d(f):
            def g(tree, **kw):
                log(name, tree, kw)
                return f(tree, kw)
            g.__name__ = name
            B[name] = (g, param, namem)
            return f
        return d
    @mac("m_id")
    def _(tree, kw): return tree
    @mac("m_wrap", param=True)
    def _(tree, kw): return wrapped(tree, kw["syntax"], "W")
    @mac("m_in")
    def _(tree, kw): return wrapped(kw["expander"].visit(tree) or ([] if isinstance(tree, list) else ast.Constant(0)) if kw["syntax"] != "decorator" else tree, kw["syntax"], "I")
    @mac("m_once")
    def _(tree, kw):
        if kw["syntax"] == "decorator": return kw["expander"].visit_once(tree)
        if kw["syntax"] == "block": return kw["expander"].visit_once(ast.If(test=N("O"), body=tree or [ast.Pass()], orelse=[]))
        return ast.Call(func=N("O"), args=[kw["expander"].visit_once(tree)], keywords=[])
    @mac("m_rec")
    def _(tree, kw):
        if kw["syntax"] == "decorator": return tree
        r = kw["expander"].visit_recursively(tree)
        return wrapped(r or [], kw["syntax"], "R") if kw["syntax"] == "block" else wrapped(r, kw["syntax"], "R")
    @mac("m_none")
    def _(tree, kw): return None
    @mac("m_dup", param=True)
    def _(tree, kw):
        if kw["syntax"] == "block": return (x for x in [ast.Expr(N("d0"))] + tree + copy.deepcopy(tree))
        if kw["syntax"] == "decorator": return (tree, ast.Expr(N("d1")))
        return ast.Tuple(elts=[tree, copy.deepcopy(tree)], ctx=ast.Load())
    @mac("m_cd", param=True)
    def _(tree, kw):
        """Countdown: emits another invocation of itself."""
        n = tree.value if isinstance(tree, ast.Constant) and type(tree.value) is int and 0 <= tree.value < 5 else None
        if kw["syntax"] != "expr": return tree
        if n is None: return ast.BinOp(left=tree, op=ast.Add(), right=ast.Subscript(value=N("m_cd"), slice=ast.Constant(1), ctx=ast.Load()))
        if n == 0: return ast.Constant("end")
        return ast.BinOp(left=ast.Subscript(value=N("m_cd"), slice=ast.Constant(n - 1), ctx=ast.Load()), op=ast.Add(), right=N("n_a"))
    @mac("m_done")
    def _(tree, kw):
        if kw["syntax"] == "block": return [done_cls()(x) for x in tree]
        return done_cls()(tree)
    @mac("m_args", param=True)
    def _(tree, kw):
        a = list(kw["args"] or [])
        if kw["syntax"] == "expr": return ast.List(elts=a + [tree], ctx=ast.Load())
        if kw["syntax"] == "block": return [ast.Expr(x) for x in a] + tree
        return [ast.Expr(x) for x in a] + [tree]
    @mac("m_emit")
    def _(tree, kw):
        """Emits a block with two block macros and a decorated function."""
        src = ast.parse("with m_wrap as z, m_id:\n    x\n@m_id\n@other\ndef g(): n_b").body
        for top in src:
            for n in ast.walk(top):
                for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                    if hasattr(n, a): delattr(n, a)
        if kw["syntax"] == "block": return src + tree
        if kw["syntax"] == "decorator": return [tree] + src
        return tree
    @mac("n_a", namem=True)
    def _(tree, kw): return tree if kw["syntax"] == "name" else wrapped(tree, kw["syntax"], "A")
    @mac("n_b", namem=True)
    def _(tree, kw): return N("bee") if kw["syntax"] == "name" else tree
    @mac("n_c", namem=True, param=True)
    def _(tree, kw): return ast.Subscript(value=N("m_wrap"), slice=N("n_b"), ctx=ast.Load()) if kw["syntax"] == "name" else tree
    @mac("n_n", namem=True)
    def _(tree, kw): return None if kw["syntax"] == "name" else tree
    @mac("n_o", namem=True)
    def _(tree, kw): return kw["expander"].visit_once(N("n_b")) if kw["syntax"] == "name" else tree
    return B
def failing():
    B = {}
    def mac(name, f):
        def g(tree, **kw): return f(tree, kw)
        g.__name__ = name
        B[name] = (g, False, False)
    def boom(tree, kw): raise ZeroDivisionError("boom")
    mac("f_raise", boom)
    def chained(tree, kw):
        try: {}["x"]
        except KeyError as e: raise ValueError("chained") from e
    mac("f_chain", chained)
    def stop(tree, kw): raise StopIteration("s")
    mac("f_stop", stop)
    def vis(tree, kw):
        return wrapped(kw["expander"].visit_recursively(tree), kw["syntax"], "V")
    mac("f_vis", vis)
    def once(tree, kw):
        return wrapped([kw["expander"].visit_once(x) for x in tree] if isinstance(tree, list) else kw["expander"].visit_once(tree), kw["syntax"], "V")
    mac("f_once", once)
    for i, v in enumerate([42, "a string", [1], [N("x"), "y"], {"a": 1}, object(), 0, 1.5, True, [None], [[N("x")]], b"ab", ast.Name, (x for x in [3]), ([N("x")],)]):
        mac(f"f_bad{i}", lambda tree, kw, v=v: (x for x in [3]) if isinstance(v, types.GeneratorType) else v)      # a new generator each time
    def badgen(tree, kw):
        yield N("x")
        raise LookupError("in generator")
    mac("f_badgen", badgen)
    return B

def bind(B, only=None):
    """(bindings for the real expander, names, params)"""
    from mcpyrate.expander import namemacro, parametricmacro
    out = {}
    for n, (f, p, nm) in B.items():
        if only is not None and n not in only: continue
        if p: f = parametricmacro(f)
        if nm: f = namemacro(f)
        out[n] = f
    return out, {n for n, x in B.items() if x[2]}, {n for n, x in B.items() if x[1]}

# ------------------------------------------------------------------ programs
class Prog:
    def __init__(self, rng, macros, depth=3, fail=()):
        self.r, self.m, self.depth, self.fail = rng, list(macros), depth, list(fail)
    def mac(self):
        return self.r.choice(self.fail) if self.fail and self.r.random() < .35 else self.r.choice(self.m)
    def name(self): return self.r.choice(["a", "b", "c", "x", "other", "W"] + self.m[-6:])
    def args(self, d):
        k = self.r.choice([1, 1, 2, 3])
        return ", ".join(self.expr(d - 1) for _ in range(k)) + (", " if self.r.random() < .15 else "")
    def expr(self, d):
        r = self.r
        if d <= 0: return r.choice([self.name(), self.name(), str(r.randrange(6)), "'s'", "None"])
        e = lambda: self.expr(d - 1)
        return r.choice([
            lambda: self.name(), lambda: f"{self.mac()}[{e()}]", lambda: f"{self.mac()}[{e()}]", lambda: f"{self.mac()}[{self.args(d)}][{e()}]",
            lambda: f"{self.mac()}({self.args(d)})[{e()}]", lambda: f"f({e()}, {e()})", lambda: f"f(*{e()}, k={e()}, **{e()})", lambda: f"({e()} + {e()})",
            lambda: f"[{e()}, {e()}]", lambda: f"({e()} if {e()} else {e()})", lambda: f"(lambda x: {e()})", lambda: f"{{{e()}: {e()}, **{e()}}}",
            lambda: f"[{e()} for q in {e()} if {e()}]", lambda: f"{self.mac()}[{e()}, {e()}]", lambda: f"{self.mac()}({e()})", lambda: f"{self.mac()}[{e()}].attr", lambda: f"{self.mac()}.z[{e()}]",
            lambda: f"a[{e()}]", lambda: f"a[{e()}][{e()}]", lambda: f"a({e()})[{e()}]", lambda: f"{self.mac()}[{e()}:{e()}]", lambda: f"f'{{{self.name()}}} t'", lambda: f"({e()} and not {e()})",
            lambda: f"{self.mac()}(k={e()})[{e()}]",
        ])()
    def item(self, d):
        r = self.r
        s = r.choice([lambda: self.mac(), lambda: self.mac(), lambda: f"{self.mac()}[{self.args(1)}]", lambda: f"{self.mac()}({self.args(1)})", lambda: self.expr(1), lambda: "open(a)", lambda: f"{self.mac()}.b", lambda: "other"])()
        return s + r.choice([lambda: "", lambda: "", lambda: "", lambda: " as z", lambda: " as (y, *z)", lambda: f" as d[{self.expr(1)}]", lambda: f" as {self.name()}.at", lambda: f" as {self.mac()}[{self.expr(1)}]"])()
    def deco(self, d):
        r = self.r
        return r.choice([lambda: self.mac(), lambda: self.mac(), lambda: f"{self.mac()}[{self.args(1)}]", lambda: f"{self.mac()}({self.args(1)})", lambda: "other", lambda: "other(1)", lambda: f"{self.mac()}.b", lambda: f"{self.mac()}(k=1)"])()
    def block(self, d, ind):
        return "".join(self.stmt(d, ind) for _ in range(self.r.choice([1, 1, 2, 3])))
    def stmt(self, d, ind=""):
        r, i2 = self.r, ind + "    "
        if d <= 0: return ind + r.choice([self.expr(2), f"x = {self.expr(2)}", "pass", f"return_ = {self.name()}", f"del a[{self.expr(1)}]", f"{self.mac()}[{self.expr(1)}] = {self.expr(1)}"]) + "\n"
        return r.choice([
            lambda: ind + self.expr(self.depth) + "\n",
            lambda: ind + f"x = {self.expr(self.depth)}\n",
            lambda: ind + f"with {self.item(d)}:\n" + self.block(d - 1, i2),
            lambda: ind + "with " + ", ".join(self.item(d) for _ in range(r.choice([2, 2, 3, 4]))) + ":\n" + self.block(d - 1, i2),
            lambda: "".join(ind + f"@{self.deco(d)}\n" for _ in range(r.choice([1, 1, 2, 3, 4]))) + ind + f"def fn(a, b={self.expr(1)}):\n" + self.block(d - 1, i2),
            lambda: "".join(ind + f"@{self.deco(d)}\n" for _ in range(r.choice([0, 1, 2, 3]))) + ind + f"class C({self.expr(1)}):\n" + self.block(d - 1, i2),
            lambda: ind + f"if {self.expr(1)}:\n" + self.block(d - 1, i2) + (ind + "else:\n" + self.block(d - 1, i2) if r.random() < .4 else ""),
            lambda: ind + f"for q in {self.expr(1)}:\n" + self.block(d - 1, i2),
            lambda: ind + "try:\n" + self.block(d - 1, i2) + ind + f"except {self.name()}:\n" + self.block(d - 1, i2),
            lambda: ind + f"x: {self.expr(1)} = {self.expr(2)}\n",
            lambda: ind + f"assert {self.expr(2)}\n",
            lambda: "".join(ind + f"@{self.deco(d)}\n" for _ in range(r.choice([0, 1, 2]))) + ind + f"def fn(a: {self.expr(1)}, *args: {self.expr(1)}, k: {self.expr(1)} = {self.expr(1)}, **kw) -> {self.expr(1)}:\n" + self.block(d - 1, i2),
            lambda: "".join(ind + f"@{self.deco(d)}\n" for _ in range(r.choice([0, 1, 2]))) + ind + f"class C({self.expr(1)}, metaclass={self.expr(1)}, **{self.expr(1)}):\n" + self.block(d - 1, i2),
            lambda: ind + f"match {self.expr(1)}:\n" + i2 + f"case [y, *z] if {self.expr(1)}:\n" + self.block(d - 1, i2 + "    ") + i2 + "case _:\n" + self.block(d - 1, i2 + "    "),
            lambda: ind + f"while {self.expr(1)}:\n" + self.block(d - 1, i2),
            lambda: ind + f"raise {self.expr(1)} from {self.expr(1)}\n",
            lambda: ind + f"x += {self.expr(2)}\n",
            lambda: ind + "try:\n" + self.block(d - 1, i2) + ind + "finally:\n" + self.block(d - 1, i2),
            lambda: "".join(ind + f"@{self.deco(d)}\n" for _ in range(r.choice([0, 1, 2]))) + ind + f"async def co(a=await_, b={self.expr(1)}):\n" + i2 + f"async for q in {self.expr(1)}:\n" + self.block(d - 1, i2 + "    "),
        ])()
    def module(self):
        while True:
            src = "".join(self.stmt(self.r.choice([0, 1, 2, 3])) for _ in range(self.r.choice([1, 1, 2, 3])))
            try:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    return src, ast.parse(src)
            except SyntaxError: pass
            except MemoryError: pass
