from contracts.base import *
from contracts.c15 import exc_any
from pyvc.engine import strmul, str_replace_all, ConstDict, cls_name
import mcpyrate.unparser as UNP
from mcpyrate.unparser import Unparser
from mcpyrate.core import BaseMacroExpander

"""What each unparsing method writes, exactly, for every node of its kind: the concrete syntax of the node around the texts of
its parts (which this same contract describes: induction on the tree).  Text is taken modulo ANSI colour codes, so that colouring is
arbitrary here.  That the concrete syntax parses back into the node is the Python grammar's part, evaluated (bounded)."""
M = "mcpyrate.unparser:"; U = M + "Unparser."; sv = z3.StringVal; STRV = z3.StringSort(); I = z3.IntVal
text = z3.Function("text_of", V, Int, V, STRV)                     # a node, at an indentation level, inside a kind of try statement
block = z3.Function("text_of_all", SeqV, Int, V, STRV)             # nodes one after another
shown = z3.Function("repr_of", V, STRV)
cat = lambda *xs: z3.Concat(*[sv(x) if isinstance(x, str) else x for x in xs]) if len(xs) > 1 else (sv(xs[0]) if isinstance(xs[0], str) else xs[0])
def opt(cond, *xs): return z3.If(cond, cat(*xs), sv(""))
OPERATORS = [K for B in (ast.operator, ast.unaryop, ast.cmpop, ast.boolop) for K in B.__subclasses__()]
class Node(Contract):
    must_reach = ("return",); node = None; fields = {}; joins = (); expander = None                         # unless it matters
    def pre(self, c):
        self.eng = c.eng; u = self.u = c.obj("unparser", Unparser, exact=True); self.n = z3.Const("level", Int); self.n1 = self.n + 1; c.assume(self.n >= 0)
        self.stack = c.list("handler_modes", "str"); S0 = c.lst(self.stack); self.top = z3.If(z3.Length(S0) > 0, S0[z3.Length(S0) - 1], NONE)
        self.file = c.obj("file", object); self.color = c.var("color"); self.exp = c.obj("expander", BaseMacroExpander) if self.expander else c.var("expander") if self.expander is None else NONE; self.over = c.var("color_override"); c.assume(V.is_bool(self.color), V.is_bool(self.over), z3.Or(self.exp == NONE, z3.And(V.is_obj(self.exp), V.ov(self.exp) >= 0, V.ov(self.exp) < c.s.alloc)))
        c.assume(*[cls_name(I(cid(K))) == sv(K.__name__) for K in OPERATORS]); self.t = self.make(c)
        for k, v in dict(debug=FALSE, color=self.color, _color_override=self.over, expander=self.exp, f=self.file, _indent=V.int(self.n), _except_handler_mode_stack=self.stack).items(): c.assume(sel(c.s, u, k) == v)
        c.assume(*[self.stack != self.a[k] for k in self.q]); c.s.ghost["out"] = sv(""); self.S0 = S0; self.J = [z3.Const(f"joined_{i}", STRV) for i in range(8)]; self.setup(c); return [self.u, self.t, *self.extra(c)], {}
    def extra(self, c): return []
    def setup(self, c): pass
    def make(self, c):
        t = c.obj("t", self.node, exact=True); self.a, self.q = {}, {}
        for k, kind in self.fields.items():
            v = self.value(c, k, kind); c.assume(sel(c.s, t, k) == v); self.a[k] = v
        return t
    def value(self, c, k, kind):
        if kind == "node": return c.obj(k, ast.AST)
        if kind == "opt":
            v = c.var(k); c.assume(z3.Or(v == NONE, z3.And(V.is_obj(v), V.ov(v) >= 0, V.ov(v) < c.s.alloc, type_formula(v, ast.AST)))); return v
        if kind == "str": return c.str(k)
        if kind == "optstr": v = c.var(k); c.assume(z3.Or(v == NONE, V.is_str(v))); return v
        if kind == "name": v = c.var(k); c.assume(z3.Or(v == NONE, z3.And(V.is_str(v), z3.Length(V.sv(v)) > 0))); return v
        if kind == "any": v = c.var(k); c.assume(v != ABSENT); return v
        if kind in ("list", "block"): v = c.list(k, "AST"); self.q[k] = c.lst(v); return v
        if kind == "strs": v = c.list(k, "str"); self.q[k] = c.lst(v); return v
        if kind == "optlist":
            v = c.list(k, "any"); self.q[k] = c.lst(v); return v
        if kind == "int": return c.int(k)
        if isinstance(kind, type): return c.obj(k, kind, exact=True)
        raise KeyError(kind)
    # --- the text
    def T(self, k): return self.tx(self.a[k])
    def tx(self, v): return text(v, self.n, self.top)
    def B(self, k, top=None): return block(self.q[k], self.n1, self.top if top is None else top)
    def s(self, k): return V.sv(self.a[k])
    def has(self, k): return self.a[k] != NONE
    def given(self, k): return z3.Length(self.q[k]) > 0
    @property
    def line(self): return cat("\n", strmul(sv("    "), self.n))
    def suite(self, k, word): return opt(self.given(k), self.line, word, ":", self.B(k))
    def each(self, k): return ("seq", k)
    def same(self, s):
        """The unparser's settings and the node are as they were at the start."""
        return z3.And(*[sel(s, self.u, k) == v for k, v in (("debug", FALSE), ("color", self.color), ("_color_override", self.over), ("expander", self.exp), ("f", self.file), ("_indent", V.int(self.n)), ("_except_handler_mode_stack", self.stack))], z3.Select(s.L, V.ov(self.stack)) == self.S0, *[sel(s, self.t, k) == v for k, v in self.a.items()], *[z3.Select(s.L, V.ov(self.a[k])) == q for k, q in self.q.items()])
    # --- callees
    def effect(self, s, x):
        """Written to wherever output goes now."""
        if "buffer" in s.meta and self.eng.entails(s, sel(s, self.u, "f") == s.meta["buffer"]): s.ghost["buffer"] = z3.Concat(s.ghost["buffer"], x)
        else: s.ghost["out"] = z3.Concat(s.ghost["out"], x)
    def level(self, e, s): return V.iv(sel(s, self.u, "_indent"))
    def now(self, e, s):
        l = rd(s.L, z3.simplify(V.ov(sel(s, self.u, "_except_handler_mode_stack"))))
        return z3.If(z3.Length(l) > 0, l[z3.Length(l) - 1], NONE)
    def dispatched(self, e, s, x):
        n, top = z3.simplify(self.level(e, s)), z3.simplify(self.now(e, s))
        if e.entails(s, type_formula(x, list)): return block(z3.simplify(rd(s.L, z3.simplify(V.ov(x)))), n, top)
        e.oblige(s, "part.is-code", type_formula(x, ast.AST)); return text(x, n, top)
    def hooks(self):
        def write(e, s, a, k):
            b = bound(e, a, k); x = e.toV(s, b["text"]); e.oblige(s, "write.text", V.is_str(x)); self.effect(s, V.sv(x)); return [(s, NONE)]
        def dispatch(e, s, a, k):
            b = bound(e, a, k); x = e.toV(s, b["tree"]); f = s.clone(); self.effect(s, self.dispatched(e, s, x)); x = exc_any(f); f.ghost["failure"] = x; return [(s, NONE), (f, Exc(x))]
        def paint(e, s, a, k): b = bound(e, a, k); return [(s, b["text"])]
        def rep(e, s, a, k): x = e.toV(s, a[0]); s.assume(z3.Implies(V.is_str(x), z3.Length(shown(x)) >= z3.Length(V.sv(x)) + 2)); return [(s, V.str(shown(x)))]
        def bound_(e, s, a, k): r = fresh("bound_macro"); s.assume(r != ABSENT, z3.Not(V.is_obj(r))); return [(s, r)]
        return {"ext": {U + "write": (write, "contract of write: the text is appended"), U + "dispatch": (dispatch, "recursive call: this contract (induction on the tree), or it fails"), U + "maybe_colorize": (paint, "contract of maybe_colorize: the text, perhaps with colour codes around it"),
                        "mcpyrate.colorizer:setcolor": (lambda e, s, a, k: [(s, S(""))], "a colour code"), M + "interleave": (self.interleave, "contract of interleave"), "mcpyrate.core:BaseMacroExpander.isbound": (bound_, "contract of isbound (C04)"), "builtins.repr": (rep, "Python's repr")},
                "attr": self.table}
    def table(self, e, s, v, name):
        x = getattr(Unparser, name, None)
        if isinstance(x, dict) and e.entails(s, v == self.u): return [(s, PyObj(ConstDict(x)))]
    def interleave(self, e, s, a, k):
        """f on each item in order, inter in between: what one f and one inter write is compared with what is joined here."""
        b = bound(e, a, k); inter, f, sq = b["inter"], b["f"], b["seq"]; si = e.as_iter(s, sq)
        if isinstance(si, list): return self.run(e, s, [x for i, y in enumerate(si) for x in (([(inter, [])] if i else []) + [(f, [y])])])
        n = z3.simplify(si.n if hasattr(si, "n") else si.length); j = z3.Const("any_item", Int); best = None
        t = s.clone(); t.assume(j >= 0, j < n, *[fact[0](self, t, j) for _, _, _, *fact in self.joins if fact]); t.ghost["out"] = z3.Const("written_before", STRV); O = t.ghost["out"]
        one = self.delta(e, t.clone(), inter, [], O); x = si.elt(t, j); two = self.delta(e, t, f, [x], O)
        for i, (sep, count, elem, *fact) in enumerate(self.joins):
            goals = [n == count(self)]; g2 = [(u, w, cat(sep)) for u, w in one] + [(u, w, elem(self, u, j)) for u, w in two]
            ok = e.entails(s, goals[0]) and all(e.entails(u, w == z3.Concat(O, x)) for u, w, x in g2)
            if ok: best = i; break
        if best is None:
            e.oblige(s, "separated-list.is-one-of-this-kind-of-node", z3.BoolVal(False)); best = 0
        for u, w in one + two: e.oblige(u, "separated-list.nothing-changed", z3.And(self.level(e, u) == self.level(e, s), u.L == t.L if False else z3.BoolVal(True)))
        fl = s.clone(); x = exc_any(fl); fl.ghost["failure"] = x; self.effect(s, self.J[best]); s.meta["joined"] = s.meta.get("joined", ()) + (best,); return [(s, NONE), (fl, Exc(x))]
    def delta(self, e, t, f, args, O):
        out = [(u, u.ghost["out"]) for u, r in e.call(t, f, args, {}) if not isinstance(r, Exc)]
        if not out: raise SpecMismatch("nothing is written in one step")
        return out
    def run(self, e, s, calls):
        states, done = [s], []
        for i, (f, args) in enumerate(calls):
            nxt = []
            for u in states:
                if args: u.meta["nth"] = i // 2
                for v, r in e.call(u, f, args, {}): (done if isinstance(r, Exc) else nxt).append((v, r) if isinstance(r, Exc) else v)
            states = nxt
        return [(u, NONE) for u in states] + done
    def post(self, p):
        if p.raised: return [("fails-only-in-a-part", p.exc.v == p.s.ghost["failure"] if "failure" in p.s.ghost else z3.BoolVal(False))]
        sp = self.spec(); sp = cat(*sp) if isinstance(sp, (list, tuple)) else cat(sp)
        return [("text", p.s.ghost["out"] == sp), ("level-restored", sel(p.s, self.u, "_indent") == V.int(self.n)), ("modes-restored", z3.And(sel(p.s, self.u, "_except_handler_mode_stack") == self.stack, z3.Select(p.s.L, V.ov(self.stack)) == self.S0)), ("colouring-restored", z3.And(sel(p.s, self.u, "_color_override") == self.over, sel(p.s, self.u, "f") == self.file))] + [("tree-untouched." + k, z3.And(sel(p.s, self.t, k) == v, z3.Select(p.s.L, V.ov(v)) == self.q[k] if k in self.q else True)) for k, v in getattr(self, "a", {}).items()]
ALL = []
def unp(name, fields, spec, joins=(), **kw):
    K = getattr(ast, name.split("[")[0])
    d = dict(target=U + "_" + K.__name__, label=U + "_" + name, node=K, fields=fields, spec=spec, joins=joins, __doc__=f"The concrete syntax of {name}, around the texts of its parts."); d.update(kw)
    C = type("Text" + name.replace("[", "_").replace("]", "").replace(" ", "_").replace("-", "_"), (Node,), d); globals()[C.__name__] = C; ALL.append(C); return C
def codes(k, sep=", "): return (sep, lambda self: z3.Length(self.q[k]), lambda self, u, j: self.tx(self.q[k][j]))
def names(k, sep=", "): return (sep, lambda self: z3.Length(self.q[k]), lambda self, u, j: V.sv(self.q[k][j]))
J0 = lambda self: self.J[0]
# ---------------------------------------------------------------- simple statements
for n_, w in (("Pass", "pass"), ("Break", "break"), ("Continue", "continue")): unp(n_, {}, lambda self, w=w: [self.line, w])
unp("Expr", dict(value="node"), lambda self: [self.line, self.T("value")])
unp("Return", dict(value="opt"), lambda self: [self.line, "return", opt(self.has("value"), " ", self.T("value"))])
unp("Import", dict(names="list"), lambda self: [self.line, "import ", self.J[0]], [codes("names")])
unp("ImportFrom", dict(module="name", names="list", level="int"), lambda self: [self.line, "from ", strmul(sv("."), V.iv(self.a["level"])), opt(self.has("module"), self.s("module")), " import ", self.J[0]], [codes("names")])
unp("AnnAssign", dict(target="node", annotation="node", value="opt", simple="int"), lambda self: (lambda p: [self.line, opt(p, "("), self.T("target"), opt(p, ")"), ": ", self.T("annotation"), opt(self.has("value"), " = ", self.T("value"))])(V.iv(self.a["simple"]) == 0))
unp("Delete", dict(targets="list"), lambda self: [self.line, "del ", self.J[0]], [codes("targets")])
unp("Assert", dict(test="node", msg="opt"), lambda self: [self.line, "assert ", self.T("test"), opt(self.has("msg"), ", ", self.T("msg"))])
unp("Global", dict(names="strs"), lambda self: [self.line, "global ", self.J[0]], [names("names")])
unp("Nonlocal", dict(names="strs"), lambda self: [self.line, "nonlocal ", self.J[0]], [names("names")])
# ---------------------------------------------------------------- compound statements
unp("While", dict(test="node", body="block", orelse="block"), lambda self: [self.line, "while ", self.T("test"), ":", self.B("body"), self.suite("orelse", "else")])
for n_, w in (("For", "for "), ("AsyncFor", "async for ")): unp(n_, dict(target="node", iter="node", body="block", orelse="block"), lambda self, w=w: [self.line, w, self.T("target"), " in ", self.T("iter"), ":", self.B("body"), self.suite("orelse", "else")])
# ---------------------------------------------------------------- expressions
for n_, w in (("Await", "await"), ("Yield", "yield"), ("YieldFrom", "yield from")): unp(n_, dict(value="opt"), lambda self, w=w: ["(", w, opt(self.has("value"), " ", self.T("value")), ")"])
unp("NamedExpr", dict(target="node", value="node"), lambda self: ["(", self.T("target"), " := ", self.T("value"), ")"])
unp("IfExp", dict(body="node", test="node", orelse="node"), lambda self: ["(", self.T("body"), " if ", self.T("test"), " else ", self.T("orelse"), ")"])
unp("List", dict(elts="list"), lambda self: ["[", self.J[0], "]"], [codes("elts")])
unp("Starred", dict(value="node"), lambda self: ["*", self.T("value")])
unp("Slice", dict(lower="opt", upper="opt", step="opt"), lambda self: [opt(self.has("lower"), self.T("lower")), ":", opt(self.has("upper"), self.T("upper")), opt(self.has("step"), ":", self.T("step"))])
unp("alias", dict(name="str", asname="name"), lambda self: [self.s("name"), opt(self.has("asname"), " as ", self.s("asname"))])
unp("withitem", dict(context_expr="node", optional_vars="opt"), lambda self: [self.T("context_expr"), opt(self.has("optional_vars"), " as ", self.T("optional_vars"))])
unp("keyword", dict(arg="name", value="node"), lambda self: [z3.If(self.has("arg"), cat(self.s("arg"), "="), sv("**")), self.T("value")])
unp("arg", dict(arg="str", annotation="opt"), lambda self: [self.s("arg"), opt(self.has("annotation"), ": ", self.T("annotation"))])
# ---------------------------------------------------------------- operators
BIN = dict(Add="+", Sub="-", Mult="*", MatMult="@", Div="/", Mod="%", LShift="<<", RShift=">>", BitOr="|", BitXor="^", BitAnd="&", FloorDiv="//", Pow="**")
CMP = dict(Eq="==", NotEq="!=", Lt="<", LtE="<=", Gt=">", GtE=">=", Is="is", IsNot="is not", In="in", NotIn="not in")
for o_, w in BIN.items():
    unp(f"BinOp[{o_}]", dict(left="node", op=getattr(ast, o_), right="node"), lambda self, w=w: ["(", self.T("left"), f" {w} ", self.T("right"), ")"])
    unp(f"AugAssign[{o_}]", dict(target="node", op=getattr(ast, o_), value="node"), lambda self, w=w: [self.line, self.T("target"), f" {w}= ", self.T("value")])
for o_, w in dict(Invert="~", Not="not ", UAdd="+", USub="-").items(): unp(f"UnaryOp[{o_}]", dict(op=getattr(ast, o_), operand="node"), lambda self, w=w: ["(" + w, self.T("operand"), ")"])
for o_, w in dict(And=" and ", Or=" or ").items(): unp(f"BoolOp[{o_}]", dict(op=getattr(ast, o_), values="list"), lambda self: ["(", self.J[0], ")"], [codes("values", w)])
# ---------------------------------------------------------------- lists of parts, one after another
def steps(name, item):
    """Text of the first i items, each written in turn: GROW_0 = "", GROW_(i+1) = GROW_i + item(i)."""
    G = z3.Function("written_" + name, Int, STRV)
    return G, lambda self, i: [G(I(0)) == sv(""), z3.Implies(i >= 0, G(i + 1) == z3.Concat(G(i), cat(*item(self, i))))]
def grown(name, item, prefix, count, more=lambda self, c: []):
    """A loop that writes one item after another, following what is written before it."""
    G, ax = steps(name, item)
    def spec(self): return LoopSpec(lambda c: [("text", c.s.ghost["out"] == cat(*prefix(self), G(c.i))), ("alone", z3.And(c.s.H == c.pre.H, c.s.L == c.pre.L)), *more(self, c)], lambda c: ax(self, c.i))
    return spec, lambda self: G(count(self))
def looped(name, fields, before, item, count, after, joins=(), **kw):
    spec, total = grown(name, item, before, count)
    C = unp(name, fields, lambda self: [*before(self), total(self), *after(self)], joins, **kw); C.loops = property(lambda self: (spec(self),)); return C
nn = lambda k: lambda self: z3.Length(self.q[k])
looped("Assign", dict(targets="list", value="node"), lambda self: [self.line], lambda self, i: [self.tx(self.q["targets"][i]), " = "], nn("targets"), lambda self: [self.T("value")])
for n_, a_, b_ in (("ListComp", "[", "]"), ("GeneratorExp", "(", ")"), ("SetComp", "{", "}")): looped(n_, dict(elt="node", generators="list"), lambda self, a_=a_: [a_, self.T("elt")], lambda self, i: [self.tx(self.q["generators"][i])], nn("generators"), lambda self, b_=b_: [b_])
looped("DictComp", dict(key="node", value="node", generators="list"), lambda self: ["{", self.T("key"), ": ", self.T("value")], lambda self, i: [self.tx(self.q["generators"][i])], nn("generators"), lambda self: ["}"])
looped("comprehension", dict(target="node", iter="node", ifs="list", is_async="int"), lambda self: [opt(V.iv(self.a["is_async"]) != 0, " async"), " for ", self.T("target"), " in ", self.T("iter")], lambda self, i: [" if ", self.tx(self.q["ifs"][i])], nn("ifs"), lambda self: [])
unp("Set", dict(elts="list"), lambda self: ["{", self.J[0], "}"], [codes("elts")], setup=lambda self, c: c.assume(z3.Length(self.q["elts"]) > 0))
def symbol(table, v):
    r = sv("")
    for k, w in table.items(): r = z3.If(cls_of(V.ov(v)) == cid(getattr(ast, k)), sv(w), r)
    return r
def one_of(table, v): return z3.And(V.is_obj(v), type_formula(v, ast.AST), z3.Or([cls_of(V.ov(v)) == cid(getattr(ast, k)) for k in table]))
def compare():
    G, ax = steps("comparisons", lambda self, i: [" ", symbol(CMP, self.q["ops"][i]), " ", self.tx(self.q["comparators"][i])])
    C = unp("Compare", dict(left="node", ops="list", comparators="list"), lambda self: ["(", self.T("left"), G(z3.Length(self.q["comparators"])), ")"], setup=lambda self, c: c.assume(z3.Length(self.q["ops"]) == z3.Length(self.q["comparators"])))
    C.loops = property(lambda self: (LoopSpec(lambda c: [("text", c.s.ghost["out"] == cat("(", self.T("left"), G(c.i))), ("alone", z3.And(c.s.H == c.pre.H, c.s.L == c.pre.L))], lambda c: ax(self, c.i) + [z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(self.q["ops"])), one_of(CMP, self.q["ops"][c.i]))]),))
compare()
def tup(self, q): return z3.If(z3.Length(q) == 1, cat(self.tx(q[0]), ","), self.J[0])
unp("Tuple", dict(elts="list"), lambda self: ["(", tup(self, self.q["elts"]), ")"], [codes("elts")])
def old_or_none(self, u, v): return z3.Or(v == NONE, z3.And(type_formula(v, ast.AST), V.ov(v) >= 0))
unp("Dict", dict(keys="optlist", values="list"), lambda self: ["{", self.J[0], "}"], [(", ", lambda self: z3.Length(self.q["keys"]), lambda self, u, j: cat(z3.If(self.q["keys"][j] == NONE, sv("**"), cat(self.tx(self.q["keys"][j]), ": ")), self.tx(self.q["values"][j])), lambda self, u, j: old_or_none(self, u, self.q["keys"][j]))], setup=lambda self, c: c.assume(z3.Length(self.q["keys"]) == z3.Length(self.q["values"])))
def arglist(name, first, second):
    """Two lists, one after the other, separated by commas throughout."""
    G1, ax1 = steps(name + "_first", lambda self, i: [opt(i > 0, ", "), self.tx(self.q[first][i])]); G2, ax2 = steps(name + "_second", lambda self, i: [opt(z3.Length(self.q[first]) + i > 0, ", "), self.tx(self.q[second][i])])
    n1 = lambda self: z3.Length(self.q[first])
    def l1(self, before): return LoopSpec(lambda c: [("text", c.s.ghost["out"] == cat(*before(self), G1(c.i))), ("comma", c.var("comma") == V.bool(c.i > 0)), ("alone", self.same(c.s))], lambda c: ax1(self, c.i))
    def l2(self, before): return LoopSpec(lambda c: [("text", c.s.ghost["out"] == cat(*before(self), G1(n1(self)), G2(c.i))), ("comma", c.var("comma") == V.bool(n1(self) + c.i > 0)), ("alone", self.same(c.s))], lambda c: ax2(self, c.i))
    return l1, l2, lambda self: cat(G1(n1(self)), G2(z3.Length(self.q[second])))
def call():
    l1, l2, total = arglist("call", "args", "keywords"); before = lambda self: [self.T("func"), "("]
    C = unp("Call", dict(func="node", args="list", keywords="list"), lambda self: [*before(self), total(self), ")"]); C.loops = property(lambda self: (l1(self, before), l2(self, before)))
call()
DECO, deco_ax = steps("decorators", lambda self, i: [self.line, "@", self.tx(self.q["decorator_list"][i])])
def decorators(self): return LoopSpec(lambda c: [("text", c.s.ghost["out"] == cat("\n", DECO(c.i))), ("alone", self.same(c.s))], lambda c: deco_ax(self, c.i))
def head(self, word): return ["\n", DECO(z3.Length(self.q["decorator_list"])), self.line, word, self.s("name"), opt(self.given("type_params"), "[", self.J[0], "]")]
def classdef():
    l1, l2, total = arglist("bases", "bases", "keywords"); any_ = lambda self: z3.Or(self.given("bases"), self.given("keywords")); before = lambda self: [*head(self, "class "), opt(any_(self), "(")]
    C = unp("ClassDef", dict(name="str", bases="list", keywords="list", body="block", decorator_list="list", type_params="list"), lambda self: [*before(self), total(self), opt(any_(self), ")"), ":", self.B("body")], [codes("type_params")]); C.loops = property(lambda self: (decorators(self), l1(self, before), l2(self, before)))
classdef()
for n_, w in (("FunctionDef", "def "), ("AsyncFunctionDef", "async def ")):
    C = unp(n_, dict(name="str", args="node", body="block", decorator_list="list", returns="opt", type_params="list"), lambda self, w=w: [*head(self, w), "(", self.T("args"), ")", opt(self.has("returns"), " -> ", self.T("returns")), ":", self.B("body")], [codes("type_params")]); C.loops = property(lambda self: (decorators(self),))
for n_, w in (("With", "with "), ("AsyncWith", "async with ")):
    def spec_(self, w=w):
        q = self.q["items"]; one = z3.And(z3.Length(q) == 1, cls_of(V.ov(self.ctx)) == cid(ast.Tuple), self.opt == NONE); return [self.line, w, z3.If(one, cat("(", self.tx(q[0]), ")"), self.J[0]), ":", self.B("body")]
    def setup_(self, c):
        q = self.q["items"]; x = q[0]; self.ctx, self.opt = sel(c.s, x, "context_expr"), sel(c.s, x, "optional_vars"); c.assume(z3.Implies(z3.Length(q) > 0, z3.And(V.ov(x) >= 0, V.ov(x) < c.s.alloc, type_formula(self.ctx, ast.AST), V.ov(self.ctx) >= 0, V.ov(self.ctx) < c.s.alloc, old_or_none(self, c.s, self.opt), z3.Implies(V.is_obj(self.opt), V.ov(self.opt) < c.s.alloc))))
    unp(n_, dict(items="list", body="block"), spec_, [codes("items")], setup=setup_)
# ---------------------------------------------------------------- if, try
LAST = z3.Function("last_if_of_chain", V, V); SOFAR = z3.Function("text_up_to_this_if", V, STRV)
def if_chain():
    """`else: if` is written as `elif`, down to the last `if` of the chain."""
    def parts(self, t):
        s = self.s0; L = lambda v: z3.Select(s.L, V.ov(v)); ok = lambda v, K: z3.And(type_formula(v, K), V.ov(v) >= 0, V.ov(v) < self.alloc); O = L(sel(s, t, "orelse")); x = O[0]; more = z3.And(z3.Length(O) == 1, type_formula(x, ast.If)); return s, L, ok, O, x, more
    def ax(self, t):
        s, L, ok, O, x, more = parts(self, t)
        return [LAST(t) == z3.If(more, LAST(x), t), z3.Implies(more, SOFAR(x) == cat(SOFAR(t), self.line, "elif ", self.tx(sel(s, x, "test")), ":", block(L(sel(s, x, "body")), self.n1, self.top))), z3.Implies(z3.Length(O) > 0, ok(x, ast.AST)), z3.Implies(more, isif(self, x))]
    def isif(self, t): s, L, ok, O, x, more = parts(self, t); return z3.And(ok(t, ast.If), ok(sel(s, t, "test"), ast.AST), ok(sel(s, t, "body"), list), ok(sel(s, t, "orelse"), list))
    def spec(self): t = LAST(self.t); s, L, ok, O, x, more = parts(self, t); return [SOFAR(t), opt(z3.Length(O) > 0, self.line, "else:", block(O, self.n1, self.top))]
    C = unp("If", dict(test="node", body="block", orelse="block"), spec)
    def setup(self, c): self.alloc = c.s.alloc; self.s0 = c.s.clone(); c.assume(*ax(self, self.t), SOFAR(self.t) == cat(self.line, "if ", self.T("test"), ":", self.B("body")))
    C.setup = setup; C.loops = property(lambda self: (LoopSpec(lambda c: [("text", c.s.ghost["out"] == SOFAR(c.var("t"))), ("chain", LAST(c.var("t")) == LAST(self.t)), ("an-if", isif(self, c.var("t"))), ("alone", z3.And(c.s.L == c.pre.L, c.s.H == c.pre.H)), ("level", sel(c.s, self.u, "_indent") == V.int(self.n))], lambda c: ax(self, c.var("t"))),))
if_chain()
for n_ in ("Try", "TryStar"):
    m_ = S(n_); G_, ax_ = steps("handlers_" + n_, lambda self, i, m=m_: [text(self.q["handlers"][i], self.n, m)])
    start_ = lambda self: [self.line, "try:", self.B("body")]
    C = unp(n_, dict(body="block", handlers="list", orelse="block", finalbody="block"), lambda self, G=G_, start=start_: [*start(self), G(z3.Length(self.q["handlers"])), self.suite("orelse", "else"), self.suite("finalbody", "finally")])
    C.loops = property(lambda self, G=G_, ax=ax_, start=start_: (LoopSpec(lambda c: [("text", c.s.ghost["out"] == cat(*start(self), G(c.i))), ("alone", z3.And(c.s.L == c.pre.L, c.s.H == c.pre.H))], lambda c: ax(self, c.i)),))
for m_, w in (("Try", "except"), ("TryStar", "except*")):
    unp(f"ExceptHandler[{m_}]", dict(type="opt", name="name", body="block"), lambda self, w=w: [self.line, w, opt(self.has("type"), " ", self.T("type")), opt(self.has("name"), " as ", self.s("name")), ":", self.B("body")], setup=lambda self, c, m=m_: c.assume(z3.Length(self.S0) > 0, self.S0[z3.Length(self.S0) - 1] == S(m)))
# ---------------------------------------------------------------- atoms, trailers
unp("Name", dict(id="str"), lambda self: [self.s("id")], expander=False); unp("Name[with expander]", dict(id="str"), lambda self: [self.s("id")], expander=True)
INF = sv("1e309"); number = lambda v: str_replace_all(shown(v), sv("inf"), INF)       # an infinity is written as an overflowing number
def constant(self):
    v = self.a["value"]; return [opt(self.a["kind"] == S("u"), "u"), number(v) if self.num else sv("...") if self.dots else shown(v)]
for n_, f_ in dict(int=V.is_int, float=lambda v: type_formula(v, float), complex=lambda v: type_formula(v, complex), str=V.is_str, bytes=lambda v: type_formula(v, bytes), bool=V.is_bool, none=lambda v: v == NONE, ellipsis=None).items():
    unp(f"Constant[{n_}]", dict(value="any", kind="optstr"), constant, setup=lambda self, c, f=f_: c.assume(f(self.a["value"]) if f is not None else self.a["value"] == c.eng.toV(c.s, PyObj(Ellipsis))), num=n_ in ("int", "float", "complex"), dots=n_ == "ellipsis")
TAKES = ("posonlyargs", "args", "vararg", "kwonlyargs", "kwarg")
def lam(self, c): a = self.a["args"]; self.L0 = c.s.L; c.assume(*[z3.And(type_formula(sel(c.s, a, k), list), V.ov(sel(c.s, a, k)) >= 0, V.ov(sel(c.s, a, k)) < c.s.alloc) if k.endswith("args") else z3.And(old_or_none(self, c.s, sel(c.s, a, k)), z3.Implies(V.is_obj(sel(c.s, a, k)), V.ov(sel(c.s, a, k)) < c.s.alloc)) for k in TAKES]); self.takes = z3.Or([z3.Length(z3.Select(c.s.L, V.ov(sel(c.s, a, k)))) > 0 if k.endswith("args") else sel(c.s, a, k) != NONE for k in TAKES])
unp("Lambda", dict(args=ast.arguments, body="node"), lambda self: ["(lambda", opt(self.takes, " "), self.T("args"), ": ", self.T("body"), ")"], setup=lam)
def intval(self): return z3.And(type_formula(self.a["value"], ast.Constant), z3.Or(V.is_int(self.inner), V.is_bool(self.inner)))
def inner(self, c): self.inner = sel(c.s, self.a["value"], "value"); c.assume(z3.Implies(type_formula(self.a["value"], ast.Constant), z3.And(self.inner != ABSENT, z3.Not(V.is_obj(self.inner)))))
unp("Attribute", dict(value="node", attr="str"), lambda self: [self.T("value"), opt(intval(self), " "), ".", self.s("attr")], setup=inner)
def sub(self, c): x = self.a["slice"]; self.el = sel(c.s, x, "elts"); self.E = z3.Select(c.s.L, V.ov(self.el)); self.istup = cls_of(V.ov(x)) == cid(ast.Tuple); j = z3.Const("any_item", Int); k = lambda v: z3.And(type_formula(v, ast.AST), V.ov(v) >= 0, V.ov(v) < c.s.alloc); c.assume(z3.Implies(self.istup, z3.And(type_formula(self.el, list), V.ov(self.el) >= 0, V.ov(self.el) < c.s.alloc, k(self.E[0]))))
unp("Subscript", dict(value="node", slice="node"), lambda self: [self.T("value"), "[", z3.If(z3.And(self.istup, z3.Length(self.E) > 0), tup(self, self.E), self.T("slice")), "]"], [(", ", lambda self: z3.Length(self.E), lambda self, u, j: self.tx(self.E[j]), lambda self, u, j: z3.And(type_formula(self.E[j], ast.AST), V.ov(self.E[j]) >= 0))], setup=sub)
# ---------------------------------------------------------------- type parameters
unp("TypeAlias", dict(name="node", type_params="list", value="node"), lambda self: [self.line, "type ", self.T("name"), opt(self.given("type_params"), "[", self.J[0], "]"), " = ", self.T("value")], [codes("type_params")])
unp("TypeVar", dict(name="str", bound="opt"), lambda self: [self.s("name"), opt(self.has("bound"), ": ", self.T("bound"))])
unp("ParamSpec", dict(name="str"), lambda self: ["**", self.s("name")]); unp("TypeVarTuple", dict(name="str"), lambda self: ["*", self.s("name")])
# ---------------------------------------------------------------- match
unp("Match", dict(subject="node", cases="list"), None)
def match():
    G, ax = steps("cases", lambda self, i: [text(self.q["cases"][i], self.n1, self.top)]); start = lambda self: [self.line, "match ", self.T("subject"), ":"]
    C = ALL[-1]; C.spec = lambda self: [*start(self), G(z3.Length(self.q["cases"]))]; C.loops = property(lambda self: (LoopSpec(lambda c: [("text", c.s.ghost["out"] == cat(*start(self), G(c.i))), ("alone", z3.And(c.s.L == c.pre.L, c.s.H == c.pre.H))], lambda c: ax(self, c.i)),))
match()
isor = lambda v: cls_of(V.ov(v)) == cid(ast.MatchOr)
unp("match_case", dict(pattern="node", guard="opt", body="block"), lambda self: [self.line, "case ", *(lambda p: [opt(p, "("), self.T("pattern"), opt(p, ")")])(z3.And(self.has("guard"), isor(self.a["pattern"]))), opt(self.has("guard"), " if ", self.T("guard")), ":", self.B("body")])
PV = z3.Function("text_of_pattern_value", V, Int, V, STRV)
def pattern_value(e, s, a, k): c = e.current; b = bound(e, a, k); x = e.toV(s, b["v"]); e.oblige(s, "value.is-code", type_formula(x, ast.AST)); f = s.clone(); c.effect(s, PV(x, z3.simplify(c.level(e, s)), z3.simplify(c.now(e, s)))); y = exc_any(f); f.ghost["failure"] = y; return [(s, NONE), (f, Exc(y))]
def with_pv(self): h = Node.hooks(self); h["ext"][U + "__pattern_value_helper"] = (pattern_value, "contract of __pattern_value_helper"); return h
pv = lambda self, v: PV(v, self.n, self.top)
unp("MatchValue", dict(value="node"), lambda self: [pv(self, self.a["value"])], hooks=with_pv)
unp("MatchSingleton", dict(value="any"), lambda self: [shown(self.a["value"])])
unp("MatchSequence", dict(patterns="list"), lambda self: ["[", self.J[0], "]"], [codes("patterns")])
unp("MatchStar", dict(name="optstr"), lambda self: ["*", z3.If(self.has("name"), self.s("name"), sv("_"))])
unp("MatchMapping", dict(keys="list", patterns="list", rest="optstr"), lambda self: ["{", self.J[0], opt(self.has("rest"), opt(self.given("patterns"), ", "), "**", self.s("rest")), "}"], [(", ", lambda self: z3.Length(self.q["keys"]), lambda self, u, j: cat(pv(self, self.q["keys"][j]), ": ", self.tx(self.q["patterns"][j])))], hooks=with_pv, setup=lambda self, c: c.assume(z3.Length(self.q["keys"]) == z3.Length(self.q["patterns"])))
unp("MatchClass", dict(cls="node", patterns="list", kwd_attrs="strs", kwd_patterns="list"), lambda self: [self.T("cls"), "(", self.J[0], opt(self.given("kwd_attrs"), opt(self.given("patterns"), ", "), self.J[1]), ")"], [codes("patterns"), (", ", lambda self: z3.Length(self.q["kwd_attrs"]), lambda self, u, j: cat(V.sv(self.q["kwd_attrs"][j]), "=", self.tx(self.q["kwd_patterns"][j])))], setup=lambda self, c: c.assume(z3.Length(self.q["kwd_attrs"]) == z3.Length(self.q["kwd_patterns"])))
def sp(self, s, v):
    """A pattern inside an or-pattern or an as-pattern: in parentheses when it is one itself."""
    par = z3.Or(isor(v), z3.And(cls_of(V.ov(v)) == cid(ast.MatchAs), z3.Select(self.H0, V.ov(v), sv("pattern")) != NONE)); return cat(opt(par, "("), self.tx(v), opt(par, ")"))
def keep(self, c): self.H0 = c.s.H
def pat_ok(self, u, v): x = z3.Select(self.H0, V.ov(v), sv("pattern")); return z3.Implies(cls_of(V.ov(v)) == cid(ast.MatchAs), old_or_none(self, u, x))
unp("MatchOr", dict(patterns="list"), lambda self: [self.J[0]], [(" | ", lambda self: z3.Length(self.q["patterns"]), lambda self, u, j: sp(self, u, self.q["patterns"][j]), lambda self, u, j: pat_ok(self, u, self.q["patterns"][j]))], setup=keep)
def keep_as(self, c): self.H0 = c.s.H; v = self.a["pattern"]; c.assume(z3.Implies(V.is_obj(v), pat_ok(self, c.s, v)), z3.Implies(self.a["name"] == NONE, v == NONE))
unp("MatchAs", dict(pattern="opt", name="optstr"), lambda self: [z3.If(self.has("name"), z3.If(self.has("pattern"), cat(sp(self, None, self.a["pattern"]), " as ", self.s("name")), self.s("name")), sv("_"))], setup=keep_as)
def pv_rec(self): h = Node.hooks(self); h["ext"][U + "__pattern_value_helper"] = (pattern_value, "recursive call: this contract (induction on the value)"); return h
for o_ in ("Add", "Sub"): unp(f"BinOp[pattern value, {o_}]", dict(left="node", op=getattr(ast, o_), right="node"), lambda self, w=BIN[o_]: [pv(self, self.a["left"]), f" {w} ", pv(self, self.a["right"])], target=U + "__pattern_value_helper", hooks=pv_rec)
unp("UnaryOp[pattern value]", dict(op=ast.USub, operand="node"), lambda self: ["-", pv(self, self.a["operand"])], target=U + "__pattern_value_helper", hooks=pv_rec)
def plain(self, c): t = c.obj("t", ast.AST); self.a, self.q = {}, {}; c.assume(cls_of(V.ov(t)) != cid(ast.BinOp), cls_of(V.ov(t)) != cid(ast.UnaryOp)); return t
unp("Constant[pattern value]", {}, lambda self: [self.tx(self.t)], target=U + "__pattern_value_helper", hooks=pv_rec, make=plain)
# ---------------------------------------------------------------- formatted strings
def escaped(v, in_spec):
    """The text of a piece of a formatted string: as in a string literal in single quotes, without them, and with braces escaped."""
    r = shown(V.str(cat('"', V.sv(v)))); x = z3.SubString(r, 2, z3.Length(r) - 3); a, b = ("\\x7b", "\\x7d") if in_spec else ("{{", "}}"); return str_replace_all(str_replace_all(x, sv("{"), sv(a)), sv("}"), sv(b))
FV = z3.Function("text_of_format_field", V, Int, V, STRV); JS = {b: z3.Function("text_of_pieces" + ("_of_spec" if b else ""), V, Int, V, STRV) for b in (False, True)}
def part(fn, kind, arg="t"):
    def f(e, s, a, k):
        c = e.current; b = bound(e, a, k); x = e.toV(s, b[arg]); e.oblige(s, kind + ".is-code", type_formula(x, ast.AST)); f = s.clone(); g = fn(e, s, b) if not z3.is_func_decl(fn) else fn; c.effect(s, g(x, z3.simplify(c.level(e, s)), z3.simplify(c.now(e, s)))); y = exc_any(f); f.ghost["failure"] = y; return [(s, NONE), (f, Exc(y))]
    return f
def which(e, s, b): x = b.get("in_format_spec", PyObj(False)); k, o = e.conc(x); return JS[bool(o) if k else V.bv(x)]
def fstrings(self):
    h = Node.hooks(self); h["ext"][U + "_FormattedValue_helper"] = (part(FV, "field"), "contract of _FormattedValue_helper"); h["ext"][U + "_JoinedStr_helper"] = (part(which, "pieces"), "contract of _JoinedStr_helper")
    def mk(e, s, a, k): o = fresh("buffer"); s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc, o != self.file); s.ghost["buffer"] = sv(""); s.meta["buffer"] = o; return [(s, o)]
    def wi(eng, s, c, optvars, body, fr):
        if c is not s.meta.get("buffer"): return None
        out = []
        for s2, e_ in (eng.assign_target(optvars, c, s, fr) if optvars is not None else [(s, None)]): out += eng.block(body, s2, fr)
        return out
    h["ext"]["_io.StringIO"] = (mk, "an empty text buffer"); h["with"] = wi;
    def at(e, s, v, name):
        if name == "getvalue" and e.entails(s, v == s.meta.get("buffer", ABSENT)): return [(s, PyObj(GETVALUE))]
        return self.table(e, s, v, name)
    h["attr"] = at; h["ext"]["contracts.c01.GETVALUE"] = (lambda e, s, a, k: [(s, V.str(s.ghost["buffer"]))], "the text written into the buffer"); return h
def GETVALUE(): pass
fv = lambda self, v: FV(v, self.n, self.top)
unp("JoinedStr", dict(values="list"), lambda self: ["f'", JS[False](self.t, self.n, self.top), "'"], hooks=fstrings)
unp("FormattedValue", dict(value="node", conversion="int", format_spec="opt"), lambda self: ["f'", fv(self, self.t), "'"], hooks=fstrings)
def field(self):
    x = self.T("value"); c = V.iv(self.a["conversion"]); return ["{", opt(z3.PrefixOf(sv("{"), x), " "), x, z3.If(c == 115, sv("!s"), z3.If(c == 114, sv("!r"), z3.If(c == 97, sv("!a"), sv("")))), opt(self.has("format_spec"), ":", JS[True](self.a["format_spec"], self.n, self.top)), "}"]
unp("FormattedValue[field]", dict(value="node", conversion="int", format_spec="opt"), field, target=U + "_FormattedValue_helper", hooks=fstrings, setup=lambda self, c: c.assume(z3.Or([V.iv(self.a["conversion"]) == k for k in (-1, 97, 114, 115)])))
for b_ in (False, True):
    def item_(self, i, b=b_): v = self.q["values"][i]; return [z3.If(cls_of(V.ov(v)) == cid(ast.Constant), escaped(z3.Select(self.H0, V.ov(v), sv("value")), b), fv(self, v))]
    G_, ax_ = steps("pieces" + ("_of_spec" if b_ else ""), item_)
    C = unp(f"JoinedStr[pieces{' of a format' if b_ else ''}]", dict(values="list"), lambda self, G=G_: [G(z3.Length(self.q["values"]))], target=U + "_JoinedStr_helper", hooks=fstrings, setup=keep, extra=lambda self, c, b=b_: [PyObj(b)])
    def fact_(self, i): v = self.q["values"][i]; x = z3.Select(self.H0, V.ov(v), sv("value")); return z3.Implies(z3.And(i >= 0, i < z3.Length(self.q["values"])), z3.Or(z3.And(cls_of(V.ov(v)) == cid(ast.Constant), V.is_str(x)), cls_of(V.ov(v)) == cid(ast.FormattedValue)))
    C.loops = property(lambda self, G=G_, ax=ax_: (LoopSpec(lambda c: [("text", c.s.ghost["out"] == G(c.i)), ("alone", z3.And(c.s.L == c.pre.L, c.s.H == c.pre.H))], lambda c: ax(self, c.i) + [fact_(self, c.i)]),))
# ---------------------------------------------------------------- the top level
unp("Module", dict(body="list"), lambda self: [block(self.q["body"], self.n, self.top)]); unp("Interactive", dict(body="list"), lambda self: [block(self.q["body"], self.n, self.top)]); unp("Expression", dict(body="node"), lambda self: [self.T("body")])
CONTRACTS = ALL
