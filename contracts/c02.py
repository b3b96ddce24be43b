from contracts.base import *
from contracts.c15 import stage, exc_any, tags, ev, fail_passed
from contracts.c03 import quotes_attr, attr_hook, built, DC
from contracts.c09 import is_class
from contracts.c07 import copy_location, loc_eq
from contracts.c13 import copy_copy
from mcpyrate.expander import MacroExpander
from mcpyrate.utils import NestingLevelTracker
import mcpyrate.quotes as QT

M = "mcpyrate.quotes:"; REC = "mcpyrate.core:BaseMacroExpander.visit_recursively"

# ---------------------------------------------------------------- the operators
class Operator(Contract):
    """Shared: an operator of the quasiquote system at an arbitrary level; the level is restored on every outcome."""
    must_reach = ("return", "raise"); syntax = "expr"; asname = None; delta = -1
    def pre(self, c):
        self.t, self.x, self.inv = c.var("tree"), c.obj("expander", MacroExpander, exact=True), c.obj("invocation", ast.AST); c.assume(self.t != ABSENT, z3.Implies(V.is_obj(self.t), V.ov(self.t) < c.s.alloc)); self.fn = c.str("filename"); c.setattr(self.x, "filename", self.fn)
        self.lv = c.obj("level", NestingLevelTracker, exact=True); self.st = c.list("stack"); c.setattr(self.lv, "stack", self.st); self.S0 = c.lst(self.st); self.top = self.S0[z3.Length(self.S0) - 1]; c.assume(z3.Length(self.S0) >= 1, V.is_int(self.top), V.iv(self.top) >= 0); self.level = V.iv(self.top)
        self.more(c); return [self.t], dict(syntax=PyObj(self.syntax), expander=self.x, invocation=self.inv, **({"optional_vars": self.asname} if self.syntax == "block" else {}))
    def more(self, c): self.asname = NONE if self.asname is None else self.asname
    def at(self, s): return z3.And(sel(s, self.lv, "stack") == self.st, z3.Select(s.L, V.ov(self.st)) == z3.Concat(self.S0, unit(V.int(self.level + self.delta))))
    def work(self, tag, ok, result=None, keep=(), user=True, then=None):
        """A step at the new level; user code leaves the level as it finds it (this contract) and the expander's filename alone."""
        def f(e, s, a, k):
            out = stage(tag, lambda e, s, a, k, b: [("level", self.at(s))] + ok(e, s, a, k, b), result, user=user, keep=[self.st, *[v(self) for v in keep]])(e, s, a, k)
            for t, r in out:
                t.assume(sel(t, self.lv, "stack") == self.st, sel(t, self.x, "filename") == self.fn)
                if then and not isinstance(r, Exc): then(t, r)
            return out
        return f
    def base_hooks(self):
        def visit(e, s, a, k, b): return [("of-this-expander", e.toV(s, walker_of(e)) == self.x), ("tree", e.toV(s, b["tree"]) == self.t)]
        def again(e, s, a, k, b): return [("invocation", e.toV(s, b["invocation"]) == self.inv), ("tree", e.toV(s, b["newtree"]) == self.last(s))]
        return {"globals": {("mcpyrate.quotes", "_quotelevel"): lambda e, s: self.lv}, "ext": {REC: (self.work("expand", visit, self.expanded), "contract of visit_recursively (C04)"), M + "_replace_tree_in_macro_invocation": (self.work("again", again, user=False), "contract of _replace_tree_in_macro_invocation (this property)")}}
    def expanded(self, e, t, a, k, b): return fresh("expanded")
    def last(self, s): tr = s.ghost["trace"]; return V.tv(tr[z3.Length(tr) - 1])[1]
    hooks = base_hooks
    def restored(self, p): return [("level-restored", z3.And(sel(p.s, self.lv, "stack") == self.st, z3.Select(p.s.L, V.ov(self.st)) == self.S0))]
class Unquoting(Operator):
    """Inside a quote only: the code is expanded in full, one level down; at level zero it becomes this operator's command, above it the invocation is kept with the expanded code in it."""
    cls = None
    def fields(self, p): return []
    def post(self, p):
        t = tags(p); end = self.restored(p)
        if p.raised and not t: return end + [("refused-outside-quotes", z3.And(p.exc_is(SyntaxError), self.level < 1))]
        if p.raised: return end + [("inside", self.level >= 1), ("fails-in-a-step", z3.BoolVal(t in (["expand!"], ["expand", "again!"])))] + fail_passed(p, t)
        if t == ["expand", "again"]: return end + [("nested", self.level > 1), ("result", p.resultV == ev(p, 1))]
        r = p.resultV
        return end + [("steps", z3.BoolVal(t == ["expand"])), ("at-level-zero", self.level == 1), ("command", built(p, r, self.cls)), ("body", self.body(p, sel(p.s, r, "body")))] + self.fields(p)
    def body(self, p, b): return b == ev(p, 0)
class U(Unquoting): target = M + "u"; cls = QT.Unquote
class N(Unquoting):
    target = M + "n"; cls = QT.LiftSourcecode
    def fields(self, p): return [("filename", sel(p.s, p.resultV, "filename") == self.fn)]
class Sq(Unquoting): target = M + "s"; cls = QT.ASTList
class Tq(Unquoting): target = M + "t"; cls = QT.ASTTuple
class A(Unquoting):
    target = M + "a"; cls = QT.ASTLiteral
    def fields(self, p): return [("syntax", sel(p.s, p.resultV, "syntax") == S(self.syntax))]

class ABlock(Unquoting):
    """Each statement of the block, an expression statement, contributes its expression, in order; anything else is refused."""
    target = M + "a"; label = M + "a[block]"; cls = QT.ASTLiteral; syntax = "block"
    def expanded(self, e, t, a, k, b):
        c = Ctx(e, t); l = c.list("expanded", "AST"); t.assume(l != self.st); t.meta["L"] = (l, c.lst(l)); t.meta["H"] = t.H; S0 = c.lst(l); f, j, n = fresh("first_other", Int), z3.Int("j"), z3.Length(S0); is_e = lambda x: cls_of(V.ov(x)) == cid(ast.Expr)
        t.meta["first"] = f; t.assume(f >= 0, f <= n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), is_e(S0[j]))), z3.Implies(f < n, z3.Not(is_e(S0[f])))); return l
    def fields(self, p): return [("syntax", sel(p.s, p.resultV, "syntax") == S("block"))]
    @property
    def loops(self):
        def inv(c):
            l, S0 = c.s.meta["L"]; o = c.lst(c.var("out")); return [("list", z3.And(c.lst(l) == S0, c.s.H == c.s.meta["H"])), ("all-expressions", c.i <= c.s.meta["first"]), ("values", o == VALUES(c.done, c.s.meta["H"])), ("level", self.at(c.s))]
        return (LoopSpec(inv, lambda c: VALUES.axioms(c.seq, c.i, c.s.meta["H"]) + [c.done == z3.Extract(c.seq, 0, c.i)]),)
    def post(self, p):
        t = tags(p)
        if p.raised and t == ["expand"]: return self.restored(p) + [("only-other-statements", z3.And(self.level == 1, p.exc_is(SyntaxError), p.s.meta["first"] < z3.Length(p.s.meta["L"][1])))]
        out = super().post(p)
        if p.returned and t == ["expand"]: out += [("all-expressions", p.s.meta["first"] == z3.Length(p.s.meta["L"][1]))]
        return out
    def body(self, p, b):
        l, S0 = p.s.meta["L"]; el = sel(p.s, b, "elts"); return z3.And(built(p, b, ast.List), z3.Select(p.s.L, V.ov(el)) == VALUES(S0, p.s.meta["H"]))
VALUES = Fold("their_values", SeqV, EMPTY, lambda acc, x, H: z3.Concat(acc, unit(z3.Select(H, V.ov(x), z3.StringVal("value")))), extra=(HeapSort,))
class BlockOnly(Operator):
    """These operators are refused in any other form than their own."""
    syntax = "block"; must_reach = ("raise",)
    def post(self, p): return self.restored(p) + ([("refused", z3.And(p.exc_is(SyntaxError), z3.BoolVal(not tags(p))))] if p.raised else [("refused", False)])
def refused(fn, syn, **kw): return type(f"Refused_{fn}_{syn}", (BlockOnly,), dict(target=M + fn, label=M + f"{fn}[{syn}{' with asname' if kw else ''}]", syntax=syn, **kw))
REFUSED = [refused(f, y) for f in "unsth" for y in ("block", "decorator", "name")] + [refused(f, y) for f in "aq" for y in ("decorator", "name")]
class AAsname(BlockOnly):
    target = M + "a"; label = M + "a[block with asname]"
    def more(self, c): self.asname = c.obj("asname", ast.AST)

code = z3.Function("source_of", V, z3.StringSort())
class H(Operator):
    """Captures what the code evaluates to, under its source text; only an identifier macro's bare name is kept unexpanded."""
    target = M + "h"
    def more(self, c): super().more(c); self.bound = fresh("binding"); self.isname = fresh("is_name_macro", z3.BoolSort()); c.assume(z3.Or(self.bound == FALSE, z3.And(V.is_obj(self.bound), V.ov(self.bound) >= 0, V.ov(self.bound) < c.s.alloc))); self.tid = sel(c.s, self.t, "id"); c.assume(z3.Implies(V.is_obj(self.bound), z3.And(truthy_obj(V.ov(self.bound)), *[z3.Not(type_formula(self.bound, K)) for K in (list, dict, set, tuple, ast.AST)])))
    def hooks(self):
        h = self.base_hooks()
        def unp(e, s, a, k): e.oblige(s, "name.taken-before-expansion", z3.And(s.ghost["trace"] == EMPTY, e.toV(s, a[0]) == self.t)); return [(s, V.str(code(self.t)))]
        def isb(e, s, a, k): e.oblige(s, "binding.of-the-name", z3.And(e.toV(s, walker_of(e)) == self.x, e.toV(s, a[0]) == self.tid)); return [(s, self.bound)]
        def isn(e, s, a, k): e.oblige(s, "binding.is-asked", e.toV(s, a[0]) == self.bound); return [(s, V.bool(self.isname))]
        h["ext"].update({"mcpyrate.unparser:unparse": (unp, "contract of unparse (C01): text"), "mcpyrate.core:BaseMacroExpander.isbound": (isb, "contract of isbound (C04)"), "mcpyrate.expander:isnamemacro": (isn, "contract of isnamemacro (C05)")})
        def again(e, s, a, k, b): return [("invocation", e.toV(s, b["invocation"]) == self.inv), ("tree", e.toV(s, b["newtree"]) == z3.If(z3.Length(s.ghost["trace"]) == 0, self.t, self.last(s)))]
        h["ext"][M + "_replace_tree_in_macro_invocation"] = (self.work("again", again, user=False), "contract of _replace_tree_in_macro_invocation (this property)"); return h
    def post(self, p):
        t = tags(p); end = self.restored(p); bare = z3.And(type_formula(self.t, ast.AST), cls_of(V.ov(self.t)) == cid(ast.Name), self.bound != FALSE, self.isname)
        if p.raised and not t: return end + [("refused-outside-quotes", z3.And(p.exc_is(SyntaxError), self.level < 1))]
        end += [("expanded", bare != z3.BoolVal("expand" in t or "expand!" in t))]
        if p.raised: return end + [("inside", self.level >= 1), ("fails-in-a-step", z3.BoolVal(t in (["expand!"], ["expand", "again!"], ["again!"])))] + fail_passed(p, t)
        if "again" in t: return end + [("nested", self.level > 1), ("result", p.resultV == ev(p, len(t) - 1))]
        r = p.resultV
        return end + [("steps", z3.BoolVal(t in ([], ["expand"]))), ("at-level-zero", self.level == 1), ("command", built(p, r, QT.Capture)), ("body", sel(p.s, r, "body") == (ev(p, 0) if t else self.t)), ("name", sel(p.s, r, "name") == V.str(code(self.t)))]

class Q(Operator):
    """The operators of this level are expanded first, one level up; inside another quote the invocation is kept with that code in it; else nested-quote marks are removed, the code is lifted, checked for leftover commands, and passed to the run-time part of `q` with the filename; a block's is assigned to its single name."""
    target = M + "q"; delta = 1
    def hooks(self):
        h = self.base_hooks()
        def ops(e, s, a, k, b): return [("expander", e.toV(s, b["expander"]) == self.x), ("tree", e.toV(s, b["tree"]) == self.t)]
        def dm(e, s, a, k, b): return [("tree", e.toV(s, b["tree"]) == self.last(s)), ("only-these", is_class(e, s, b["cls"], QT.QuasiquoteSearchDone))]
        def asti(e, s, a, k, b): return [("tree", e.toV(s, b["x"]) == self.last(s)), ("expander", e.toV(s, b["expander"]) == self.x)]
        def chk(e, s, a, k):
            b = bound(e, a, k); e.oblige(s, "check.level", self.at(s)); e.oblige(s, "check.tree", e.toV(s, b["tree"]) == self.last(s)); e.oblige(s, "check.quasiquote-commands", is_class(e, s, b["cls"], QT.QuasiquoteMarker)); e.oblige(s, "check.filename", e.toV(s, b["filename"]) == self.fn)
            f, g = s.clone(), s.clone(); log(s, S("check"), e.toV(s, b["tree"])); x, y = exc_any(f, QT.MacroExpansionError), exc_any(g); g.assume(z3.Not(type_formula(y, QT.MacroExpansionError))); log(f, S("leftovers!"), x); log(g, S("check!"), y); return [(s, NONE), (f, Exc(x, None)), (g, Exc(y, None))]
        h["ext"].update({M + "_expand_quasiquotes": (self.work("operators", ops), "contract of _expand_quasiquotes (this property)"), "mcpyrate.markers:delete_markers": (self.work("unmark", dm, user=False), "contract of delete_markers (C09)"), M + "astify": (self.work("lift", asti, user=False), "contract of astify (this property)"),
            "mcpyrate.markers:check_no_markers_remaining": (chk, "contract of check_no_markers_remaining (C09): raises MacroExpansionError exactly when such a marker remains"), "mcpyrate.unparser:unparse": (lambda e, s, a, k: [(s, V.str(fresh("text", z3.StringSort())))], "contract of unparse (C01): text"), **DC}); return h
    FULL = ["operators", "unmark", "lift", "check"]
    def post(self, p):
        t = tags(p); end = self.restored(p)
        if p.raised and t == self.FULL: return end + [("asname", False)]
        if p.raised and t and t[-1] == "leftovers!": x = p.exc.v; return end + [("leftovers", z3.And(z3.BoolVal(t[:-1] == self.FULL[:3]), p.exc_is(RuntimeError), sel(p.s, x, "__cause__") == ev(p, 3)))]
        if p.raised: return end + [("fails-in-a-step", z3.BoolVal(t in (["operators!"], ["operators", "again!"], ["operators", "unmark!"], ["operators", "unmark", "lift!"], ["operators", "unmark", "lift", "check!"])))] + (fail_passed(p, t) if t else [])
        if t == ["operators", "again"]: return end + [("nested", self.level >= 1), ("result", p.resultV == ev(p, 1))]
        return end + [("steps", z3.BoolVal(t == self.FULL)), ("outermost", self.level == 0)] + self.made(p, p.resultV)
    def made(self, p, r): return self.call(p, r)
    def call(self, p, r):
        a, k = (z3.Select(p.s.L, V.ov(sel(p.s, r, f))) for f in ("args", "keywords"))
        return [("call", z3.And(built(p, r, ast.Call), z3.Length(a) == 2, z3.Length(k) == 0)), ("function", sel(p.s, r, "func") == quotes_attr(S("quotes.splice_ast_literals"), FALSE)), ("code", a[0] == ev(p, 2)), ("filename", z3.And(built(p, a[1], ast.Constant), sel(p.s, a[1], "value") == self.fn))]
class QBlock(Q):
    label = M + "q[block]"; syntax = "block"; good = True
    def more(self, c): self.asname = c.obj("asname", ast.Name, exact=True)
    def made(self, p, r):
        ts = z3.Select(p.s.L, V.ov(sel(p.s, r, "targets")))
        return [("assignment", z3.And(built(p, r, ast.Assign), ts == unit(self.asname)))] + self.call(p, sel(p.s, r, "value"))
class QBlockBad(Q):
    label = M + "q[block with another target]"; syntax = "block"; must_reach = ("return", "raise")
    def more(self, c): self.asname = c.obj("asname", ast.AST); c.assume(cls_of(V.ov(self.asname)) != cid(ast.Name))
    def post(self, p):
        t = tags(p)
        if p.raised and t == self.FULL: return self.restored(p) + [("refused", z3.And(p.exc_is(SyntaxError), self.level == 0))]
        if p.raised and not t: return self.restored(p) + [("refused", p.exc_is(SyntaxError))]
        return super().post(p)
    def made(self, p, r): return [("refused", False)]
class QBlockNone(QBlockBad):
    label = M + "q[block without a target]"
    def more(self, c): self.asname = NONE

class ExpandQuasiquotes(Contract):
    """A new expander with this filename that knows just the seven operators, under the names they have in the given expander, expands the tree in its own mode; nothing else is expanded."""
    target = M + "_expand_quasiquotes"; must_reach = ("return", "raise")
    def pre(self, c):
        self.t, self.x = c.var("tree"), c.obj("expander", MacroExpander, exact=True); self.fn = c.str("filename"); c.setattr(self.x, "filename", self.fn); self.binds = c.dict("bindings"); c.assume(self.t != ABSENT); return [self.t, self.x], {}
    def hooks(self):
        def attr(e, s, v, name):
            if name == "bindings" and e.entails(s, v == self.x): return [(s, self.binds)]
        def xb(e, s, a, k):
            e.oblige(s, "operators.of-this-expander", e.toV(s, a[0]) == self.binds); names = sorted(f.qual if isinstance(f, Fn) and f.mod == "mcpyrate.quotes" else "?" for f in a[1:]); e.oblige(s, "operators.exactly-these", z3.BoolVal(names == sorted("qunasth") and not k)); r = fresh("operators"); s.assume(r != ABSENT); s.meta["ops"] = r; return [(s, r)]
        def mk(e, s, a, kw):
            b = dict(zip(("bindings", "filename"), a), **kw); e.oblige(s, "expander.bindings", e.toV(s, b["bindings"]) == s.meta.get("ops", ABSENT)); e.oblige(s, "expander.filename", e.toV(s, b["filename"]) == self.fn); e.oblige(s, "expander.options", z3.BoolVal(set(b) == {"bindings", "filename"})); o = Ctx(e, s).obj("new_expander", MacroExpander, exact=True); s.meta["x"] = o; return [(s, o)]
        ok = lambda e, s, a, k, b: [("tree", e.toV(s, b["tree"]) == self.t), ("expander", e.toV(s, walker_of(e)) == s.meta.get("x", NONE))]
        return {"attr": attr, "ext": {"mcpyrate.utils:extract_bindings": (xb, "contract of extract_bindings (C12)"), "mcpyrate.expander.MacroExpander": (mk, "constructor: an expander with these bindings, in recursive mode"), "mcpyrate.core:BaseMacroExpander.visit": (stage("expand", ok), "contract of visit (C04)"), REC: (stage("expand", ok), "contract of visit_recursively (C04)")}}
    def post(self, p):
        t = tags(p); return [("once", z3.BoolVal(t == ["expand"])), ("result", p.resultV == ev(p, 0))] if p.returned else [("once", z3.BoolVal(t == ["expand!"]))] + fail_passed(p, t)

class Again(Contract):
    """A copy of the invocation, with the new code in its place, inside a mark that stops the search; the original is untouched."""
    target = M + "_replace_tree_in_macro_invocation"; cls, field = ast.Subscript, "slice"
    def pre(self, c): self.i = c.obj("invocation", self.cls, exact=True); self.t = c.var("newtree"); c.assume(self.t != ABSENT, z3.Implies(V.is_obj(self.t), V.ov(self.t) < c.s.alloc)); return [self.i, self.t], {}
    def hooks(self): return {"ext": {"copy.copy": (copy_copy, "copy(x) is a new object with the same class and attributes")}}
    def post(self, p):
        if p.raised: return [("returns", False)]
        r = p.resultV; b = rd(p.s.H, z3.simplify(V.ov(r)), z3.StringVal("body")); kept = [f for f in list(self.cls._fields) + list(self.cls._attributes) if f != self.field]
        return [("mark", built(p, r, QT.QuasiquoteSearchDone)), ("copy", built(p, b, self.cls)), ("new-code", sel(p.s, b, self.field) == self.t), ("rest-kept", z3.And([sel(p.s, b, f) == sel(p.s0, self.i, f) for f in kept])), ("original-untouched", frame_h(p.s0, p.s)), ("lists-untouched", frame_c("L", p.s0, p.s))]
class AgainBlock(Again): label = M + "_replace_tree_in_macro_invocation[block]"; cls, field = ast.With, "body"
class AgainOther(Again):
    label = M + "_replace_tree_in_macro_invocation[other]"; must_reach = ("raise",); cls = ast.Call
    def post(self, p): return [("refused", p.exc_is(NotImplementedError) if p.raised else False)]

class LiftSource(Contract):
    """The expression parsed from the text."""
    target = M + "lift_sourcecode"; must_reach = ("return", "raise")
    def pre(self, c): self.v = c.var("value"); self.fn = c.str("filename"); c.assume(self.v != ABSENT); return [self.v, self.fn], {}
    def hooks(self):
        def parse(e, s, a, k):
            e.oblige(s, "parse.text", e.toV(s, a[0]) == self.v); m = k.get("mode"); e.oblige(s, "parse.as-expression", e.toV(s, m) == S("eval") if m is not None else z3.BoolVal(False)); e.oblige(s, "parse.plainly", z3.BoolVal(len(a) == 1 and set(k) <= {"mode", "filename"}))
            f = s.clone(); x = exc_any(f); f.ghost["failure"] = x; o = Ctx(e, s).obj("parsed", ast.Expression, exact=True); b = fresh("expression"); s.assume(b != ABSENT); e.setH(s, o, "body", b); s.ghost["expression"] = b; return [(s, o), (f, Exc(x))]
        return {"ext": {"ast.parse": (parse, "CPython's parser")}}
    def post(self, p):
        if p.returned: return [("text", V.is_str(self.v)), ("result", p.resultV == p.s.ghost.get("expression", ABSENT))]
        return [("fails-only-with-the-parser", p.exc.v == p.s.ghost["failure"] if "failure" in p.s.ghost else z3.And(z3.Not(V.is_str(self.v)), p.exc_is(TypeError)))]

# ---------------------------------------------------------------- the quasiquote compiler
lifted = z3.Function("lifted", V, V)
LIFTED = Fold("each_lifted", SeqV, EMPTY, lambda acc, x: z3.Concat(acc, unit(lifted(x))))
LIFTED_VALUES = Fold("each_value_lifted", SeqV, EMPTY, lambda acc, k, D: z3.Concat(acc, unit(lifted(z3.Select(D, k)))), extra=(z3.ArraySort(V, V),))
field_items = z3.Function("fields_of_node", V, SeqV)                     # what ast.iter_fields(node) yields: (name, value) pairs
def lst(p, node, f): return z3.Select(p.s.L, V.ov(sel(p.s, node, f)))
def callto(p, r, attr, args, force=FALSE):
    """r is a call, with just these positional arguments, of this attribute of mcpyrate."""
    a = lst(p, r, "args"); return [("call", z3.And(built(p, r, ast.Call), z3.Length(a) == len(args), z3.Length(lst(p, r, "keywords")) == 0)), ("function", sel(p.s, r, "func") == quotes_attr(S(attr), force))] + [(f"argument-{i}", f(p, a[i])) for i, f in enumerate(args)]
def same(v): return lambda p, x: x == v
def constant(v): return lambda p, x: z3.And(built(p, x, ast.Constant), sel(p.s, x, "value") == v)
class Astify(Contract):
    """Lifting one value: what is built from it, with the values inside it lifted by this same contract."""
    target = M + "astify"; must_reach = ("return", "raise"); kind = None
    def alone(self, s): return z3.And(z3.Select(s.L, self.r0) == z3.Select(self.L0, self.r0), z3.Select(s.H, self.r0, self.f0) == z3.Select(self.H0, self.r0, self.f0))
    def pre(self, c): r = self.pre_(c); self.a0, self.L0, self.H0 = c.s.alloc, c.s.L, c.s.H; self.r0, self.f0 = z3.Const("any_object", Int), z3.Const("any_attribute", Str); c.assume(self.r0 >= 0, self.r0 < self.a0); return r
    def pre_(self, c): self.x = self.value(c); self.e = c.var("expander") if self.kind != "capture" else self.expander(c); c.assume(self.e != ABSENT, z3.Implies(V.is_obj(self.e), z3.And(V.ov(self.e) >= 0, V.ov(self.e) < c.s.alloc))); return [self.x], {"expander": self.e}
    def value(self, c): x = c.var("x"); c.assume(x != ABSENT, z3.Implies(V.is_obj(x), z3.And(V.ov(x) >= 0, V.ov(x) < c.s.alloc))); return x
    def expander(self, c): return NONE
    def hooks(self):
        def rec(e, s, a, k):
            x = e.toV(s, a[0])
            if not s.meta.get("inside"): e.oblige(s, "starts-with-the-value", x == self.x); s.meta["inside"] = True; return None
            f = s.clone(); r = lifted(x); s.assume(r != ABSENT); return [(s, r), (f, Exc(self.fail(f)))]
        def fields(e, s, a, k):
            e.oblige(s, "fields.of-the-node", e.toV(s, a[0]) == self.x); sq = field_items(self.x); j = fresh("j", Int)
            def elt(s, i): it = z3.simplify(sq[i]); s.assume(V.is_tup(it), z3.Length(V.tv(it)) == 2, V.is_str(V.tv(it)[0]), V.tv(it)[1] != ABSENT); return Tup([V.tv(it)[0], V.tv(it)[1]])
            it = SeqIter(z3.Length(sq), elt); it.seq = sq; return [(s, it)]
        return {"ext": {M + "astify.<locals>.recurse": (rec, "recursive call: this contract (induction on the value)"), "ast.iter_fields": (fields, "yields (name, value) pairs in a fixed order"), "ast.copy_location": (copy_location, "copies the location attributes"), "builtins.repr": (lambda e, s, a, k: [(s, V.str(fresh("text", z3.StringSort())))], "text"),
                "mcpyrate.unparser:unparse": (lambda e, s, a, k: [(s, V.str(fresh("text", z3.StringSort())))], "contract of unparse (C01): text"), **DC}}
    def fail(self, f): x = exc_any(f); f.ghost["failure"] = x; return x
    def post(self, p):
        out = [("everything-old-untouched", self.alone(p.s))]
        if p.raised: return out + [("fails-only-inside", p.exc.v == p.s.ghost["failure"] if "failure" in p.s.ghost else False)]
        return out + self.made(p, p.resultV)
class AstifyCommand(Astify):
    """A command becomes a call of its run-time part, with its code as it is."""
    must_reach = ("return",); cls, attr, extra = QT.Unquote, "astify", None
    def value(self, c):
        o = c.obj("command", self.cls, exact=True); self.b = c.var("body"); c.assume(self.b != ABSENT); c.setattr(o, "body", self.b)
        if self.extra: self.w = c.var(self.extra); c.assume(self.w != ABSENT); c.setattr(o, self.extra, self.w)
        return o
    def made(self, p, r): return callto(p, r, "quotes." + self.attr, [same(self.b)] + ([constant(self.w)] if self.extra else []))
def command(cls, attr, extra=None): return type("Astify" + cls.__name__, (AstifyCommand,), dict(label=M + f"astify[{cls.__name__}]", cls=cls, attr=attr, extra=extra, target=M + "astify"))
COMMANDS = [command(QT.Unquote, "astify"), command(QT.LiftSourcecode, "lift_sourcecode", "filename"), command(QT.ASTLiteral, "ast_literal", "syntax"), command(QT.ASTList, "ast_list"), command(QT.ASTTuple, "ast_tuple")]
class AstifyCapture(AstifyCommand):
    """The name of a macro bound in the given expander captures that macro now, under its name; anything else captures, at run time, the value of the code under its source text."""
    label = M + "astify[Capture]"; cls, attr, extra = QT.Capture, "capture_value", "name"; kind = "capture"; must_reach = ("return", "raise")
    def value(self, c): o = super().value(c); c.assume(z3.Implies(V.is_obj(self.b), z3.And(V.ov(self.b) >= 0, V.ov(self.b) < c.s.alloc))); return o
    def expander(self, c):
        x = c.obj("expander", MacroExpander, exact=True); self.f = fresh("binding"); c.assume(z3.Or(self.f == FALSE, z3.And(V.is_obj(self.f), V.ov(self.f) >= 0, V.ov(self.f) < c.s.alloc))); c.assume(z3.Implies(V.is_obj(self.f), z3.And(truthy_obj(V.ov(self.f)), *[z3.Not(type_formula(self.f, K)) for K in (list, dict, set, tuple, ast.AST)]))); c.s.ghost["captured"] = NONE; return x
    def isname(self): return z3.And(V.is_obj(self.b), cls_of(V.ov(self.b)) == cid(ast.Name))
    def hooks(self):
        h = super().hooks()
        def isb(e, s, a, k): e.oblige(s, "binding.of-the-name", z3.And(self.isname(), e.toV(s, walker_of(e)) == self.e, e.toV(s, a[0]) == sel(s, self.b, "id"))); return [(s, self.f)]
        def cap(e, s, a, k):
            b = bound(e, a, k); e.oblige(s, "capture.of-the-macro", z3.And(self.f != FALSE, e.toV(s, b["macro"]) == self.f)); e.oblige(s, "capture.under-its-name", e.toV(s, b["name"]) == sel(s, self.b, "id")); f = s.clone(); r = fresh("captured"); s.assume(V.is_obj(r)); s.ghost["captured"] = r; return [(s, r), (f, Exc(self.fail(f)))]
        h["ext"].update({"mcpyrate.core:BaseMacroExpander.isbound": (isb, "contract of isbound (C04)"), M + "capture_macro": (cap, "contract of capture_macro (C03)")}); return h
    def made(self, p, r):
        mac = z3.And(self.isname(), self.f != FALSE, self.e != NONE); c = p.s.ghost["captured"]
        return [("macro", z3.Implies(mac, z3.And(c != NONE, r == c)) if True else mac)] + [(n, z3.Implies(z3.Not(mac), f)) for n, f in super().made(p, r) + [("value-only", c == NONE)]]
class AstifyCaptureNoExpander(AstifyCommand):
    """Without an expander every capture is of a value."""
    label = M + "astify[Capture, no expander]"; cls, attr, extra = QT.Capture, "capture_value", "name"; kind = "capture"
class AstifyConstant(Astify):
    """Numbers, strings, bytes, booleans, None and the ellipsis: a constant of that very value."""
    label = M + "astify[constant]"; must_reach = ("return",); KINDS = (float, complex, bytes, type(...))
    def value(self, c): x = super().value(c); c.assume(z3.Or([V.is_int(x), V.is_str(x), V.is_bool(x), x == NONE] + [type_formula(x, K) for K in self.KINDS])); return x
    def made(self, p, r): return [("constant", constant(self.x)(p, r))]
class AstifyList(Astify):
    """The elements lifted, in order."""
    label = M + "astify[list]"; node = ast.List
    def value(self, c): x = c.list("x", "any"); self.S0 = c.lst(x); return x
    @property
    def loops(self): return (LoopSpec(lambda c: [("elements", c.lst(c.var("$acc")) == LIFTED(z3.Extract(self.S0, 0, c.i))), ("alone", z3.And(self.alone(c.s), c.s.H == c.pre.H))], lambda c: LIFTED.axioms(self.S0, c.i)),)
    def made(self, p, r): return [("node", built(p, r, self.node)), ("elements", lst(p, r, "elts") == LIFTED(self.S0))]
class AstifyTuple(AstifyList):
    label = M + "astify[tuple]"; node = ast.Tuple
    def value(self, c): self.S0 = z3.Const("in_elements", SeqV); return V.tup(self.S0)
class AstifyDict(Astify):
    """Keys and values lifted, in order, each value with its key."""
    label = M + "astify[dict]"
    def value(self, c): x = c.dict("x"); self.S0 = z3.Select(c.s.DK, V.ov(x)); self.D0 = z3.Select(c.s.D, V.ov(x)); return x
    @property
    def loops(self):
        pre = lambda c: z3.Extract(self.S0, 0, c.i); al = lambda c: ("alone", z3.And(self.alone(c.s), c.s.H == c.pre.H))
        return (LoopSpec(lambda c: [("keys", c.lst(c.var("$acc")) == LIFTED(pre(c))), al(c)], lambda c: LIFTED.axioms(self.S0, c.i)), LoopSpec(lambda c: [("values", c.lst(c.var("$acc")) == LIFTED_VALUES(pre(c), self.D0)), al(c)], lambda c: LIFTED_VALUES.axioms(self.S0, c.i, self.D0)))
    def made(self, p, r): return [("node", built(p, r, ast.Dict)), ("keys", lst(p, r, "keys") == LIFTED(self.S0)), ("values", lst(p, r, "values") == LIFTED_VALUES(self.S0, self.D0))]
class AstifyNode(Astify):
    """A call of the node's class by name with, for every field in order, a keyword of that name with the lifted value; it carries the node's location."""
    label = M + "astify[node]"; KEPT = (QT.Unquote, QT.LiftSourcecode, QT.ASTLiteral, QT.ASTList, QT.ASTTuple, QT.Capture, QT.Done)
    def value(self, c): x = c.obj("node", ast.AST); c.assume(z3.Not(isa(cls_of(V.ov(x)), cid(QT.ASTMarker)))); self.j = z3.Const("field", Int); return x
    def kw(self, s, a0, k, i):
        it = V.tv(field_items(self.x)[i]); return z3.And(V.is_obj(k), V.ov(k) >= a0, cls_of(V.ov(k)) == cid(ast.keyword), sel(s, k, "arg") == it[0], sel(s, k, "value") == lifted(it[1]))
    @property
    def loops(self):
        def inv(c):
            a = c.lst(c.var("$acc")); return [("count", z3.Length(a) == c.i), ("field", z3.Implies(z3.And(self.j >= 0, self.j < c.i), z3.And(self.kw(c.s, self.a0, a[self.j], self.j), V.ov(a[self.j]) < c.s.alloc + c.s.nalloc))), ("alone", self.alone(c.s))]
        return (LoopSpec(inv),)
    def func(self, p, f): return z3.And(built(p, f, ast.Attribute), sel(p.s, f, "value") == quotes_attr(S("quotes.ast"), FALSE), sel(p.s, f, "attr") == V.str(cls_name(cls_of(V.ov(self.x)))))
    def where(self, p, r): return [("location", loc_eq(p.s, r, p.s0, self.x))]
    def made(self, p, r):
        k = lst(p, r, "keywords"); n = z3.Length(field_items(self.x))
        return [("call", z3.And(built(p, r, ast.Call), z3.Length(lst(p, r, "args")) == 0)), ("class", self.func(p, sel(p.s, r, "func"))), ("every-field", z3.And(z3.Length(k) == n, z3.Implies(z3.And(self.j >= 0, self.j < n), self.kw(p.s, self.a0, k[self.j], self.j))))] + self.where(p, r)
class AstifyDone(AstifyNode):
    """The same for a finished-marker, which is looked up as `mcpyrate.quotes.Done`."""
    label = M + "astify[Done]"
    def value(self, c): self.j = z3.Const("field", Int); return c.obj("node", QT.Done, exact=True)
    def func(self, p, f): return f == quotes_attr(S("quotes.Done"), FALSE)
    def where(self, p, r): return []
class AstifyMarker(Astify):
    """Any other marker is refused."""
    label = M + "astify[other marker]"; must_reach = ("raise",)
    def value(self, c): x = c.obj("marker", QT.ASTMarker); c.assume(*[cls_of(V.ov(x)) != cid(K) for K in AstifyNode.KEPT]); return x
    def post(self, p): return [("refused", p.exc_is(TypeError) if p.raised else False)]
class AstifyOther(AstifyMarker):
    """So is anything that is none of these."""
    label = M + "astify[other value]"
    def value(self, c):
        x = c.obj("thing", object); c.assume(*[z3.Not(isa(cls_of(V.ov(x)), cid(K))) for K in (ast.AST,)], *[cls_of(V.ov(x)) != cid(K) for K in (list, dict, set, tuple, int, float, complex, str, bytes, bool, type(None), type(...))]); return x

# ---------------------------------------------------------------- run-time parts
fits = z3.Function("fits", V, z3.BoolSort())
def first_unfit(c, S0):
    f, j, n = fresh("first_unfit", Int), z3.Int("j"), z3.Length(S0); c.assume(f >= 0, f <= n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), fits(S0[j]))), z3.Implies(f < n, z3.Not(fits(S0[f])))); return f
def typecheck(check=None):
    def h(e, s, a, k):
        b = bound(e, a, k); x = e.toV(s, b["node"])
        if check: check(e, s, b)
        f = s.clone(); s.assume(fits(x)); f.assume(z3.Not(fits(x))); y = exc_any(f, TypeError); f.ghost["failure"] = y; return [(s, NONE), (f, Exc(y, None))]
    return h
class Typecheck(Contract):
    """A node passes when it is of this kind; a marker, when everything in its body passes."""
    target = M + "_typecheck"; must_reach = ("return", "raise"); K = ast.expr; label = M + "_typecheck[expr]"
    def pre(self, c): self.x = c.var("node"); self.m = c.str("macroname"); c.assume(self.x != ABSENT, z3.Implies(V.is_obj(self.x), z3.And(V.ov(self.x) >= 0, V.ov(self.x) < c.s.alloc))); self.setup(c); return [self.x, PyObj(self.K), self.m], {}
    def setup(self, c): c.assume(z3.Not(type_formula(self.x, QT.ASTMarker)))
    def hooks(self):
        def chk(e, s, b): e.oblige(s, "inside.same-kind", z3.And(is_class(e, s, b["cls"], self.K), e.toV(s, b["macroname"]) == self.m))
        return {"ext": {M + "_typecheck": (typecheck(chk), "recursive call: this contract (induction on the tree)"), "builtins.repr": (lambda e, s, a, k: [(s, V.str(fresh("text", z3.StringSort())))], "text")}}
    def spec(self, p): return type_formula(self.x, self.K)
    def post(self, p): return [("passes", self.spec(p))] + p.unchanged("H", "L", "D") if p.returned else [("refused", z3.And(z3.Not(self.spec(p)), p.exc_is(TypeError)))]
class TypecheckMarker(Typecheck):
    label = M + "_typecheck[marker]"
    def setup(self, c): self.b = sel(c.s, self.x, "body"); c.assume(type_formula(self.x, QT.ASTMarker), self.b != ABSENT, z3.Not(type_formula(self.b, list)))
    def spec(self, p): return fits(self.b)
class TypecheckMarkerBlock(Typecheck):
    label = M + "_typecheck[marker around statements]"; K = ast.stmt
    def setup(self, c): self.b = c.list("body", "any"); self.S0 = c.lst(self.b); c.setattr(self.x, "body", self.b); c.assume(type_formula(self.x, QT.ASTMarker)); self.f = first_unfit(c, self.S0)
    @property
    def loops(self): return (LoopSpec(lambda c: [("pass-so-far", c.i <= self.f), ("same", z3.And(c.s.L == c.pre.L, c.s.H == c.pre.H))]),)
    def spec(self, p): return self.f == z3.Length(self.S0)
class TypecheckStmt(Typecheck): label = M + "_typecheck[stmt]"; K = ast.stmt

flat = z3.Function("flattened", SeqV, SeqV)
class Flatten(Contract):
    """The items of the iterable, flattened, when each of them passes; what is not iterable, or does not pass, is refused."""
    target = M + "_flatten_and_typecheck_iterable"; must_reach = ("return", "raise")
    def pre(self, c): self.x = c.var("nodes"); self.m = c.str("macroname"); c.assume(self.x != ABSENT); self.items = z3.Const("in_items", SeqV); self.F = flat(self.items); self.f = first_unfit(c, self.F); return [self.x, PyObj(ast.expr), self.m], {}
    def hooks(self):
        def ls(e, s, v):
            if not e.entails(s, v == self.x): return None
            havoc_user(s); f, g = s.clone(), s.clone(); x, y = exc_any(f, TypeError), exc_any(g); g.assume(z3.Not(type_formula(y, TypeError))); g.ghost["failure"] = y; l = e.alloc_list(s, self.items); s.meta["items"] = l; return [(s, l), (f, Exc(x, None)), (g, Exc(y, None))]
        def fl(e, s, a, k): e.oblige(s, "flatten.the-items", e.toV(s, a[0]) == s.meta.get("items", NONE)); l = e.alloc_list(s, self.F); s.meta["flat"] = l; return [(s, l)]
        def chk(e, s, b): e.oblige(s, "check.kind", z3.And(is_class(e, s, b["cls"], ast.expr), e.toV(s, b["macroname"]) == self.m))
        return {"list": ls, "ext": {M + "_typecheck": (typecheck(chk), "contract of _typecheck (this property)"), "mcpyrate.utils:flatten": (fl, "contract of flatten (C12): a new list"), "builtins.repr": (lambda e, s, a, k: [(s, V.str(fresh("text", z3.StringSort())))], "text")}}
    @property
    def loops(self): return (LoopSpec(lambda c: [("pass-so-far", c.i <= self.f), ("same", c.lst(c.s.meta["flat"]) == self.F)]),)
    def post(self, p):
        all_ = self.f == z3.Length(self.F)
        if p.returned: return [("all-pass", all_), ("result", z3.And(p.resultV == p.s.meta.get("flat", NONE), z3.Select(p.s.L, V.ov(p.resultV)) == self.F))]
        return [("passed-on", z3.And(p.exc.v == p.s.ghost["failure"], z3.BoolVal("flat" not in p.s.meta) if "flat" not in p.s.meta else z3.Not(all_)))] if "failure" in p.s.ghost else [("not-iterable", z3.And(p.exc_is(TypeError), z3.BoolVal("items" not in p.s.meta)))]

class Literal(Contract):
    """Shared: the flattened and checked items."""
    must_reach = ("return", "raise"); K = ast.expr
    def hooks(self):
        def fl(e, s, a, k, b): return [("items", e.toV(s, b["nodes"]) == self.x), ("kind", is_class(e, s, b["cls"], self.K))]
        def one(e, s, a, k, b): return [("node", e.toV(s, b["node"]) == self.x), ("kind", is_class(e, s, b["cls"], self.K))]
        return {"ext": {M + "_flatten_and_typecheck_iterable": (stage("items", fl), "contract of _flatten_and_typecheck_iterable (this property)"), M + "_typecheck": (stage("node", one, user=False), "contract of _typecheck (this property)"), "builtins.repr": (lambda e, s, a, k: [(s, V.str(fresh("text", z3.StringSort())))], "text")}}
    def pre(self, c): self.x = c.var("nodes"); c.assume(self.x != ABSENT, z3.Implies(V.is_obj(self.x), z3.And(V.ov(self.x) >= 0, V.ov(self.x) < c.s.alloc))); return [self.x], {}
    def post(self, p):
        t = tags(p)
        if p.raised: return [("fails-in-the-check", z3.BoolVal(t in (["items!"], ["node!"])))] + (fail_passed(p, t) if t else [])
        return self.made(p, p.resultV, t)
    field = "elts"
    def made(self, p, r, t): return [("checked", z3.BoolVal(t == ["items"]))] + ([("node", built(p, r, self.node)), ("items", sel(p.s, r, self.field) == ev(p, 0))] if t == ["items"] else [])
class AstList(Literal): target = M + "ast_list"; node = ast.List
class AstTuple(Literal): target = M + "ast_tuple"; node = ast.Tuple
class LiteralExpr(Literal):
    """In expression form, a node that passes is the result itself, and an iterable becomes a list to be spliced."""
    target = M + "ast_literal"; label = M + "ast_literal[expr]"; node = QT.SpliceNodes; field = "body"; syn = "expr"
    def pre(self, c): super().pre(c); return [self.x, S(self.syn)], {}
    def made(self, p, r, t):
        if t == ["node"]: return [("one-node", type_formula(self.x, ast.AST)), ("itself", r == self.x)]
        return [("iterable", z3.Not(type_formula(self.x, ast.AST)))] + super().made(p, r, t)
class LiteralBlock(Literal):
    """In block form always a list of statements to be spliced."""
    target = M + "ast_literal"; label = M + "ast_literal[block]"; node = QT.SpliceNodes; field = "body"; K = ast.stmt
    def pre(self, c): super().pre(c); return [self.x, S("block")], {}
class LiteralOther(LiteralExpr):
    label = M + "ast_literal[other]"; must_reach = ("raise",)
    def pre(self, c): super().pre(c); self.s = c.str("syntax"); c.assume(self.s != S("expr"), self.s != S("block")); return [self.x, self.s], {}
    def post(self, p): return [("refused", z3.And(p.exc_is(ValueError), z3.BoolVal(not tags(p))) if p.raised else False)]

class Splice(Contract):
    """Every list to be spliced, at any depth, is replaced in the list around it by its own items, spliced likewise, everything else staying in order; a place where that is impossible is an error; the tree itself is the result."""
    target = M + "splice_ast_literals"; must_reach = ("return", "raise"); kind = "list"
    def pre(self, c):
        self.x = c.var("tree"); self.fn = c.str("filename"); c.assume(self.x != ABSENT, z3.Implies(V.is_obj(self.x), z3.And(V.ov(self.x) >= 0, V.ov(self.x) < c.s.alloc)))
        self.thing = {"list": lambda: c.list("thing", "any"), "node": lambda: c.obj("thing", ast.AST), "other": lambda: c.var("thing")}[self.kind](); self.T0 = c.lst(self.thing) if self.kind == "list" else EMPTY; g = c.s.ghost; g["k"] = z3.IntVal(0); g["made"] = EMPTY; g["n"] = z3.IntVal(0)
        if self.kind == "other": c.assume(self.thing != ABSENT, z3.Not(type_formula(self.thing, list)), z3.Not(type_formula(self.thing, ast.AST)), z3.Implies(V.is_obj(self.thing), z3.And(V.ov(self.thing) >= 0, V.ov(self.thing) < c.s.alloc)))
        return [self.x, self.fn], {}
    def splice(self, it): return type_formula(it, QT.SpliceNodes)
    def nested(self, e, s, x):
        g = s.ghost; k = g["k"]
        if self.kind == "list":
            it = self.T0[k]; e.oblige(s, "list.each-item-once-in-order", z3.And(k < z3.Length(self.T0), x == z3.If(self.splice(it), sel(s, it, "body"), it)))
            keep = [self.thing] + [v for v in [s.meta.get("new")] if v is not None]; old = s.clone(); s.L = fresh("L", s.L.sort()); s.H = s.H
            for v in keep: s.assume(z3.Select(s.L, V.ov(v)) == z3.Select(old.L, V.ov(v)))
            acc = e.current.new(s); 
            if acc is not None: s.assume(z3.Select(s.L, V.ov(acc)) == z3.Select(old.L, V.ov(acc)))
            g["made"] = z3.Concat(g["made"], z3.If(self.splice(it), z3.Select(s.L, V.ov(x)), unit(x)))
        elif self.kind == "node": it = field_items(self.thing)[k]; e.oblige(s, "node.each-field-once", z3.And(k < z3.Length(field_items(self.thing)), x == V.tv(it)[1])); s.L = fresh("L", s.L.sort())
        else: e.oblige(s, "other.nothing-inside", z3.BoolVal(False))
        g["k"] = k + 1
    def new(self, s):
        for fid, d in s.frames.items():
            if "newthing" in d: return e_(d["newthing"])
    def hooks(self):
        def doit(e, s, a, k):
            x = e.toV(s, a[0])
            if s.meta.get("inside"): self.nested(e, s, x); return [(s, NONE)]
            e.oblige(s, "starts-with-the-tree", x == self.x); e.oblige(s, "once", s.ghost["n"] == 0); fn = e.reg.cur_fn
            t = s.clone(); t.meta = dict(s.meta, inside=True); n = 0
            for u, r in e.inline(t, fn, [self.thing], {}):
                n += 1
                if isinstance(r, Exc): e.oblige(u, "step.no-failure", z3.BoolVal(False)); continue
                if self.kind == "list": e.oblige(u, "step.all-items", u.ghost["k"] == z3.Length(self.T0)); e.oblige(u, "step.spliced-in-place", z3.Select(u.L, V.ov(self.thing)) == u.ghost["made"])
                elif self.kind == "node": e.oblige(u, "step.all-fields", u.ghost["k"] == z3.Length(field_items(self.thing)))
                else: e.oblige(u, "step.nothing-changed", z3.And(u.H == s.H, u.L == s.L))
            if not n: raise SpecMismatch("the step has no outcome")
            s.ghost["n"] = s.ghost["n"] + 1; havoc_heap(s); return [(s, NONE)]
        def fields(e, s, a, k):
            e.oblige(s, "fields.of-the-node", e.toV(s, a[0]) == self.thing); sq = field_items(self.thing)
            def elt(s, i): it = z3.simplify(sq[i]); s.assume(V.is_tup(it), z3.Length(V.tv(it)) == 2, V.is_str(V.tv(it)[0]), V.tv(it)[1] != ABSENT); return Tup([V.tv(it)[0], V.tv(it)[1]])
            it = SeqIter(z3.Length(sq), elt); it.seq = sq; return [(s, it)]
        def chk(e, s, a, k):
            b = bound(e, a, k); e.oblige(s, "check.after-splicing", s.ghost["n"] == 1); e.oblige(s, "check.tree", e.toV(s, b["tree"]) == self.x); e.oblige(s, "check.kind", is_class(e, s, b["cls"], QT.SpliceNodes)); e.oblige(s, "check.filename", e.toV(s, b["filename"]) == self.fn); s.meta["checked"] = True
            f, g = s.clone(), s.clone(); x, y = exc_any(f, QT.MacroExpansionError), exc_any(g); g.assume(z3.Not(type_formula(y, QT.MacroExpansionError))); f.meta["left"] = True; g.ghost["failure"] = y; return [(s, NONE), (f, Exc(x, None)), (g, Exc(y, None))]
        return {"ext": {M + "splice_ast_literals.<locals>.doit": (doit, "recursive walk: its step is obliged on an arbitrary thing (induction on the tree)"), "ast.iter_fields": (fields, "yields (name, value) pairs in a fixed order"), "mcpyrate.markers:check_no_markers_remaining": (chk, "contract of check_no_markers_remaining (C09)"), "builtins.repr": (lambda e, s, a, k: [(s, V.str(fresh("text", z3.StringSort())))], "text")}}
    @property
    def loops(self):
        def inv(c):
            g = c.s.ghost; out = [("position", g["k"] == c.i)] + ([("inside", c.i <= z3.Length(self.T0))] if self.kind == "list" else [])
            if self.kind == "list": out += [("made", c.lst(c.var("newthing")) == g["made"]), ("items", z3.And(c.lst(self.thing) == self.T0, c.s.H == c.pre.H)), ("new", c.var("newthing") != self.thing)]
            return out
        def ax(c):
            if self.kind != "list": return []
            it = self.T0[c.i]; b = sel(c.s, it, "body"); return [z3.Implies(self.splice(it), z3.And(type_formula(b, list), b != self.thing, b != c.var("newthing"), V.ov(b) >= 0)), z3.Implies(V.is_obj(it), V.ov(it) >= 0)]
        return (LoopSpec(inv, ax),)
    def post(self, p):
        bad = z3.Not(z3.Or(type_formula(self.x, list), type_formula(self.x, ast.AST))); g = p.s.ghost
        if p.returned: return [("result", p.resultV == self.x), ("spliced-and-checked", z3.And(g["n"] == 1, z3.BoolVal("checked" in p.s.meta))), ("none-left", z3.BoolVal("left" not in p.s.meta)), ("a-tree", z3.Not(bad))]
        if "failure" in g: return [("passed-on", p.exc.v == g["failure"])]
        if "left" in p.s.meta: return [("misplaced", p.exc_is(RuntimeError)), ("quiet-context", sel(p.s, p.exc.v, "__suppress_context__") == TRUE)]
        return [("not-a-tree", z3.And(bad, p.exc_is(TypeError), g["n"] == 0))]
def e_(v): return v if is_v(v) else None
class SpliceNode(Splice): label = M + "splice_ast_literals[step on a node]"; kind = "node"
class SpliceOther(Splice): label = M + "splice_ast_literals[step on anything else]"; kind = "other"

# ---------------------------------------------------------------- the uncompiler
unlifted = z3.Function("unlifted", V, V)
UNLIFTED = Fold("each_unlifted", SeqV, EMPTY, lambda acc, x: z3.Concat(acc, unit(unlifted(x))))
class Unastify(Contract):
    """Taking one lifted value back, with what is inside it taken back by this same contract."""
    target = M + "unastify"; must_reach = ("return", "raise"); cls = None; fname = None
    def pre(self, c):
        self.x = self.value(c); self.a0, self.L0, self.H0 = c.s.alloc, c.s.L, c.s.H; self.r0, self.f0 = z3.Const("any_object", Int), z3.Const("any_attribute", Str); c.assume(self.r0 >= 0, self.r0 < self.a0); return [self.x], {}
    alone = Astify.alone; fail = Astify.fail
    def hooks(self):
        def rec(e, s, a, k):
            x = e.toV(s, a[0]); f = s.clone(); r = unlifted(x); s.assume(r != ABSENT, z3.Implies(V.is_obj(r), z3.And(V.ov(r) >= 0, V.ov(r) < s.alloc + s.nalloc))); self.inside(e, s, x); return [(s, r), (f, Exc(self.fail(f)))]
        def unp(e, s, a, k):
            e.oblige(s, "called.of-the-function", e.toV(s, a[0]) == sel(s, self.x, "func"))
            if self.fname is None: raise SpecMismatch("no call here")
            return [(s, S(self.fname))]
        def lm(e, s, a, k):
            e.oblige(s, "bind.key", e.toV(s, a[0]) == V.tup(seq(*self.parts))); f = s.clone(); r = fresh("name_node"); s.assume(V.is_obj(r)); s.ghost["node"] = r; return [(s, r), (f, Exc(self.fail(f)))]
        return {"ext": {M + "unastify": (rec, "recursive call: this contract (induction on the tree)"), "mcpyrate.unparser:unparse": (unp, "contract of unparse (C01): the dotted name of the called function"), "mcpyrate.unparser:unparse_with_fallbacks": (lambda e, s, a, k: [(s, V.str(fresh("text", z3.StringSort())))], "contract of unparse_with_fallbacks (C01)"), M + "lookup_macro": (lm, "contract of lookup_macro (C03): binds the macro, and names it"), "ast.copy_location": (copy_location, "copies the location attributes")}}
    def inside(self, e, s, x): pass
    def post(self, p):
        out = [("everything-old-untouched", self.alone(p.s))]
        if p.raised: return out + [("fails-only-inside", p.exc.v == p.s.ghost["failure"] if "failure" in p.s.ghost else False)]
        return out + self.made(p, p.resultV)
class UnConstant(Unastify):
    """A constant's value."""
    label = M + "unastify[Constant]"; must_reach = ("return",)
    def value(self, c): x = c.obj("tree", ast.Constant, exact=True); self.v = c.var("value"); c.assume(self.v != ABSENT); c.setattr(x, "value", self.v); return x
    def made(self, p, r): return [("value", r == self.v)]
class UnList(Unastify):
    """The elements taken back, in order, as a new list."""
    label = M + "unastify[List]"; node = ast.List
    def value(self, c): x = c.obj("tree", self.node, exact=True); l = c.list("elts", "AST"); c.setattr(x, "elts", l); self.S0 = c.lst(l); return x
    @property
    def loops(self): return (LoopSpec(lambda c: [("elements", c.lst(c.var("$acc")) == UNLIFTED(z3.Extract(self.S0, 0, c.i))), ("alone", z3.And(self.alone(c.s), c.s.H == c.pre.H))], lambda c: UNLIFTED.axioms(self.S0, c.i)),)
    def made(self, p, r): return [("new-list", z3.And(type_formula(r, list), V.ov(r) >= self.a0, z3.Select(p.s.L, V.ov(r)) == UNLIFTED(self.S0)))]
class UnTuple(UnList):
    label = M + "unastify[Tuple]"; node = ast.Tuple
    def made(self, p, r): return [("tuple", r == V.tup(UNLIFTED(self.S0)))]
class UnBareList(UnList):
    label = M + "unastify[list]"
    def value(self, c): x = c.list("tree", "AST"); self.S0 = c.lst(x); return x
class UnKeyword(Unastify):
    """The name and the value taken back."""
    label = M + "unastify[keyword]"
    def value(self, c): x = c.obj("tree", ast.keyword, exact=True); self.n, self.v = c.var("arg"), c.var("value"); c.assume(self.n != ABSENT, self.v != ABSENT); c.setattr(x, "arg", self.n); c.setattr(x, "value", self.v); return x
    def made(self, p, r): return [("pair", r == V.tup(seq(self.n, unlifted(self.v))))]
class UnCommand(Unastify):
    """A call of an operator's run-time part becomes that operator's command, with the code as it is."""
    must_reach = ("return",); cls, extra = QT.Unquote, None
    def value(self, c):
        x = c.obj("tree", ast.Call, exact=True); self.b = c.var("code"); c.assume(self.b != ABSENT); el = [self.b]
        if self.extra: k = c.obj("extra", ast.Constant, exact=True); self.w = c.var("extra_value"); c.assume(self.w != ABSENT); c.setattr(k, "value", self.w); el.append(k)
        c.setattr(x, "args", c.eng.alloc_list(c.s, seq(*el))); return x
    def made(self, p, r): return [("command", built(p, r, self.cls)), ("code", sel(p.s, r, "body") == self.b)] + ([("with", sel(p.s, r, self.extra) == self.w)] if self.extra else [])
def uncommand(cls, attr, extra=None): return type("Un" + cls.__name__, (UnCommand,), dict(label=M + f"unastify[{attr}]", cls=cls, fname="mcpyrate.quotes." + attr, extra=extra, target=M + "unastify"))
UNCOMMANDS = [uncommand(QT.Unquote, "astify"), uncommand(QT.LiftSourcecode, "lift_sourcecode", "filename"), uncommand(QT.ASTLiteral, "ast_literal", "syntax"), uncommand(QT.ASTList, "ast_list"), uncommand(QT.ASTTuple, "ast_tuple"), uncommand(QT.Capture, "capture_value", "name")]
class UnQuote(Unastify):
    """The run-time part of `q` is dropped."""
    label = M + "unastify[q]"; fname = "mcpyrate.quotes.splice_ast_literals"
    def value(self, c): x = c.obj("tree", ast.Call, exact=True); self.b, f = c.obj("code", ast.AST), c.obj("filename", ast.Constant, exact=True); c.setattr(x, "args", c.eng.alloc_list(c.s, seq(self.b, f))); return x
    def made(self, p, r): return [("quoted-code", r == unlifted(self.b))]
class UnMacro(Unastify):
    """A captured macro is bound again, under its unique name, and becomes a capture of that name under the macro's own name."""
    label = M + "unastify[captured macro]"; fname = "mcpyrate.quotes.lookup_macro"
    def value(self, c):
        x = c.obj("tree", ast.Call, exact=True); t = c.obj("key", ast.Tuple, exact=True); self.parts = []; el = []
        for i in range(3): k = c.obj(f"part{i}", ast.Constant, exact=True); v = c.str(f"value{i}") if i < 2 else c.var("frozen"); c.assume(v != ABSENT); c.setattr(k, "value", v); self.parts.append(v); el.append(k)
        c.assume(z3.Distinct(*el)); c.setattr(t, "elts", c.eng.alloc_list(c.s, seq(*el))); c.setattr(x, "args", c.eng.alloc_list(c.s, seq(t))); return x
    @property
    def loops(self): P = seq(*self.parts); return (LoopSpec(lambda c: [("values", c.lst(c.var("$acc")) == z3.Extract(P, 0, c.i)), ("heap", c.s.H == c.pre.H), ("alone", self.alone(c.s))], lambda c: [z3.Implies(z3.And(c.i >= 0, c.i < 3), z3.Extract(P, 0, c.i + 1) == z3.Concat(z3.Extract(P, 0, c.i), unit(P[c.i])))]),)
    def made(self, p, r): return [("capture", built(p, r, QT.Capture)), ("of-the-unique-name", sel(p.s, r, "body") == p.s.ghost.get("node", NONE)), ("under-its-name", sel(p.s, r, "name") == self.parts[0])]
class UnOther(Unastify):
    """Anything that is not lifted code is refused."""
    label = M + "unastify[anything else]"; must_reach = ("raise",)
    def value(self, c): x = c.var("tree"); c.assume(x != ABSENT, z3.Not(exact_type_formula(x, list)), z3.Implies(V.is_obj(x), z3.And(V.ov(x) >= 0, V.ov(x) < c.s.alloc, *[cls_of(V.ov(x)) != cid(K) for K in (ast.Constant, list, ast.keyword, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.Call)]))); return x
    def post(self, p): return [("refused", p.exc_is(TypeError) if p.raised else False)]

class UnDict(Unastify):
    """For each pair the key taken back leads to its value taken back (the last one, when keys repeat); there are no other keys."""
    label = M + "unastify[Dict]"
    def value(self, c):
        x = c.obj("tree", ast.Dict, exact=True); k, v = c.list("keys", "AST"), c.list("values", "AST"); c.assume(k != v); c.setattr(x, "keys", k); c.setattr(x, "values", v); self.K, self.W = c.lst(k), c.lst(v); n = z3.Length(self.K); c.assume(n == z3.Length(self.W))
        self.j, self.q, m = z3.Const("pair", Int), z3.Const("no_key", V), z3.Int("m"); c.assume(self.q != ABSENT, z3.ForAll([m], z3.Implies(z3.And(m > self.j, m < n), unlifted(self.K[m]) != unlifted(self.K[self.j]))), z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < n), unlifted(self.K[m]) != self.q))); return x
    def at(self, D, i): return z3.And(z3.Implies(z3.And(self.j >= 0, self.j < i), z3.Select(D, unlifted(self.K[self.j])) == unlifted(self.W[self.j])), z3.Select(D, self.q) == ABSENT)
    @property
    def loops(self): return (LoopSpec(lambda c: [("pairs", self.at(z3.Select(c.s.D, V.ov(c.var("$acc"))), c.i)), ("alone", z3.And(self.alone(c.s), c.s.H == c.pre.H))]),)
    def made(self, p, r): return [("new-dict", z3.And(type_formula(r, dict), V.ov(r) >= self.a0)), ("pairs", self.at(z3.Select(p.s.D, V.ov(r)), z3.Length(self.K)))]
found = z3.Function("attribute_found", V, V, V)
class UnNode(Unastify):
    """A lifted node is made again: its class, looked up by its dotted name, with the fields taken back by name; it carries the call's location."""
    label = M + "unastify[node]"; fname = "mcpyrate.quotes.ast.Anything"
    def value(self, c):
        x = c.obj("tree", ast.Call, exact=True); self.args, self.kws = c.list("args", "AST"), c.list("keywords", "AST"); c.assume(self.args != self.kws, c.lst(self.args) == EMPTY); c.setattr(x, "args", self.args); c.setattr(x, "keywords", self.kws); self.g = c.dict("module_names")
        self.k = z3.Const("class_found", V); c.assume(V.is_obj(self.k), V.ov(self.k) >= 0, V.ov(self.k) < c.s.alloc); self.P = z3.Const("pairs", SeqV); self.j, m = z3.Const("pair", Int), z3.Int("m"); n = z3.Length(self.P); c.assume(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < n), self.pair(m))), z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < n, m != self.j), V.tv(self.P[m])[0] != V.tv(self.P[self.j])[0]))); self.q = z3.Const("no_name", V); c.assume(self.q != ABSENT, z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < n), V.tv(self.P[m])[0] != self.q))); return x
    def pair(self, m): t = V.tv(self.P[m]); return z3.And(V.is_tup(self.P[m]), z3.Length(t) == 2, V.is_str(t[0]), t[1] != ABSENT)
    def hooks(self):
        h = super().hooks(); rec = h["ext"][M + "unastify"][0]
        def un(e, s, a, k):
            x = e.toV(s, a[0]); out = rec(e, s, a, k); r = None
            if e.entails(s, x == self.args): r = e.alloc_list(s, EMPTY)
            elif e.entails(s, x == self.kws): r = e.alloc_list(s, self.P)
            else: e.oblige(s, "only-arguments", z3.BoolVal(False)); return out
            return [(out[0][0], r)] + out[1:]
        def look(e, s, a, k): e.oblige(s, "class.by-its-dotted-name", e.toV(s, a[0]) == S(self.fname)); f = s.clone(); self.lookup(e, s.clone(), e.reg.cur_fn); return [(s, self.k), (f, Exc(self.fail(f)))]
        h["ext"][M + "unastify"] = (un, "recursive call: this contract (induction on the tree)"); h["ext"][M + "unastify.<locals>.lookup_thing"] = (look, "steps of the lookup: this contract, for a chosen dotted name"); h["ext"]["builtins.getattr"] = (self.attribute, "the attribute, or AttributeError"); h["ext"]["builtins.globals"] = (lambda e, s, a, k: [(s, self.g)], "this module's own names")
        def call(e, s, f, args, kw):
            if not e.entails(s, e.toV(s, f) == self.k): return None
            ds = kw.get("**", []); e.oblige(s, "made.by-name-only", z3.BoolVal(not args and len(ds) == 1 and set(kw) <= {"**"}))
            if len(ds) != 1: return None
            e.oblige(s, "made.with-the-fields", self.at(z3.Select(s.D, V.ov(e.toV(s, ds[0]))), z3.Length(self.P))); g = s.clone(); C = Ctx(e, s); o = fresh("node"); s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc, type_formula(o, ast.AST)); na = fresh("alloc", Int); s.assume(na > V.ov(o)); s.alloc, s.nalloc = na, 0; s.ghost["node"] = o; return [(s, o), (g, Exc(self.fail(g)))]
        h["unknown_call"] = call; return h
    dotted, chain = "mcpyrate.quotes.ast.Anything", ("Anything",)                 # a module attribute and what is looked up on it, in order
    def attribute(self, e, s, a, k):
        if not s.meta.get("looking"): return None
        f = s.clone(); r = found(e.toV(s, a[0]), e.toV(s, a[1])); s.assume(r != ABSENT); return [(s, r), (f, Exc(exc_any(f, AttributeError), AttributeError))]
    def lookup(self, e, s, fn):
        s.meta = dict(s.meta, looking=True); n = 0
        for u, r in e.inline(s, fn, [PyObj(self.dotted)], {}):
            if isinstance(r, Exc): e.oblige(u, "lookup.fails-only-at-an-attribute", z3.BoolVal(r.cls in ((NotImplementedError,) if self.chain is None else (AttributeError, KeyError)))); continue
            n += 1
            if self.chain is None: e.oblige(u, "lookup.refused", z3.BoolVal(False)); continue
            want = z3.Select(z3.Select(u.D, V.ov(self.g)), S(self.dotted.split(".")[2]))
            for x in self.chain: want = found(want, S(x))
            e.oblige(u, "lookup.the-attribute-of-this-module", e.toV(u, r) == want)
        if self.chain is not None: e.oblige(s, "lookup.can-succeed", z3.BoolVal(n > 0))
    def at(self, D, i): p = V.tv(self.P[self.j]); return z3.And(z3.Implies(z3.And(self.j >= 0, self.j < i), z3.Select(D, p[0]) == p[1]), z3.Select(D, self.q) == ABSENT)
    @property
    def loops(self): return (LoopSpec(lambda c: [("pairs", self.at(z3.Select(c.s.D, V.ov(c.var("$acc"))), c.i)), ("alone", z3.And(self.alone(c.s), c.s.H == c.pre.H))]),)
    def made(self, p, r): return [("node", r == p.s.ghost.get("node", NONE)), ("location", loc_eq(p.s, r, p.s0, self.x))]
def looking(name, dotted, chain): return type("UnNode" + name, (UnNode,), dict(label=M + f"unastify[node, {name.lower()}]", dotted=dotted, chain=chain, target=M + "unastify"))
LOOKUPS = [looking("Direct", "mcpyrate.quotes.something", ()), looking("Deep", "mcpyrate.quotes.a.b.c", ("b", "c")), looking("Elsewhere", "other.quotes.thing", None), looking("Odd", "mcpyrate.quotes.a-b", None), looking("Short", "mcpyrate.quotes", None)]
ENUM = z3.Function("enumerated", z3.ArraySort(V, z3.BoolSort()), SeqV)           # a set's elements, each once, in some order
class AstifySet(Astify):
    """The elements of the set, lifted, each once."""
    label = M + "astify[set]"
    def value(self, c): x = c.set("x"); self.S0 = ENUM(c.sset(x)); return x
    def hooks(self):
        h = super().hooks()
        def it(e, s, v):
            if is_v(v) and e.entails(s, v == self.x): r = SeqIter(z3.Length(self.S0), lambda s, i: z3.simplify(self.S0[i])); r.seq = self.S0; return r
        h["iter"] = it; return h
    loops = AstifyList.loops
    def made(self, p, r): return [("node", built(p, r, ast.Set)), ("elements", lst(p, r, "elts") == LIFTED(self.S0))]

CONTRACTS = [U, N, Sq, Tq, A, ABlock, AAsname, H, Q, QBlock, QBlockBad, QBlockNone, ExpandQuasiquotes, Again, AgainBlock, AgainOther, LiftSource, AstifyCapture, AstifyCaptureNoExpander, AstifyConstant, AstifyList, AstifyTuple, AstifyDict, AstifyNode, AstifyDone, AstifyMarker, AstifyOther, Typecheck, TypecheckMarker, TypecheckMarkerBlock, TypecheckStmt, Flatten, AstList, AstTuple, LiteralExpr, LiteralBlock, LiteralOther, Splice, SpliceNode, SpliceOther, UnConstant, UnList, UnTuple, UnBareList, UnKeyword, UnQuote, UnMacro, UnOther, UnDict, UnNode, *LOOKUPS, AstifySet] + COMMANDS + UNCOMMANDS + REFUSED
