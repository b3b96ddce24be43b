from contracts.base import *
from contracts.c15 import stage, exc_any, tags, ev, fail_passed
from mcpyrate.expander import MacroExpander
from mcpyrate.core import Done
import mcpyrate.metatools as MT

M = "mcpyrate.metatools:"; SYNTAXES = ("expr", "block", "name", "decorator")
ONCE, REC, VISIT = ("mcpyrate.core:BaseMacroExpander." + n for n in ("visit_once", "visit_recursively", "visit"))
def done(e, t, a, k, b):
    """visit_once gives Done(body=...)."""
    o = e.alloc(t, Done); x = fresh("body"); t.assume(x != ABSENT, z3.Implies(V.is_obj(x), V.ov(x) < t.alloc + t.nalloc)); e.setH(t, o, "body", x); return o
def arg0(e, s, a, b, k="tree"): return e.toV(s, (b or {}).get(k, a[0] if a else NONE))
def mode(e, s): return walker_of(e)

class AtRuntime(Contract):
    """A new expander with exactly these bindings and this filename expands the tree, in this mode."""
    target = M + "runtime_expand"; call, other = REC, ONCE; must_reach = ("return", "raise")
    def pre(self, c): self.b, self.fn, self.t = c.var("bindings"), c.str("filename"), c.var("tree"); c.assume(self.b != ABSENT, self.t != ABSENT); return [self.b, self.fn, self.t], {}
    def hooks(self):
        def mk(e, s, a, kw):
            b = dict(zip(("bindings", "filename"), a), **kw); e.oblige(s, "expander.bindings", e.toV(s, b["bindings"]) == self.b); e.oblige(s, "expander.filename", e.toV(s, b["filename"]) == self.fn); e.oblige(s, "expander.options", z3.BoolVal(set(b) == {"bindings", "filename"}))
            o = Ctx(e, s).obj("expander", MacroExpander, exact=True); s.meta["x"] = o; return [(s, o)]
        ok = lambda e, s, a, k, b: [("tree", arg0(e, s, a, b) == self.t), ("expander", e.toV(s, walker_of(e)) == s.meta.get("x", NONE))]
        return {"ext": {"mcpyrate.expander.MacroExpander": (mk, "constructor: an expander with these bindings"), self.call: (stage("expand", ok, done if self.call == ONCE else None), "contract of the visit methods (C04)")}}
    def result(self, p): return p.resultV == ev(p, 0)
    def post(self, p):
        t = tags(p)
        return [("once", z3.BoolVal(t == ["expand"])), ("result", self.result(p))] if p.returned else [("once", z3.BoolVal(t == ["expand!"]))] + fail_passed(p, t)
class AtRuntimeOnce(AtRuntime):
    target = M + "runtime_expand1"; call, other = ONCE, REC
    def result(self, p): return p.resultV == sel(p.s, ev(p, 0), "body")

class Tool(Contract):
    """Shared: a macro of the family, called as the expander calls it."""
    must_reach = ("return", "raise"); syntax = "expr"; asname = False; allowed = ("expr", "block")
    def pre(self, c):
        self.t, self.x, self.inv = c.var("tree"), c.obj("expander", MacroExpander, exact=True), c.obj("invocation", ast.AST); c.assume(self.t != ABSENT); self.fn = c.str("filename"); c.setattr(self.x, "filename", self.fn)
        self.binds = c.dict("bindings"); c.setattr(self.x, "recursive", c.bool("recursive")); self.ov = c.obj("target", ast.AST) if self.asname else NONE
        self.a0 = c.s.alloc
        return [self.t], dict(syntax=PyObj(self.syntax), expander=self.x, invocation=self.inv, **({"optional_vars": self.ov} if self.syntax == "block" else {}))
    def attr(self, e, s, v, name):
        if name == "bindings" and e.entails(s, v == self.x): return [(s, self.binds)]
    def same_kw(self, e, s, kw, asname=True, syntaxes=None):
        """The keyword arguments are the macro's own, unchanged."""
        want = {"syntax": S(self.syntax), "expander": self.x, "invocation": self.inv}
        if self.syntax == "block": want["optional_vars"] = self.ov if asname else NONE
        got = {k: e.toV(s, v) for k, v in kw.items() if k != "**"}
        for d in kw.get("**", []):
            o = V.ov(e.toV(s, d)); ks = e.concrete_seq(z3.Select(s.DK, o))
            if ks is None: raise SpecMismatch("keywords are not known")
            for k in ks: got[e.conc(k)[1]] = z3.Select(z3.Select(s.D, o), k)
        return [("keywords", z3.And([z3.BoolVal(set(got) == set(want))] + [z3.Or([got[k] == S(x) for x in syntaxes]) if k == "syntax" and syntaxes else got[k] == w for k, w in want.items() if k in got]))]
    def rejected(self): return self.syntax not in self.allowed
    def refuse(self, p): return [("refused", z3.And(p.exc_is(SyntaxError), z3.BoolVal(tags(p) == [])))] if p.raised else [("refused", False)]

class Quoted(Tool):
    """Expands the invocations inside the quoting code first (one layer), then, in the tool's own mode, whatever the mode of the expander, the code that is quoted there; the result is quoted again (an empty result as an empty block)."""
    target = M + "expands"; once = False
    def hooks(self):
        me = lambda e, s: e.toV(s, walker_of(e)) == self.x
        def vis(e, s, a, k, b): return [("of-this-expander", me(e, s)), ("tree", arg0(e, s, a, b) == self.t)]
        first = stage("outer", vis, done)
        def inner(e, s, a, k, b): return [("of-this-expander", me(e, s)), ("unquoted-code", arg0(e, s, a, b) == ev_(s, 1))]
        second = {True: stage("inner-once", inner, done), False: stage("inner-full", inner)}
        def once(e, s, a, k):
            n = len(tags_(s)); return first(e, s, a, k) if n == 0 else second[True](e, s, a, k)
        def anymode(e, s, a, k):
            e.oblige(s, "inner.in-the-tool's-own-mode", sel(s, self.x, "recursive") == B(not self.once)); s.meta["plain"] = True; return stage("inner-once" if self.once else "inner-full", inner)(e, s, a, k)
        un = stage("unquote", lambda e, s, a, k, b: [("tree", arg0(e, s, a, b) == sel(s, ev_(s, 0), "body"))], user=False)
        def qq(e, s, a, k, b):
            x = ev_(s, 2); x = sel(s, x, "body") if self.once and "plain" not in s.meta else x; y = arg0(e, s, a, b)
            return [("code", z3.If(x == NONE, z3.And(type_formula(y, list), z3.Select(s.L, V.ov(y)) == EMPTY, V.ov(y) >= e.current.a0), y == x))] + self.same_kw(e, s, k)
        return {"attr": self.attr, "ext": {ONCE: (once, "contract of visit_once (C04)"), REC: (second[False], "contract of visit_recursively (C04)"), VISIT: (anymode, "contract of visit (C04): in the mode the expander is in"), "mcpyrate.quotes:unastify": (un, "contract of unastify (C02)"), "mcpyrate.quotes:q": (stage("quote", qq), "contract of q (C02)")}}

    def post(self, p):
        if self.rejected() or (self.syntax == "block" and self.asname): return self.refuse(p)
        t = tags(p); full = ["outer", "unquote", "inner-once" if self.once else "inner-full", "quote"]
        if p.returned: return [("steps", z3.BoolVal(t == full)), ("result", p.resultV == ev(p, 3))]
        return [("stops-at-the-failing-step", z3.BoolVal(t == full[:len(t) - 1] + [full[len(t) - 1] + "!"] if t else False))] + fail_passed(p, t)
def tags_(s):
    class P: pass
    q = P(); q.trace = lambda: s.ghost["trace"]; return tags(q)
def ev_(s, i): return V.tv(s.ghost["trace"][i])[1]
def variants(K, names, **kw):
    out = []
    for n, d in names.items():
        for syn in SYNTAXES:
            for asn in ((False, True) if syn == "block" else (False,)):
                bad = syn not in K.allowed or (syn == "block" and asn and issubclass(K, (Quoted, AtRun)))
                out.append(type(f"{K.__name__}_{n}_{syn}{'_as' if asn else ''}", (K,), dict(d, target=M + n, syntax=syn, asname=asn, __doc__=K.__doc__, label=f"{M}{n}[{syn}{', as-part' if asn else ''}]", must_reach=("raise",) if bad else K.must_reach)))
    return out
class QuoteFirst(Tool):
    """Quotes the tree as `q` does with the same keywords, then applies the tool to that; in block mode to the value of the assignment that `q` made, which is kept."""
    inner, inner_syntax = "expands", ("expr",)
    def hooks(self):
        def res(e, t, a, k, b):
            if self.syntax != "block": return fresh("quoted")
            o = e.alloc(t, ast.Assign); v = fresh("quoted"); t.assume(v != ABSENT); e.setH(t, o, "value", v); t.ghost["v0"] = v; return o
        def qq(e, s, a, k, b): return [("tree", arg0(e, s, a, b) == self.t)] + self.same_kw(e, s, k)
        def tool(e, s, a, k, b):
            x = arg0(e, s, a, b); out = [("quoted-code", x == (ev_(s, 0) if self.syntax != "block" else s.ghost["v0"]))]
            return out + (self.same_kw(e, s, k) if self.syntax != "block" else self.same_kw(e, s, k, False, self.inner_syntax))
        return {"attr": self.attr, "ext": {"mcpyrate.quotes:q": (stage("quote", qq, res), "contract of q (C02): in block mode, outside other quotes, an assignment"), M + self.inner: (stage("tool", tool), f"contract of {self.inner}")}}
    def post(self, p):
        if self.rejected(): return self.refuse(p)
        t = tags(p); full = ["quote", "tool"]
        if p.returned:
            return [("steps", z3.BoolVal(t == full)), ("result", p.resultV == ev(p, 1) if self.syntax != "block" else z3.And(p.resultV == ev(p, 0), sel(p.s, p.resultV, "value") == ev(p, 1)))]
        return [("stops-at-the-failing-step", z3.BoolVal(t == full[:len(t) - 1] + [full[len(t) - 1] + "!"] if t else False))] + fail_passed(p, t)

# ---------------------------------------------------------------- run-time tools
astified = z3.Function("astified", V, V); captured = z3.Function("captured_as", V, V, V); attr_of = z3.Function("attribute_lookup", V, V)
def astify_hook(e, s, args, kw): r = astified(e.toV(s, args[0])); s.assume(r != ABSENT); return [(s, r)]
def attr_hook(e, s, args, kw): r = attr_of(e.toV(s, args[0])); s.assume(r != ABSENT); return [(s, r)]
def call_parts(p, node, params):
    """{parameter: value} of an `ast.Call` that the function built; None if it is not such a call."""
    L = lambda n: p.eng.concrete_seq(rd(p.s.L, z3.simplify(V.ov(rd(p.s.H, z3.simplify(V.ov(node)), z3.StringVal(n))))))
    a, k = L("args"), L("keywords")
    if a is None or k is None: return None
    out = {}
    for n, v in zip(params, a): out[n] = v
    for x in k:
        ok, n = p.eng.conc(rd(p.s.H, z3.simplify(V.ov(x)), z3.StringVal("arg")))
        if not ok or n in out: return None
        out[n] = rd(p.s.H, z3.simplify(V.ov(x)), z3.StringVal("value"))
    return out
def is_call(p, node, func, params, want, tag=""):
    d = call_parts(p, node, params)
    if d is None: raise SpecMismatch("the built call is not understood")
    return [(tag + "call", z3.And(type_formula(node, ast.Call), cls_of(V.ov(node)) == cid(ast.Call), V.ov(node) >= p.s0.alloc)), (tag + "function", sel(p.s, node, "func") == attr_of(S(func))), (tag + "parameters", z3.BoolVal(set(d) == set(want)))] + [(tag + n, d[n] == w) for n, w in want.items() if n in d and w is not None]
def bindings_hook(self):
    def ok(e, s, a, k, b): return [("of-this-expander", z3.And(e.toV(s, k["expander"]) == self.x, e.toV(s, k["syntax"]) == S("name")))]
    return (stage("bindings", ok, user=False), "contract of macro_bindings (a call that builds new nodes only)")
BUILD = {"mcpyrate.quotes:astify": (astify_hook, "contract of astify (C02)"), "mcpyrate.coreutils:_mcpyrate_attr": (attr_hook, "contract of _mcpyrate_attr (C03, one per attribute the package looks up)")}
class AtRun(Tool):
    """Code that calls the run-time part with the snapshot of the use site's bindings, its filename, and the tree's value."""
    op = "runtime_expand"
    def hooks(self): return {"attr": self.attr, "ext": dict(BUILD, **{M + "macro_bindings": bindings_hook(self)})}
    def post(self, p):
        if self.rejected() or (self.syntax == "block" and self.asname): return self.refuse(p)
        t = tags(p)
        if p.raised: return [("bindings-failed", z3.BoolVal(t == ["bindings!"]))] + fail_passed(p, t)
        return [("snapshot", z3.BoolVal(t == ["bindings"]))] + is_call(p, p.resultV, "metatools." + self.op, ("bindings", "filename", "tree"), {"bindings": ev(p, 0), "filename": astified(self.fn), "tree": self.t}) + p.unchanged("H", "L", "D")
class MacroBindings(Tool):
    """Code for a dict of every binding of the expander, in order: its name, and the macro captured by value under that name."""
    target = M + "macro_bindings"; allowed = ("name",); syntax = "name"; must_reach = ("return",)
    def pre(self, c):
        r = super().pre(c); self.K, self.D = z3.Select(c.s.DK, V.ov(self.binds)), c.dct(self.binds); j = z3.Int("j")
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.Length(self.K)), z3.And(V.is_str(self.K[j]), z3.Select(self.D, self.K[j]) != ABSENT)))); return r
    def hooks(self):
        self.KEYS = Fold("names", SeqV, EMPTY, lambda a, x: z3.Concat(a, unit(astified(x)))); self.VALS = Fold("macros", SeqV, EMPTY, lambda a, x, D: z3.Concat(a, unit(captured(z3.Select(D, x), x))), extra=(DictVal,))
        def cap(e, s, a, k): b = bound(e, a, k); r = captured(e.toV(s, b["value"]), e.toV(s, b["name"])); s.assume(r != ABSENT); return [(s, r)]
        return {"attr": self.attr, "ext": dict(BUILD, **{"mcpyrate.quotes:capture_value": (cap, "contract of capture_value (C03); that macros can be pickled is assumed")})}
    @property
    def loops(self):
        acc = lambda c: z3.Select(c.s.L, V.ov(c.var("$acc")))
        k = LoopSpec(lambda c: [("names", acc(c) == self.KEYS(z3.Extract(self.K, 0, c.i)))], lambda c: self.KEYS.axioms(self.K, c.i)); v = LoopSpec(lambda c: [("macros", acc(c) == self.VALS(z3.Extract(self.K, 0, c.i), self.D))], lambda c: self.VALS.axioms(self.K, c.i, self.D))
        return (k, v)
    def post(self, p):
        if self.rejected(): return self.refuse(p)
        if p.raised: return [("noraise", False)]
        r = p.resultV; L = lambda n: z3.Select(p.s.L, V.ov(sel(p.s, r, n)))
        return [("dict", z3.And(cls_of(V.ov(r)) == cid(ast.Dict), V.ov(r) >= p.s0.alloc)), ("names", L("keys") == self.KEYS(self.K)), ("macros", L("values") == self.VALS(self.K, self.D))] + p.unchanged("H", "L", "D")
class MacroBindingsRefused(MacroBindings):
    label = M + "macro_bindings[expr]"; syntax = "expr"; must_reach = ("raise",)

class FillLocation(Tool):
    """Code that fills the missing locations of the tree's value, at run time, from a node with the location of this invocation."""
    target = M + "fill_location"; allowed = ("expr",); have = (True, True); must_reach = ("return",)
    def pre(self, c):
        r = super().pre(c); self.loc = [c.var(n) for n in ("lineno", "col_offset")]; self.K0 = z3.Const("in_keywords", SeqV)
        for n, v, h in zip(("lineno", "col_offset"), self.loc, self.have): c.assume((v != ABSENT) if h else (v == ABSENT)); c.setattr(self.inv, n, v)
        return r
    def hooks(self):
        def asti(e, s, args, kw):
            x = e.toV(s, args[0])
            if not e.entails(s, type_formula(x, ast.Constant)): return astify_hook(e, s, args, kw)
            e.oblige(s, "reference.fresh", z3.And(V.ov(x) >= e.current.a0, sel(s, x, "lineno") == ABSENT, sel(s, x, "col_offset") == ABSENT)); o = e.alloc(s, ast.Call); e.setH(s, o, "keywords", e.alloc_list(s, self.K0)); s.meta["ref"] = o; return [(s, o)]
        return {"attr": self.attr, "ext": dict(BUILD, **{"mcpyrate.quotes:astify": (asti, "contract of astify (C02): for a node, code that builds an equal node")})}
    def post(self, p):
        if self.rejected() or not all(self.have): return self.refuse(p)
        if p.raised: return [("noraise", False)]
        o = p.s.meta.get("ref")
        if o is None: return [("reference-node", False)]
        kl = rd(p.s.L, z3.simplify(V.ov(rd(p.s.H, z3.simplify(V.ov(o)), z3.StringVal("keywords"))))); n = z3.Length(self.K0); k = [kl[n], kl[n + 1]]
        is_ = lambda x, nm, v: z3.And(V.is_obj(x), cls_of(V.ov(x)) == cid(ast.keyword), sel(p.s, x, "arg") == S(nm), sel(p.s, x, "value") == astified(v))
        both = lambda a, b: z3.And(is_(a, "lineno", self.loc[0]), is_(b, "col_offset", self.loc[1]))
        return [("location", z3.And(z3.Extract(kl, 0, n) == self.K0, z3.Length(kl) == n + 2, z3.Or(both(*k), both(*k[::-1]))))] + is_call(p, p.resultV, "metatools.fix_locations", ("tree", "reference_node"), {"tree": self.t, "reference_node": o, "mode": astified(S("reference"))}) + p.unchanged("H", "L", "D")
FILL = variants(FillLocation, {"fill_location": {}}) + [type("FillLocationNo" + n, (FillLocation,), dict(have=h, must_reach=("raise",), label=M + f"fill_location[invocation without {n}]", __doc__=FillLocation.__doc__)) for n, h in (("lineno", (False, True)), ("col_offset", (True, False)))]

class Stepr(Tool):
    """Code that steps through the expansion of the tree's value with an expander that has the use site's bindings and filename."""
    target = M + "stepr"; allowed = ("expr",)
    def pre(self, c): a, k = super().pre(c); self.args = c.list("args", "any"); return a, dict(k, args=self.args)
    def hooks(self): return {"attr": self.attr, "ext": dict(BUILD, **{M + "macro_bindings": bindings_hook(self)})}
    def post(self, p):
        if self.rejected(): return self.refuse(p)
        t = tags(p)
        if p.raised: return [("bindings-failed", z3.BoolVal(t == ["bindings!"]))] + fail_passed(p, t)
        r = p.resultV; d = call_parts(p, r, ("tree",))
        if d is None or "expander" not in d: raise SpecMismatch("the built call is not understood")
        return [("snapshot", z3.BoolVal(t == ["bindings"]))] + is_call(p, r, "metatools.step_expansion", ("tree",), {"tree": self.t, "args": astified(self.args), "syntax": astified(S("expr")), "expander": None}) + is_call(p, d["expander"], "metatools.MacroExpander", ("bindings", "filename"), {"bindings": ev(p, 0), "filename": astified(self.fn)}, "expander.") + p.unchanged("H", "L", "D")
STEPR = variants(Stepr, {"stepr": {}})

CONTRACTS = [AtRuntime, AtRuntimeOnce, MacroBindings, MacroBindingsRefused] + variants(Quoted, {"expands": {"once": False}, "expand1s": {"once": True}})
CONTRACTS += variants(QuoteFirst, {"expandsq": {"inner": "expands"}, "expand1sq": {"inner": "expand1s"}, "expandrq": {"inner": "expandr", "inner_syntax": ("expr", "block")}, "expand1rq": {"inner": "expand1r", "inner_syntax": ("expr", "block")}})
CONTRACTS += variants(AtRun, {"expandr": {"op": "runtime_expand"}, "expand1r": {"op": "runtime_expand1"}})
CONTRACTS += FILL + STEPR
