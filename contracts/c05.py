from contracts.base import *
from contracts.c04 import Core
from mcpyrate import expander as EX
ME = EX.MacroExpander

def exact(x, K): return z3.And(V.is_obj(x), cls_of(V.ov(x)) == cid(K))
def lst_ok(s, l): return z3.And(V.is_obj(l), cls_of(V.ov(l)) == cid(list), V.ov(l) >= 0, V.ov(l) < s.alloc)
def node_ok(s, x): return z3.And(type_formula(x, ast.AST), V.ov(x) >= 0, V.ov(x) < s.alloc)
class Cand:
    """What a macro call candidate looks like, in heap s (the documented forms: `name`, `name[args]`, `name(args)`)."""
    def __init__(self, s, x, syntax=None, H=None, L=None):
        H = s.H if H is None else H; L = s.L if L is None else L
        at = lambda o, n: z3.Select(H, V.ov(o), z3.StringVal(n)); self.L = lambda o: z3.Select(L, V.ov(o))
        self.x = x; self.value, self.slice, self.func, self.args, self.keywords = (at(x, n) for n in ("value", "slice", "func", "args", "keywords")); self.elts = at(self.slice, "elts")
        self.isname = exact(x, ast.Name); self.issub = z3.And(exact(x, ast.Subscript), exact(self.value, ast.Name)); self.iscall = z3.And(exact(x, ast.Call), exact(self.func, ast.Name), z3.Length(self.L(self.keywords)) == 0)
        self.form = z3.Or(self.isname, self.issub, self.iscall)
        self.name = z3.If(self.isname, at(x, "id"), z3.If(self.issub, at(self.value, "id"), at(self.func, "id")))
        self.tuple = exact(self.slice, ast.Tuple)
        self.argseq = z3.If(self.isname, EMPTY, z3.If(self.issub, z3.If(self.tuple, self.L(self.elts), unit(self.slice)), self.L(self.args)))
        self.wf = z3.And(z3.Implies(exact(x, ast.Name), V.is_str(at(x, "id"))), z3.Implies(exact(x, ast.Subscript), z3.And(node_ok(s, self.value), node_ok(s, self.slice), z3.Implies(exact(self.value, ast.Name), V.is_str(at(self.value, "id"))), z3.Implies(self.tuple, lst_ok(s, self.elts)))),
                         z3.Implies(exact(x, ast.Call), z3.And(node_ok(s, self.func), z3.Implies(exact(self.func, ast.Name), V.is_str(at(self.func, "id"))), lst_ok(s, self.args), lst_ok(s, self.keywords))))
def flags(H, f): return z3.Select(H, V.ov(f), z3.StringVal("_isparametricmacro")) != ABSENT, z3.Select(H, V.ov(f), z3.StringVal("_isnamemacro")) != ABSENT
def fn_ok(s, f): return z3.Implies(f != ABSENT, z3.And(V.is_obj(f), V.ov(f) >= 0, V.ov(f) < s.alloc, truthy_obj(V.ov(f)), *[z3.Not(isa(cls_of(V.ov(f)), cid(K))) for K in (list, dict, set, tuple, ast.AST)]))
def invokes(H, D, cand):
    """A candidate is an expr, block or decorator macro invocation iff its name is bound, and it has no macro arguments or the macro takes some."""
    f = z3.Select(D, cand.name); par, _ = flags(H, f)
    return z3.And(cand.form, f != ABSENT, cand.name != S(""), z3.Or(z3.Length(cand.argseq) == 0, par))
def starred(a): q = z3.Int("q"); return z3.Exists([q], z3.And(q >= 0, q < z3.Length(a), exact(a[q], ast.Starred)))
def malformed(k): a = k.L(k.args); return z3.And(k.iscall, z3.Or(z3.Length(a) == 0, starred(a)))
UNPARSE = {"mcpyrate.unparser:unparse_with_fallbacks": (lambda eng, s, args, kw: [(s, V.str(fresh("code", Str)))], "returns a string for any tree (C01)"), "mcpyrate.utils:format_location": (lambda eng, s, args, kw: [(s, V.str(fresh("loc", Str)))], "contract of format_location (C12)")}

class Flag(Contract):
    """The declaring decorator marks exactly the given function, and returns it."""
    flag = None
    def pre(self, c): self.f = c.var("function"); c.assume(V.is_obj(self.f), V.ov(self.f) >= 0, V.ov(self.f) < c.s.alloc); return [self.f], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("same-function", p.resultV == self.f), ("marked", sel(p.s, self.f, self.flag) != ABSENT), p.unchanged_except("H", None, [(V.ov(self.f), self.flag)])] + p.unchanged("L", "D")
class NameMacro(Flag): target = "mcpyrate.expander:namemacro"; flag = "_isnamemacro"
class ParametricMacro(Flag): target = "mcpyrate.expander:parametricmacro"; flag = "_isparametricmacro"
class IsNameMacro(Flag):
    target = "mcpyrate.expander:isnamemacro"; flag = "_isnamemacro"
    def post(self, p): return [("iff", p.resultV == V.bool(sel(p.s0, self.f, self.flag) != ABSENT))] + p.unchanged("H", "L", "D") if p.returned else [("noraise", False)]
class IsParametricMacro(IsNameMacro): target = "mcpyrate.expander:isparametricmacro"; flag = "_isparametricmacro"

class Destructure(Contract):
    """(name, argument list) for exactly the documented forms, (None, None) for everything else; nothing is changed."""
    target = "mcpyrate.expander:destructure_candidate"; label = "mcpyrate.expander:destructure_candidate[without validation]"; validate = False
    def pre(self, c):
        self.x = c.obj("tree", ast.AST); self.k = Cand(c.s, self.x); c.assume(self.k.wf); self.fn = c.str("filename")
        return [self.x], {"filename": self.fn, "_validate_call_syntax": B(self.validate)}
    def hooks(self): return {"ext": UNPARSE}
    def bad(self, p):
        return malformed(self.k) if self.validate else z3.BoolVal(False)
    def post(self, p):
        k = self.k
        if p.raised: return [("syntax-error", p.exc_is(SyntaxError)), ("only-if-malformed", self.bad(p))] + p.unchanged("H", "L", "D")
        r = V.tv(p.resultV)
        return [("pair", z3.And(V.is_tup(p.resultV), z3.Length(r) == 2)), ("none", z3.Implies(z3.Not(k.form), z3.And(r[0] == NONE, r[1] == NONE))), ("name", z3.Implies(k.form, r[0] == k.name)), ("args", z3.Implies(k.form, z3.And(type_formula(r[1], list), z3.Select(p.s.L, V.ov(r[1])) == k.argseq))),
                ("malformed-rejected", z3.Not(self.bad(p)))] + p.unchanged("H", "L", "D")
class DestructureValidated(Destructure): label = "mcpyrate.expander:destructure_candidate[with validation]"; validate = True; must_reach = ("return", "raise")

class Exp(Core):
    """A macro expander; candidates are looked up in its bindings."""
    C = ME
    def cand(self, c, x): k = Cand(c.s, x); c.assume(k.wf, fn_ok(c.s, z3.Select(z3.Select(c.s.D, V.ov(self.binds)), k.name))); return k
    def fnof(self, s, k): return z3.Select(z3.Select(s.D, V.ov(self.binds)), k.name)
    def inv(self, s0, k): return invokes(s0.H, z3.Select(s0.D, V.ov(self.binds)), k)
class IsMacroCall(Exp):
    """`ismacrocall` on a destructured candidate."""
    target = "mcpyrate.expander:MacroExpander.ismacrocall"; syntax = "expr"
    def pre(self, c):
        self.expander(c); self.nm = c.var("macroname"); self.ar = c.list("macroargs", "any"); c.assume(z3.Or(self.nm == NONE, V.is_str(self.nm))); self.f = z3.Select(z3.Select(c.s.D, V.ov(self.binds)), self.nm); c.assume(fn_ok(c.s, self.f))
        return [self.w, self.nm, self.ar if self.syntax != "name" else NONE, S(self.syntax)], {}
    def hooks(self): return {"attr": self.attr}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        par, nam = flags(p.s0.H, self.f); bnd = z3.And(V.is_str(self.nm), self.nm != S(""), self.f != ABSENT)
        want = z3.And(bnd, nam if self.syntax == "name" else z3.Or(z3.Length(z3.Select(p.s0.L, V.ov(self.ar))) == 0, par))
        return [("iff", p.eng.truth(p.s, p.result) == want)] + p.unchanged("H", "L", "D")
class IsMacroCallName(IsMacroCall): label = "mcpyrate.expander:MacroExpander.ismacrocall[identifier]"; syntax = "name"
class IsMacroCallBlock(IsMacroCall): label = "mcpyrate.expander:MacroExpander.ismacrocall[block]"; syntax = "block"
class IsMacroCallDecorator(IsMacroCall): label = "mcpyrate.expander:MacroExpander.ismacrocall[decorator]"; syntax = "decorator"

def destructure_hook(self):
    """Contract of destructure_candidate (proved above)."""
    def f(eng, s, args, kw):
        b = bound(eng, args, kw); x = eng.toV(s, b["tree"]); k = Cand(s, x); l = eng.alloc_list(s, k.argseq); val = b.get("_validate_call_syntax", TRUE); v = eng.truth(s, eng.toV(s, val)); out = []
        if not eng.entails(s, z3.Not(v)):
            t = s.clone(); t.assume(v, malformed(k)); out.append((t, eng.raise_(t, SyntaxError))); s.assume(z3.Not(z3.And(v, malformed(k))))
        out.append((s, V.tup(seq(z3.If(k.form, k.name, NONE), z3.If(k.form, l, NONE))))); return out
    return {"mcpyrate.expander:destructure_candidate": (f, "contract of destructure_candidate (this property)")}
def ismacrocall_hook(self):
    def f(eng, s, args, kw):
        b = bound(eng, args, kw); nm, ar, sy = (eng.toV(s, b[n]) for n in ("macroname", "macroargs", "syntax")); fn = z3.Select(z3.Select(s.D, V.ov(self.binds)), nm); par, nam = flags(s.H, fn)
        return [(s, V.bool(z3.And(V.is_str(nm), nm != S(""), fn != ABSENT, z3.If(sy == S("name"), nam, z3.Or(z3.Not(V.is_obj(ar)), z3.Length(z3.Select(s.L, V.ov(ar))) == 0, par)))))]
    return {"mcpyrate.expander:MacroExpander.ismacrocall": (f, "contract of ismacrocall (this property)")}
class VisitSubscript(Exp):
    """`macro[...]` / `macro[args][...]` invokes exactly when its value is an invoking candidate; the macro gets the slice; anything else is visited as ordinary code."""
    target = "mcpyrate.expander:MacroExpander.visit_Subscript"; must_reach = ("return", "raise")
    def pre(self, c):
        self.expander(c); self.x = c.obj("subscript", ast.Subscript, exact=True); v, sl = c.attr(self.x, "value"), c.attr(self.x, "slice"); c.assume(node_ok(c.s, v), node_ok(c.s, sl)); self.k = self.cand(c, v); self.sl = sl; c.s.meta["s0"] = c.s.clone(); return [self.w, self.x], {}
    def hooks(self):
        def ex(eng, s, args, kw):
            b = bound(eng, args, kw); d = z3.Select(s.D, V.ov(eng.toV(s, b["kw"]))); a = z3.Select(d, S("args"))
            eng.oblige(s, "expand.when-invoked", self.inv(s.meta["s0"], self.k)); q = eng.toV; eng.oblige(s, "expand.well-formed", z3.Not(malformed(self.k)))
            for n, f in (("syntax", q(s, b["syntax"]) == S("expr")), ("target", q(s, b["target"]) == self.x), ("macroname", q(s, b["macroname"]) == self.k.name), ("tree", q(s, b["tree"]) == self.sl), ("args", z3.And(type_formula(a, list), z3.Select(s.L, V.ov(a)) == self.k.argseq)),
                         ("unmodified", z3.And(sel(s, self.x, "value") == self.k.x, sel(s, self.x, "slice") == self.sl)), ("sourcecode", V.is_str(q(s, b["sourcecode"])))): eng.oblige(s, "expand." + n, f)
            r = fresh("expansion"); s.assume(r != ABSENT, z3.Or(r == NONE, type_formula(r, ast.AST), type_formula(r, list))); log(s, S("expand"), r); e = s.clone(); er = fresh("exc"); e.assume(type_formula(er, BaseException))
            e.ghost["expand-error"] = er; return [(s, r), (e, Exc(er, None))]
        def gv(eng, s, recv, name, args, kw):
            if name[1] == "generic_visit": r = fresh("visited"); s.assume(r != ABSENT); log(s, S("generic_visit"), eng.toV(s, args[0]), r); return [(s, r)]
        def dummy(eng, s, args, kw): r = fresh("dummy"); s.assume(r != ABSENT); log(s, S("dummy"), eng.toV(s, args[0]), r); return [(s, r)]
        return {"attr": self.attr, "ext_method": gv, "ext": dict(UNPARSE, **destructure_hook(self), **ismacrocall_hook(self), **{"mcpyrate.core:BaseMacroExpander.expand": (ex, "contract of expand (C06)"), "mcpyrate.expander:_make_coverage_dummy_expr": (dummy, "contract of _make_coverage_dummy_expr (C06)")})}
    def post(self, p):
        tr = p.trace(); e = [V.tv(tr[i]) for i in range(2)]; inv = self.inv(p.s0, self.k)
        if p.raised:
            if "expand-error" in p.s.ghost: return [("error-passed-on", p.exc.v == p.s.ghost["expand-error"])]
            return [("syntax-error", p.exc_is(SyntaxError)), ("only-malformed-invocations", z3.And(inv, self.k.iscall))]
        return [("ordinary-code-visited", z3.Implies(z3.Not(inv), z3.And(z3.Length(tr) == 1, e[0][0] == S("generic_visit"), e[0][1] == self.x, p.resultV == e[0][2]))),
                ("expanded-once", z3.Implies(inv, e[0][0] == S("expand"))), ("result", z3.Implies(z3.And(inv, e[0][1] != NONE), z3.And(z3.Length(tr) == 1, p.resultV == e[0][1]))),
                ("nothing-becomes-None-expression", z3.Implies(z3.And(inv, e[0][1] == NONE), z3.And(z3.Length(tr) == 2, e[1][0] == S("dummy"), e[1][1] == self.x, p.resultV == e[1][2])))] + p.unchanged("H")


def item_cand(x, syntax, H): return z3.Select(H, V.ov(x), z3.StringVal("context_expr")) if syntax == "block" else x
def mac_item(syntax):
    def f(x, H, L, D):
        class S_: alloc = z3.IntVal(0)
        return invokes(H, D, Cand(S_, item_cand(x, syntax, H), H=H, L=L))
    return f
MACS = {k: Fold(f"macro_items_{k}", SeqV, EMPTY, lambda a, x, H, L, D, k=k: z3.If(mac_item(k)(x, H, L, D), z3.Concat(a, unit(x)), a), extra=(HeapSort, ListSort, DictVal)) for k in ("block", "decorator")}
OTHERS = {k: Fold(f"other_items_{k}", SeqV, EMPTY, lambda a, x, H, L, D, k=k: z3.If(mac_item(k)(x, H, L, D), a, z3.Concat(a, unit(x))), extra=(HeapSort, ListSort, DictVal)) for k in ("block", "decorator")}
def heap3(self, s0): return s0.H, s0.L, z3.Select(s0.D, V.ov(self.binds))
class DetectMacroItems(Exp):
    """Splits the items into the macro invocations and the others, both in the original order; changes nothing."""
    target = "mcpyrate.expander:MacroExpander._detect_macro_items"; label = "mcpyrate.expander:MacroExpander._detect_macro_items[decorators]"; syntax = "decorator"
    def pre(self, c):
        self.expander(c); self.items = c.list("items", "any"); c.s.meta["s0"] = c.s.clone(); return [self.w, self.items, S(self.syntax)], {}
    def hooks(self):
        def warn(eng, s, args, kw): log(s, S("warn")); return [(s, PyObj(None))]
        return {"attr": self.attr, "ext": dict(UNPARSE, **destructure_hook(self), **ismacrocall_hook(self), **{"warnings.warn_explicit": (warn, "emits a warning (which does not raise)"), "_warnings.warn_explicit": (warn, "same"), "mcpyrate.utils:format_macrofunction": (lambda eng, s, args, kw: [(s, V.str(fresh("name", Str)))], "returns a string")})}
    def facts(self, s0, x):
        k = Cand(s0, item_cand(x, self.syntax, s0.H)); f = z3.Select(z3.Select(s0.D, V.ov(self.binds)), k.name)
        return [node_ok(s0, x), *([exact(x, ast.withitem)] if self.syntax == "block" else []), node_ok(s0, k.x), k.wf, fn_ok(s0, f)]
    @property
    def loops(self):
        def inv(c):
            s0 = c.s.meta["s0"]; h = heap3(self, s0)
            return [("macros", c.lst(c.var("macros")) == MACS[self.syntax](c.done, *h)), ("others", c.lst(c.var("others")) == OTHERS[self.syntax](c.done, *h)), ("items", c.lst(self.items) == z3.Select(s0.L, V.ov(self.items)))]
        def ax(c):
            s0 = c.s.meta["s0"]; h = heap3(self, s0); sq = z3.Select(s0.L, V.ov(self.items))
            return MACS[self.syntax].axioms(sq, c.i, *h) + OTHERS[self.syntax].axioms(sq, c.i, *h) + [z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(sq)), f) for f in self.facts(s0, sq[c.i])]
        return (LoopSpec(inv, ax),)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        r = V.tv(p.resultV); h = heap3(self, p.s0); sq = z3.Select(p.s0.L, V.ov(self.items))
        return [("pair", z3.And(V.is_tup(p.resultV), z3.Length(r) == 2)), ("macros", z3.Select(p.s.L, V.ov(r[0])) == MACS[self.syntax](sq, *h)), ("others", z3.Select(p.s.L, V.ov(r[1])) == OTHERS[self.syntax](sq, *h))] + p.unchanged("H", "L", "D")
class DetectMacroItemsBlock(DetectMacroItems): label = "mcpyrate.expander:MacroExpander._detect_macro_items[with items]"; syntax = "block"


def copier(names):
    """copy.copy: of a list a new list with the same elements; of a node a new node of the same class with the same attributes."""
    def hook(eng, s, args, kw):
        x = eng.toV(s, args[0])
        if eng.entails(s, type_formula(x, list)): return eng.list_from(s, x)
        o = fresh("shallow"); s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc, cls_of(V.ov(o)) == cls_of(V.ov(x))); na = fresh("alloc", Int); s.assume(na > V.ov(o)); s.alloc, s.nalloc = na, 0
        for n in names(): s.assume(z3.Select(s.H, V.ov(o), n) == z3.Select(s.H, V.ov(x), n))
        s.assume(isa(cls_of(V.ov(o)), cid(ast.AST))); s.meta[("cls", z3.simplify(o).get_id())] = eng.static_class(s, x); s.meta[("keep", z3.simplify(o).get_id())] = o; return [(s, o)]
    return {"copy.copy": (hook, "copy(x) is a new object with the same class and attributes (for a list: the same elements)")}
def remove_first(sq, x):
    """The sequence without the first occurrence of x."""
    i = z3.IndexOf(sq, unit(x), 0); return z3.Concat(z3.Extract(sq, 0, i), z3.Extract(sq, i + 1, z3.Length(sq) - i - 1))
class VisitWith(Exp):
    """The first macro of the header is expanded, once, with everything it is due; the other header items stay; other `with` statements are visited as ordinary code."""
    target = "mcpyrate.expander:MacroExpander.visit_With"; must_reach = ("return", "raise"); syntax = "block"; K = ast.With; lname = "items"; rlimit = 60_000_000
    def pre(self, c):
        self.expander(c); self.x = c.obj("stmt", self.K, exact=True); self.items = c.list("items", "any"); c.setattr(self.x, self.lname, self.items); self.I = c.lst(self.items); self.any = fresh("any_attr", Str); c.assume(self.any != z3.StringVal(self.lname))
        self.body = c.list("body", "stmt"); c.setattr(self.x, "body", self.body); c.assume(self.body != self.items); self.m = c.obj("item", ast.withitem if self.syntax == "block" else ast.AST, exact=self.syntax == "block")
        self.H0 = c.s.H; self.cx = item_cand(self.m, self.syntax, c.s.H); c.assume(node_ok(c.s, self.cx), sel(c.s, self.m, "optional_vars") != ABSENT); self.k = self.cand(c, self.cx); c.s.meta["s0"] = c.s.clone(); return [self.w, self.x], {}
    def detect(self, eng, s, args, kw):
        b = bound(eng, args, kw); q = eng.toV; l = q(s, b["items"]); eng.oblige(s, "detect", z3.And(type_formula(l, list), z3.Select(s.L, V.ov(l)) == self.I, q(s, b["syntax"]) == S(self.syntax)))
        rest = fresh("more_macros", SeqV); M = z3.Concat(unit(self.m), rest) if self.syntax == "block" else z3.Concat(rest, unit(self.m)); a = s.clone(); s.meta["macro"] = True
        s.assume(z3.Contains(self.I, unit(self.m)), self.inv(s.meta["s0"], self.k))
        return [(s, Tup([eng.alloc_list(s, M), eng.alloc_list(s, fresh("others", SeqV))])), (a, Tup([eng.alloc_list(a, EMPTY), eng.alloc_list(a, self.I)]))]
    def check_tree(self, eng, s, t):
        left = remove_first(self.I, self.m); L = z3.Select(s.L, V.ov(t))
        return [("tree", z3.And(type_formula(t, list), z3.If(z3.Length(left) == 0, L == z3.Select(s.meta["s0"].L, V.ov(self.body)), L == unit(self.x))))]
    def hooks(self):
        def ex(eng, s, args, kw):
            b = bound(eng, args, kw); q = lambda n: eng.toV(s, b[n]); d = z3.Select(s.D, V.ov(q("kw"))); a = z3.Select(d, S("args")); t = q("target"); s0 = s.meta["s0"]; il = sel(s, t, self.lname)
            eng.oblige(s, "expand.when-invoked", z3.BoolVal(bool(s.meta.get("macro")))); left = sel(s, self.x, self.lname)
            for n, f in [("syntax", q("syntax") == S(self.syntax)), ("macroname", q("macroname") == self.k.name), ("args", z3.And(type_formula(a, list), z3.Select(s.L, V.ov(a)) == self.k.argseq)), ("well-formed", z3.Not(malformed(self.k))),
                         ("complete-invocation.items", z3.And(cls_of(V.ov(t)) == cid(self.K), type_formula(il, list), z3.Select(s.L, V.ov(il)) == self.I)), ("complete-invocation.rest", z3.Select(s.H, V.ov(t), self.any) == z3.Select(s0.H, V.ov(self.x), self.any)),
                         ("others-stay-attached", z3.And(type_formula(left, list), z3.Select(s.L, V.ov(left)) == remove_first(self.I, self.m))), ("sourcecode", V.is_str(q("sourcecode")))] + self.check_tree(eng, s, q("tree")) + self.extra_kw(d): eng.oblige(s, "expand." + n, f)
            r = fresh("expansion"); s.assume(r != ABSENT, z3.Or(r == NONE, type_formula(r, ast.AST), type_formula(r, list))); log(s, S("expand"), r); e = s.clone(); er = fresh("exc"); e.assume(type_formula(er, BaseException))
            e.ghost["expand-error"] = er; return [(s, r), (e, Exc(er, None))]
        def gv(eng, s, recv, name, args, kw):
            if name[1] == "generic_visit": r = fresh("visited"); s.assume(r != ABSENT); log(s, S("generic_visit"), eng.toV(s, args[0]), r); return [(s, r)]
        def dummy(eng, s, args, kw):
            b = bound(eng, args, kw); q = lambda n: eng.toV(s, b[n]); r = fresh("dummy"); s.assume(r != ABSENT); eng.oblige(s, "coverage", z3.And(q("macroname") == self.k.name, q("filename") == self.fn)); log(s, S("dummy"), q("tree"), r); return [(s, r)]
        return {"attr": self.attr, "ext_method": gv, "ext": dict(UNPARSE, **destructure_hook(self), **copier(lambda: [self.any, z3.StringVal("body"), z3.StringVal(self.lname)]), **{"mcpyrate.core:BaseMacroExpander.expand": (ex, "contract of expand (C06)"), "mcpyrate.expander:_insert_coverage_dummy_stmt": (dummy, "contract of _insert_coverage_dummy_stmt (C06)"),
                "mcpyrate.expander:MacroExpander._detect_macro_items": (self.detect, "contract of _detect_macro_items (this property)")})}
    def extra_kw(self, d): return [("as-part", z3.Select(d, S("optional_vars")) == sel_h(self.m, "optional_vars", self.H0))]
    def post(self, p):
        tr = p.trace(); e = [V.tv(tr[i]) for i in range(2)]; inv = p.s.meta.get("macro")
        if p.raised:
            if "expand-error" in p.s.ghost: return [("error-passed-on", p.exc.v == p.s.ghost["expand-error"])]
            return [("syntax-error", z3.And(p.exc_is(SyntaxError), z3.BoolVal(bool(inv)))), ("only-malformed-invocations", malformed(self.k))]
        if not inv: return [("ordinary-code-visited", z3.And(z3.Length(tr) == 1, e[0][0] == S("generic_visit"), e[0][1] == self.x, p.resultV == e[0][2]))] + p.unchanged("H", "L")
        return [("expanded-once", z3.And(z3.Length(tr) == 2, e[0][0] == S("expand"))), ("then-coverage", z3.And(e[1][0] == S("dummy"), e[1][1] == e[0][1], p.resultV == e[1][2]))]
def sel_h(o, n, H): return z3.Select(H, V.ov(o), z3.StringVal(n))
class VisitFunctionDef(VisitWith):
    """The innermost decorator macro is expanded, once, on the node without it; the other decorators stay."""
    target = "mcpyrate.expander:MacroExpander.visit_FunctionDef"; syntax = "decorator"; K = ast.FunctionDef; lname = "decorator_list"
    def check_tree(self, eng, s, t): return [("tree", t == self.x)]
    def extra_kw(self, d): return []
class VisitClassDef(VisitFunctionDef): target = "mcpyrate.expander:MacroExpander.visit_ClassDef"; K = ast.ClassDef


class VisitName(Exp):
    """An identifier macro is expanded with recursion off; its own name coming back means "leave it", anything else is expanded on as usual."""
    target = "mcpyrate.expander:MacroExpander.visit_Name"; must_reach = ("return", "raise")
    def pre(self, c):
        self.expander(c); self.x = c.obj("name", ast.Name, exact=True); self.nm = c.attr(self.x, "id"); self.f = z3.Select(z3.Select(c.s.D, V.ov(self.binds)), self.nm); c.assume(V.is_str(self.nm), fn_ok(c.s, self.f)); return [self.w, self.x], {}
    def hooks(self):
        def ex(eng, s, args, kw):
            b = bound(eng, args, kw); q = lambda n: eng.toV(s, b[n]); d = z3.Select(s.D, V.ov(q("kw")))
            for n, f in [("syntax", q("syntax") == S("name")), ("macroname", q("macroname") == self.nm), ("target", q("target") == self.x), ("tree", q("tree") == self.x), ("no-args", z3.Select(d, S("args")) == NONE), ("not-recursive", sel(s, self.w, "recursive") == FALSE), ("sourcecode", V.is_str(q("sourcecode")))]: eng.oblige(s, "expand." + n, f)
            r = fresh("expansion"); s.assume(r != ABSENT, z3.Or(r == NONE, type_formula(r, ast.AST), type_formula(r, list))); rid = sel(s, r, "id"); s.assume(z3.Implies(exact(r, ast.Name), V.is_str(rid))); log(s, S("expand"), r); e = s.clone(); er = fresh("exc"); e.assume(type_formula(er, BaseException)); return [(s, r), (e, Exc(er, None))]
        def vis(eng, s, args, kw): r = fresh("visited"); s.assume(r != ABSENT); log(s, S("visit"), eng.toV(s, args[0]), r); return [(s, r)]
        def dummy(eng, s, args, kw): r = fresh("dummy"); s.assume(r != ABSENT); log(s, S("dummy"), eng.toV(s, args[0]), r); return [(s, r)]
        return {"attr": self.attr, "ext": dict(UNPARSE, **ismacrocall_hook(self), **{"mcpyrate.core:BaseMacroExpander.expand": (ex, "contract of expand (C06)"), "mcpyrate.core:BaseMacroExpander.visit": (vis, "contract of visit (C04)"), "mcpyrate.expander:_make_coverage_dummy_expr": (dummy, "contract of _make_coverage_dummy_expr (C06)")})}
    def post(self, p):
        tr = p.trace(); e = [V.tv(tr[i]) for i in range(2)]; n = z3.Length(tr); inv = z3.And(self.nm != S(""), self.f != ABSENT, flags(p.s0.H, self.f)[1]); r = e[0][1]
        out = [("mode-restored", sel(p.s, self.w, "recursive") == self.rec), p.unchanged_except("H", None, [(V.ov(self.w), "recursive")])]
        if p.raised: return out + [("only-from-expand", z3.And(inv, e[0][0] == S("expand")))]
        R = p.resultV; same = z3.And(exact(r, ast.Name), sel(p.s0, r, "id") == self.nm); done = lambda x: z3.And(V.is_obj(R), cls_of(V.ov(R)) == cid(EX.Done), sel(p.s, R, "body") == x)
        return out + [("ordinary-name", z3.Implies(z3.Not(inv), z3.And(R == self.x, n == 0))), ("expanded-once", z3.Implies(inv, e[0][0] == S("expand"))), ("nothing-becomes-None-expression", z3.Implies(z3.And(inv, r == NONE), z3.And(n == 2, e[1][0] == S("dummy"), e[1][1] == self.x, R == e[1][2]))),
                      ("own-name-is-done", z3.Implies(z3.And(inv, same), z3.And(n == 1, done(r)))),
                      ("others-expanded-on", z3.Implies(z3.And(inv, r != NONE, z3.Not(same)), z3.If(V.bv(self.rec), z3.And(n == 2, e[1][0] == S("visit"), e[1][1] == r, R == e[1][2]), z3.And(n == 1, R == r))))]

# ---------------------------------------------------------------- the collector
suite_visit = z3.Function("suite_visit", SeqV, SeqV)      # the event "this suite is visited"; visiting an empty suite is no event
then_node, then_suite = z3.Function("then_node", V, V, V), z3.Function("then_suite", V, SeqV, V)      # visit histories: one more node / suite visited
cname, cargs = z3.Function("destructured_name", V, Str), z3.Function("destructured_args", V, SeqV)
def destructure_abs(eng, s, args, kw):
    """destructure_candidate on an invoking candidate, abstractly: its name and its arguments (functions of the candidate; the tree does not change meanwhile)."""
    b = bound(eng, args, kw); x = eng.toV(s, b["tree"]); t = s.clone(); l = eng.alloc_list(s, cargs(x)); return [(s, Tup([V.str(cname(x)), l])), (t, eng.raise_(t, SyntaxError))]
MC = EX.MacroCollector
class Coll(Exp):
    """The collector (ghost: `_seen` is the set of the collected pairs); nested visits are logged, what they add is theirs."""
    def collector(self, c):
        e = self.expander(c); self.c = c.obj("self", MC, exact=True); self.coll, self.seen = c.list("collected", "any"), c.set("seen"); self.C0, self.S0 = c.lst(self.coll), c.sset(self.seen)
        for k, v in (("expander", e), ("collected", self.coll), ("_seen", self.seen)): c.setattr(self.c, k, v)
        return self.c
    def visit_hook(self):
        def f(eng, s, args, kw):
            x = eng.toV(s, args[0]); L = z3.Select(s.L, V.ov(x)); t = s.ghost["trace"]
            if eng.entails(s, type_formula(x, list)): s.ghost["trace"] = z3.Concat(t, suite_visit(L))
            else: log(s, S("visit"), x)
            return [(s, PyObj(None))]
        def gv(eng, s, recv, name, args, kw):
            if name[1] == "generic_visit": log(s, S("generic_visit"), eng.toV(s, args[0])); return [(s, PyObj(None))]
        return {"attr": self.attr, "ext_method": gv, "ext": dict(UNPARSE, **destructure_hook(self), **ismacrocall_hook(self), **{"mcpyrate.expander:MacroCollector.visit": (f, "visit of a nested node or suite (this property)"), "ast.NodeVisitor.generic_visit": (lambda eng, s, args, kw: gv(eng, s, None, (None, "generic_visit"), args, kw), "visits the children")})}
    def hooks(self): return self.visit_hook()
    def final(self, p): return z3.Select(p.s.L, V.ov(sel(p.s, self.c, "collected"))), z3.Select(p.s.SS, V.ov(sel(p.s, self.c, "_seen")))
    def added(self, p, key, when):
        C, X = self.final(p); k = V.tup(key); had = z3.Select(self.S0, k); j = fresh("j")
        return [("collected", C == z3.If(z3.And(when, z3.Not(had)), z3.Concat(self.C0, unit(k)), self.C0)), ("remembered", z3.Select(X, j) == z3.Or(z3.Select(self.S0, j), z3.And(when, j == k)))]
def visits(*xs):
    t = EMPTY
    for x in xs: t = z3.Concat(t, suite_visit(x)) if x.sort() == SeqV else z3.Concat(t, unit(V.tup(seq(S("visit"), x))))
    return t
class CollSubscript(Coll):
    """Reports an expr invocation exactly where the expander finds one, then looks into the arguments and the slice only."""
    target = "mcpyrate.expander:MacroCollector.visit_Subscript"; must_reach = ("return", "raise")
    def pre(self, c):
        self.collector(c); self.x = c.obj("subscript", ast.Subscript, exact=True); v, self.sl = c.attr(self.x, "value"), c.attr(self.x, "slice"); c.assume(node_ok(c.s, v), node_ok(c.s, self.sl)); self.k = self.cand(c, v); return [self.c, self.x], {}
    def post(self, p):
        inv = self.inv(p.s0, self.k)
        if p.raised: return [("syntax-error", p.exc_is(SyntaxError)), ("only-malformed-invocations", z3.And(inv, malformed(self.k)))]
        return self.added(p, seq(self.k.name, S("expr")), inv) + [("visits", p.trace() == z3.If(inv, visits(self.k.argseq, self.sl), unit(V.tup(seq(S("generic_visit"), self.x)))))] + p.unchanged("H", "D")
class CollName(Coll):
    """Reports an identifier invocation exactly where the expander finds one."""
    target = "mcpyrate.expander:MacroCollector.visit_Name"
    def pre(self, c): self.collector(c); self.x = c.obj("name", ast.Name, exact=True); self.nm = c.attr(self.x, "id"); self.f = z3.Select(z3.Select(c.s.D, V.ov(self.binds)), self.nm); c.assume(V.is_str(self.nm), fn_ok(c.s, self.f)); return [self.c, self.x], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return self.added(p, seq(self.nm, S("name")), z3.And(self.nm != S(""), self.f != ABSENT, flags(p.s0.H, self.f)[1])) + [("nothing-else", p.trace() == EMPTY)] + p.unchanged("H", "D")
class CollClear(Coll):
    """Forgets everything collected."""
    target = "mcpyrate.expander:MacroCollector.clear"
    def pre(self, c): self.collector(c); return [self.c], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        C, X = self.final(p); j = fresh("j"); return [("empty", C == EMPTY), ("nothing-remembered", z3.Not(z3.Select(X, j))), p.unchanged_except("H", None, [(V.ov(self.c), "collected"), (V.ov(self.c), "_seen")])]
class CollVisit(Coll):
    """Nothing to do without macros, for Done or for nothing; otherwise by class."""
    target = "mcpyrate.expander:MacroCollector.visit"; label = "mcpyrate.expander:MacroCollector.visit[node]"
    def pre(self, c): self.collector(c); self.t = c.var("tree"); c.assume(z3.Or(self.t == NONE, node_ok(c.s, self.t))); self.some = c.bool("has_bindings"); return [self.c, self.t], {}
    def attr(self, eng, s, v, name):
        if name == "bindings" and eng.entails(s, v == self.w): return [(s, self.some)]
    def hooks(self):
        def ext(eng, s, recv, name, args, kw):
            if name[1] == "visit": log(s, S("dispatch"), eng.toV(s, args[0])); return [(s, PyObj(None))]
        return {"attr": self.attr, "ext_method": ext}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        skip = z3.Or(z3.Not(V.bv(self.some)), type_formula(self.t, EX.Done), self.t == NONE)
        return [("visits", p.trace() == z3.If(skip, EMPTY, seq(V.tup(seq(S("dispatch"), self.t)))))] + p.unchanged("H", "L", "D", "SS")
SUITE = Fold("visited_elements_c", SeqV, EMPTY, lambda a, x: z3.Concat(a, unit(V.tup(seq(S("visit"), x)))))
class CollVisitSuite(CollVisit):
    """A suite: every element, in order."""
    label = "mcpyrate.expander:MacroCollector.visit[statement suite]"
    def pre(self, c): super().pre(c); self.t = c.list("tree", "any"); self.T = c.lst(self.t); return [self.c, self.t], {}
    def hooks(self):
        def rec(eng, s, args, kw): log(s, S("visit"), eng.toV(s, args[0])); return [(s, PyObj(None))]
        return {"attr": self.attr, "ext": {"mcpyrate.expander:MacroCollector.visit": (rec, "recursive call: this contract")}}
    @property
    def loops(self): return (LoopSpec(lambda c: [("each-once-in-order", c.s.ghost["trace"] == SUITE(c.done)), ("suite", c.lst(self.t) == self.T)], lambda c: SUITE.axioms(self.T, c.i)),)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("visits", p.trace() == z3.If(V.bv(self.some), SUITE(self.T), EMPTY))] + p.unchanged("H", "L", "D", "SS")
from contracts.c13 import PFold
class CollWith(Coll):
    """Reports every block macro of the header, in order; looks into their arguments, the other items and the body."""
    target = "mcpyrate.expander:MacroCollector.visit_With"; must_reach = ("return", "raise"); K = ast.With; lname = "items"; syntax = "block"; tag = "with"
    def pre(self, c):
        self.collector(c); self.x = c.obj("stmt", self.K, exact=True); self.items = c.list("items", "any"); self.body = c.list("body", "stmt"); c.setattr(self.x, self.lname, self.items); c.setattr(self.x, "body", self.body); self.I, self.Bd = c.lst(self.items), c.lst(self.body); self.M, self.O = fresh("macros", SeqV), fresh("others", SeqV); c.assume(self.body != self.coll, self.items != self.coll)
        for n in self.K._fields: c.assume(c.attr(self.x, n) != ABSENT)
        self.s0 = s0 = c.s.clone(); c.s.meta["s0"] = s0; H, L = s0.H, s0.L; self.cx_ = lambda x: item_cand(x, self.syntax, H); cx = self.cx_; key = lambda x: V.tup(seq(V.str(cname(cx(x))), S(self.syntax))); t = self.tag
        self.SEEN = Fold("seen_after_" + t, SetVal, self.S0, lambda a, x: z3.Store(a, key(x), z3.BoolVal(True))); self.COLL = PFold("collected_after_" + t, SeqV, self.C0, lambda a, x, pre: z3.If(z3.Select(self.SEEN(pre), key(x)), a, z3.Concat(a, unit(key(x)))))
        self.TR = Fold("argument_visits_" + t, V, NONE, lambda a, x: then_suite(a, cargs(cx(x)))); self.SU = Fold("other_visits_" + t, V, self.TR(self.M), then_node); c.s.ghost["hist"] = NONE
        return [self.c, self.x], {}
    def hooks(self):
        def det(eng, s, args, kw):
            b = bound(eng, args, kw); q = eng.toV; l = q(s, b["items"]); eng.oblige(s, "detect", z3.And(type_formula(l, list), z3.Select(s.L, V.ov(l)) == self.I, q(s, b["syntax"]) == S(self.syntax)))
            a = s.clone(); s.meta["macro"] = True; s.assume(z3.Length(self.M) > 0); return [(s, Tup([eng.alloc_list(s, self.M), eng.alloc_list(s, self.O)])), (a, Tup([eng.alloc_list(a, EMPTY), eng.alloc_list(a, self.I)]))]
        def fields(eng, s, args, kw):
            x = eng.toV(s, args[0]); eng.oblige(s, "fields", x == self.x); return [(s, Tup([Tup([PyObj(n), sel(s, x, n)]) for n in self.K._fields]))]
        h = self.visit_hook()
        def vis(eng, s, args, kw):
            x = eng.toV(s, args[0]); t = s.ghost["hist"]; s.ghost["hist"] = then_suite(t, z3.Select(s.L, V.ov(x))) if eng.entails(s, type_formula(x, list)) else then_node(t, x); return [(s, PyObj(None))]
        h["ext"]["mcpyrate.expander:MacroCollector.visit"] = (vis, h["ext"]["mcpyrate.expander:MacroCollector.visit"][1])
        h["ext"] = dict(h["ext"], **{"mcpyrate.expander:destructure_candidate": (destructure_abs, "contract of destructure_candidate (this property)"), "mcpyrate.expander:MacroExpander._detect_macro_items": (det, "contract of _detect_macro_items (this property)"), "ast.iter_fields": (fields, "yields the fields of the node in order")}); return h
    def facts(self, x): return [node_ok(self.s0, x), *([exact(x, ast.withitem)] if self.syntax == "block" else []), node_ok(self.s0, self.cx_(x))]
    @property
    def loops(self):
        C = lambda c: c.lst(sel(c.s, self.c, "collected")); X = lambda c: z3.Select(c.s.SS, V.ov(sel(c.s, self.c, "_seen")))
        def ax1(c):
            sq, i = self.M, c.i; return self.SEEN.axioms(sq, i) + self.COLL.axioms(sq, i) + self.TR.axioms(sq, i) + [z3.Implies(z3.And(i >= 0, i < z3.Length(sq)), f) for f in self.facts(sq[i])] + [old_elem(sq, i, self.s0.alloc), then_suite(self.TR(c.done), EMPTY) == self.TR(c.done)]
        same = lambda c: [("objects", z3.And(sel(c.s, self.c, "collected") == self.coll, sel(c.s, self.c, "_seen") == self.seen))]
        one = LoopSpec(lambda c: [("collected", C(c) == self.COLL(c.done)), ("remembered", X(c) == self.SEEN(c.done)), ("visits", c.s.ghost["hist"] == self.TR(c.done))] + same(c), ax1)
        two = LoopSpec(lambda c: [("collected", C(c) == self.COLL(self.M)), ("remembered", X(c) == self.SEEN(self.M)), ("visits", c.s.ghost["hist"] == self.SU(c.done))] + same(c), lambda c: self.SU.axioms(self.O, c.i) + [z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(self.O)), node_ok(self.s0, self.O[c.i]))])
        return (one, two)
    def rest(self, p, h): return then_suite(h, self.Bd)
    def post(self, p):
        if p.raised: return [("syntax-error", z3.And(p.exc_is(SyntaxError), z3.BoolVal(bool(p.s.meta.get("macro")))))]
        C, X = self.final(p)
        if not p.s.meta.get("macro"): return [("ordinary-code-visited", z3.And(p.trace() == unit(V.tup(seq(S("generic_visit"), self.x))), C == self.C0, X == self.S0))] + p.unchanged("H", "D")
        return [("collected", C == self.COLL(self.M)), ("remembered", X == self.SEEN(self.M)), ("visits", p.s.ghost["hist"] == self.rest(p, self.SU(self.O)))] + p.unchanged("H", "D")
class CollFunctionDef(CollWith):
    """Reports every decorator macro; looks into their arguments, the other decorators and every other part of the definition."""
    target = "mcpyrate.expander:MacroCollector.visit_FunctionDef"; K = ast.FunctionDef; lname = "decorator_list"; syntax = "decorator"; tag = "def"
    def rest(self, p, h):
        for n in self.K._fields:
            if n not in ("name", "decorator_list"): h = then_suite(h, self.Bd) if n == "body" else then_node(h, sel(p.s0, self.x, n))
        return h
class CollClassDef(CollFunctionDef): target = "mcpyrate.expander:MacroCollector.visit_ClassDef"; K = ast.ClassDef; tag = "class"

CONTRACTS = [NameMacro, ParametricMacro, IsNameMacro, IsParametricMacro, Destructure, DestructureValidated, IsMacroCall, IsMacroCallName, IsMacroCallBlock, IsMacroCallDecorator, VisitSubscript, DetectMacroItems, DetectMacroItemsBlock, VisitWith, VisitFunctionDef, VisitClassDef, VisitName, CollSubscript, CollName, CollClear, CollVisit, CollVisitSuite, CollWith, CollFunctionDef, CollClassDef]
