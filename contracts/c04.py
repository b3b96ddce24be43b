from contracts.base import *
from mcpyrate import core as CO
from mcpyrate.core import BaseMacroExpander as BME, Done
import collections

flat_of = z3.Function("flattened", SeqV, SeqV); vres = z3.Function("visit_result", V, Int, V); dres = z3.Function("dispatch_result", V, V)
ELS = Fold("visited_elements", SeqV, EMPTY, lambda a, x: z3.Concat(a, unit(x)))
RES = Fold("visit_results", SeqV, EMPTY, lambda a, x: z3.Concat(a, unit(vres(x, z3.Length(a)))))
class Core(Contract):
    """The macro expander (ghost: `bindings` is a ChainMap of the local and the global bindings)."""
    C = BME
    def expander(self, c):
        w = self.w = c.obj("self", self.C, exact=True); self.fn = c.str("filename"); self.rec = c.bool("recursive"); self.hook = c.var("debughook"); self.binds = c.dict("bindings")
        for k, v in (("filename", self.fn), ("recursive", self.rec), ("_debughook", self.hook)): c.setattr(w, k, v)
        c.assume(self.hook != ABSENT); return w
    def attr(self, eng, s, v, name):
        if name == "bindings" and eng.entails(s, v == self.w): return [(s, self.binds)]
    def fresh_old(self, s, name="result", none=True):
        r = fresh(name); s.assume(r != ABSENT); return r

class Visit(Core):
    """`visit` on a single node: left alone if there are no macros or it is Done; None stays None; otherwise dispatched on its class."""
    target = "mcpyrate.core:BaseMacroExpander.visit"; label = "mcpyrate.core:BaseMacroExpander.visit[node]"
    def pre(self, c):
        self.expander(c); self.t = c.var("tree"); c.assume(z3.Or(self.t == NONE, z3.And(type_formula(self.t, ast.AST), V.ov(self.t) < c.s.alloc))); self.some = c.bool("has_bindings"); return [self.w, self.t], {}
    def attr(self, eng, s, v, name):
        if name == "bindings" and eng.entails(s, v == self.w): return [(s, self.some)]      # only its truth value matters here
    def hooks(self):
        def ext(eng, s, recv, name, args, kw):
            if name[1] != "visit": return None
            r = dres(eng.toV(s, args[0])); s.assume(r != ABSENT); log(s, S("dispatch"), eng.toV(s, args[0])); return [(s, r)]
        return {"attr": self.attr, "ext_method": ext}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        done = type_formula(self.t, Done); skip = z3.Or(z3.Not(V.bv(self.some)), done)
        return [("skipped-as-is", z3.Implies(skip, z3.And(p.resultV == self.t, p.trace() == EMPTY))), ("none", z3.Implies(self.t == NONE, z3.And(p.resultV == NONE, p.trace() == EMPTY))),
                ("dispatched", z3.Implies(z3.Not(z3.Or(skip, self.t == NONE)), z3.And(p.resultV == dres(self.t), p.trace() == seq(V.tup(seq(S("dispatch"), self.t))))))] + p.unchanged("H", "L", "D")
class VisitSuite(Visit):
    """`visit` on a statement suite: every element once, in order; the flattened results replace the contents; None when nothing is left."""
    label = "mcpyrate.core:BaseMacroExpander.visit[statement suite]"
    def pre(self, c):
        self.expander(c); self.t = c.list("tree", "any"); self.T = c.lst(self.t); self.some = c.bool("has_bindings"); self.flatarg = None; self.a0 = c.s.alloc; return [self.w, self.t], {}
    def hooks(self):
        def rec(eng, s, args, kw):
            x = eng.toV(s, args[0]); n = z3.Length(s.ghost["trace"]); r = vres(x, n); s.assume(r != ABSENT); havoc_user(s, [self.t]); s.ghost["trace"] = z3.Concat(s.ghost["trace"], unit(x)); return [(s, r)]
        def fl(eng, s, args, kw):
            a = args[0]
            if isinstance(a, GenVal): rs = eng.consume_gen(s, a)
            else: rs = [(s, a)]
            out = []
            for s2, l in rs:
                if isinstance(l, Exc): out.append((s2, l)); continue
                s2.ghost["flatarg"] = z3.Select(s2.L, V.ov(eng.toV(s2, l))); out.append((s2, eng.alloc_list(s2, flat_of(s2.ghost["flatarg"]))))
            return out
        return {"attr": self.attr, "ext": {"mcpyrate.core:BaseMacroExpander.visit": (rec, "recursive call: this contract; may run arbitrary macro code, which does not touch this suite's own list"), "mcpyrate.utils:flatten": (fl, "contract of flatten (C10)")}}
    @property
    def loops(self):
        def acc(c): return z3.Select(c.s.L, V.ov(c.var("$acc")))
        return (LoopSpec(lambda c: [("each-once-in-order", c.s.ghost["trace"] == ELS(c.done)), ("results", acc(c) == RES(c.done)), ("same-length", z3.Length(RES(c.done)) == c.i), ("suite", c.lst(self.t) == self.T), ("calls", z3.Length(ELS(c.done)) == c.i)],
                         lambda c: ELS.axioms(self.T, c.i) + RES.axioms(self.T, c.i)),)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        some = V.bv(self.some); f = flat_of(RES(self.T)); L = z3.Select(p.s.L, V.ov(self.t))
        return [("no-macros-no-op", z3.Implies(z3.Not(some), z3.And(p.resultV == self.t, L == self.T, p.trace() == EMPTY))), ("each-once-in-order", z3.Implies(some, p.trace() == ELS(self.T))),
                ("contents", z3.Implies(z3.And(some, f != EMPTY), z3.And(p.resultV == self.t, L == f))), ("nothing-left", z3.Implies(z3.And(some, f == EMPTY), p.resultV == NONE))]

class Mode(Core):
    """The visit runs in the stated mode; afterwards, on every outcome, the earlier mode is back."""
    must_reach = ("return", "raise"); mode = True
    def pre(self, c): self.expander(c); self.t = c.var("tree"); c.assume(self.t != ABSENT); return [self.w, self.t], {}
    def hooks(self):
        def rec(eng, s, args, kw):
            eng.oblige(s, "visit.mode", z3.And(sel(s, self.w, "recursive") == B(self.mode), eng.toV(s, args[0]) == self.t)); out = []
            for exc in (0, 1):
                b = s.clone(); old = b.H; havoc_user(b); b.assume(sel(b, self.w, "recursive") == z3.Select(old, V.ov(self.w), z3.StringVal("recursive"))); r = self.fresh_old(b); log(b, r)
                out.append((b, Exc(r, None) if exc else r))
                if exc: b.assume(type_formula(r, BaseException))
            return out
        return {"ext": {"mcpyrate.core:BaseMacroExpander.visit": (rec, "visit (this property): arbitrary effects, may raise; leaves the mode as it was (visits nest)")}}
    def result(self, p, r): return p.resultV == r
    def post(self, p):
        tr = p.trace(); r = V.tv(tr[0])[0]
        return [("visited-once", z3.Length(tr) == 1), ("mode-restored", sel(p.s, self.w, "recursive") == self.rec), ("outcome", self.result(p, r) if p.returned else p.exc.v == r)]
class VisitRecursively(Mode): target = "mcpyrate.core:BaseMacroExpander.visit_recursively"
class VisitOnce(Mode):
    target = "mcpyrate.core:BaseMacroExpander.visit_once"; mode = False
    def result(self, p, r): return z3.And(V.is_obj(p.resultV), cls_of(V.ov(p.resultV)) == cid(Done), sel(p.s, p.resultV, "body") == r)

class DebugHook(Core):
    """The hook is installed for the extent of the `with` and the earlier one comes back on every outcome."""
    target = "mcpyrate.core:BaseMacroExpander.debughook"; must_reach = ("return", "raise")
    def pre(self, c): self.expander(c); self.new = c.var("hook"); c.assume(self.new != ABSENT); return [self.w, self.new], {}
    def finish(self, eng, s0, s, o, args):
        if o[0] != "return" or not isinstance(o[1], CM): return [(s, o)]
        def body(s2, val):
            eng.oblige(s2, "installed", sel(s2, self.w, "_debughook") == self.new); s3 = s2.clone(); e = fresh("exc"); s3.assume(type_formula(e, BaseException))
            return [(s2, ("next",)), (s3, ("raise", Exc(e, None)))]
        return eng.run_cm(s, o[1], body)
    def post(self, p): return [("restored", sel(p.s, self.w, "_debughook") == self.hook), p.unchanged_except("H", None, [])]
    
class IsBound(Core):
    """The bound function, or False; `global_only` looks only among the global bindings."""
    target = "mcpyrate.core:BaseMacroExpander.isbound"; glob = False
    def pre(self, c): self.expander(c); self.g = c.dict("global_bindings"); self.nm = c.str("name_"); return [self.w, self.nm], ({"global_only": TRUE} if self.glob else {})
    def hooks(self): return {"attr": self.attr, "globals": {("mcpyrate.core", "global_bindings"): lambda eng, s: self.g}}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        v = z3.Select(z3.Select(p.s0.D, V.ov(self.g if self.glob else self.binds)), self.nm)
        return [("binding", p.resultV == z3.If(v == ABSENT, FALSE, v))] + p.unchanged("H", "L", "D")
class IsBoundGlobal(IsBound): label = "mcpyrate.core:BaseMacroExpander.isbound[global_only]"; glob = True

class ApplyMacro(Core):
    """The macro is called once, with the tree and the named arguments; the debug hook gets the invocation as it was before, the live result, and the macro."""
    target = "mcpyrate.core:BaseMacroExpander._apply_macro"; must_reach = ("return", "raise"); hooked = True
    def pre(self, c):
        self.expander(c); self.macro, self.t, self.nm, self.tgt = c.var("macro"), c.var("tree"), c.str("macroname"), c.obj("target", ast.AST); self.kw = c.dict("kw"); c.assume(V.is_obj(self.macro), self.t != ABSENT)
        c.assume(V.is_obj(self.hook) if self.hooked else self.hook == NONE, self.hook != self.macro)
        if self.hooked: c.assume(truthy_obj(V.ov(self.hook)), *[z3.Not(isa(cls_of(V.ov(self.hook)), cid(K))) for K in (list, dict, set, tuple, ast.AST)])  # a callable with the default truth value
        return [self.w, self.macro, self.t, self.kw, self.nm, self.tgt], {}
    def hooks(self):
        def call(eng, s, f, args, kw):
            fv = eng.toV(s, f); out = []
            if eng.entails(s, fv == self.macro):
                st = kw.get("**", []); eng.oblige(s, "macro.arguments", z3.And(z3.BoolVal(len(args) == 1 and len(kw) == 1 and len(st) == 1), eng.toV(s, args[0]) == self.t, *([st[0] == self.kw] if st else [z3.BoolVal(False)])))
                for exc in (0, 1):
                    b = s.clone(); keep = sel(b, self.w, "_debughook"); havoc_user(b); b.assume(sel(b, self.w, "_debughook") == keep); r = self.fresh_old(b, "macro_result"); log(b, S("macro"), r)
                    if exc: b.assume(type_formula(r, BaseException))
                    out.append((b, Exc(r, None) if exc else r))
                return out
            if eng.entails(s, fv == self.hook):
                log(s, S("hook"), *[eng.toV(s, a) for a in args]); return [(s, PyObj(None))]
        def dc(eng, s, args, kw): return copy_hook(eng, s, args, kw)
        return {"unknown_call": call, "ext": {"copy.deepcopy": (dc, DEEPCOPY["copy.deepcopy"][1])}}
    def post(self, p):
        tr = p.trace(); k = 1 if self.hooked else 0; mc = V.tv(tr[k])
        dup = V.tv(tr[0]); hk = V.tv(tr[2])
        out = [("macro-called", z3.And(z3.Length(tr) >= k + 1, mc[0] == S("macro")))]
        if p.raised: return out + [("error-passed-on", z3.And(p.exc.v == mc[1], z3.Length(tr) == k + 1))]
        out += [("result", p.resultV == mc[1])]
        if self.hooked: out += [("hook", z3.And(z3.Length(tr) == 3, dup == seq(S("deepcopy"), self.tgt, dup[2]), hk == seq(S("hook"), V.int(obj_id(self.tgt)), dup[2], mc[1], self.nm, self.macro)))]
        else: out += [("once", z3.Length(tr) == 1)]
        return out
class ApplyMacroPlain(ApplyMacro): label = "mcpyrate.core:BaseMacroExpander._apply_macro[no debug hook]"; hooked = False

class VisitExpansion(Core):
    """Output located at the invocation, contexts fixed, then - in recursive mode only - visited; None stays None."""
    target = "mcpyrate.core:BaseMacroExpander._visit_expansion"
    def pre(self, c): self.expander(c); self.x, self.tgt = c.var("expansion"), c.obj("target", ast.AST); c.assume(z3.Or(self.x == NONE, type_formula(self.x, ast.AST), type_formula(self.x, list))); return [self.w, self.x, self.tgt], {}
    def hooks(self):
        def step(tag, ok):
            def f(eng, s, args, kw):
                b = bound(eng, args, kw); x = eng.toV(s, list(b.values())[0]); eng.oblige(s, tag, ok(eng, s, b)); r = self.fresh_old(s, tag); log(s, S(tag), x, r); return [(s, r)]
            return f
        fl = step("locate", lambda eng, s, b: z3.And(eng.toV(s, b["reference_node"]) == self.tgt, eng.toV(s, b["mode"]) == S("reference")))
        fc = step("contexts", lambda eng, s, b: eng.toV(s, b["copy_seen_nodes"]) == FALSE); vi = step("visit", lambda eng, s, b: z3.BoolVal(True))
        return {"ext": {"mcpyrate.astfixers:fix_locations": (fl, "contract of fix_locations (C08)"), "mcpyrate.astfixers:fix_ctx": (fc, "contract of the ctx fixer (C08)"), "mcpyrate.core:BaseMacroExpander.visit": (vi, "visit (this property)")}}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        tr = p.trace(); e = [V.tv(tr[i]) for i in range(3)]; rec = V.bv(self.rec)
        return [("none", z3.Implies(self.x == NONE, z3.And(p.resultV == NONE, tr == EMPTY))),
                ("located", z3.Implies(self.x != NONE, z3.And(e[0][0] == S("locate"), e[0][1] == self.x))), ("then-contexts", z3.Implies(self.x != NONE, z3.And(e[1][0] == S("contexts"), e[1][1] == e[0][2]))),
                ("then-visited-iff-recursive", z3.Implies(self.x != NONE, z3.If(rec, z3.And(z3.Length(tr) == 3, e[2][0] == S("visit"), e[2][1] == e[1][2], p.resultV == e[2][2]), z3.And(z3.Length(tr) == 2, p.resultV == e[1][2]))))] + p.unchanged("H", "L", "D")

CONTRACTS = [Visit, VisitSuite, VisitRecursively, VisitOnce, DebugHook, IsBound, IsBoundGlobal, ApplyMacro, ApplyMacroPlain, VisitExpansion]
