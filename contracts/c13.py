from contracts.base import *
from contracts.c07 import ismac
import sys
from mcpyrate import multiphase as MP

def fut(h, x):
    """x is a from __future__ import (spec)."""
    return z3.And(type_formula(x, ast.ImportFrom), z3.Select(h, V.ov(x), z3.StringVal("module")) == S("__future__"))
def known_importfrom(h, x):
    m = z3.Select(h, V.ov(x), z3.StringVal("module"))
    return z3.Implies(type_formula(x, ast.ImportFrom), z3.And(cls_of(V.ov(x)) == cid(ast.ImportFrom), z3.Or(V.is_none(m), V.is_str(m))))
class IsFutureImport(Contract):
    target = "mcpyrate.coreutils:isfutureimport"
    def pre(self, c): self.x = c.obj("tree", ast.AST); c.assume(known_importfrom(c.s.H, self.x)); return [self.x], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("iff", p.resultV == V.bool(fut(p.s0.H, self.x)))] + p.unchanged("H", "L", "D")

doc_value = z3.Function("doc_value", SeqV, V)
def getdoc(eng, s, args, kw):
    x = z3.simplify(z3.Select(s.L, V.ov(eng.toV(s, args[0])))); r = doc_value(x)
    s.assume(z3.Or(r == NONE, V.is_str(r)), z3.Implies(r != NONE, z3.Length(x) > 0)); return [(s, r)]
GETDOC = {"mcpyrate.utils:getdocstring": (getdoc, "contract of getdocstring (C12)")}
isfut_ = z3.Function("isfutureimport_", V, Bool)
ISFUT = {"mcpyrate.coreutils:isfutureimport": (lambda eng, s, args, kw: [(s, V.bool(isfut_(eng.toV(s, args[0]))))], "contract of isfutureimport (this property)")}
ALLFUT = Fold("all_future", Bool, z3.BoolVal(True), lambda acc, x: z3.And(acc, isfut_(x)))
class SplitFutureimports(Contract):
    """docstring part + future-imports directly after it + everything else, in order, nothing lost."""
    target = "mcpyrate.coreutils:split_futureimports"
    def pre(self, c): self.b = c.list("body", "stmt"); self.B = c.lst(self.b); return [self.b], {}
    def hooks(self): return {"ext": dict(GETDOC, **ISFUT)}
    @property
    def loops(self):
        def inv(c):
            k, L = c.var("k"), c.lst(c.var("body"))
            return [("range", z3.And(V.is_int(k), V.iv(k) >= 0, V.iv(k) <= z3.Length(L))), ("future-so-far", ALLFUT(z3.Extract(L, 0, V.iv(k))))]
        def ax(c): return ALLFUT.axioms(c.lst(c.var("body")), V.iv(c.var("k")))
        return (LoopSpec(inv, ax),)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        r = V.tv(p.resultV); d, f, x = (z3.Select(p.s.L, V.ov(r[i])) for i in range(3))
        n = z3.If(doc_value(self.B) != NONE, 1, 0)
        return [("three", z3.And(V.is_tup(p.resultV), z3.Length(r) == 3)), ("docstring", d == z3.Extract(self.B, 0, n)), ("nothing-lost", z3.Concat(f, x) == z3.Extract(self.B, n, z3.Length(self.B) - n)),
                ("all-future", ALLFUT(f)), ("rest-starts-otherwise", z3.Implies(z3.Length(x) > 0, z3.Not(isfut_(x[0]))))] + p.unchanged("H", "L", "D")

doc_of = z3.Function("docpart", SeqV, SeqV); fut_of = z3.Function("futurepart", SeqV, SeqV); rest_of = z3.Function("restpart", SeqV, SeqV)
def split_hook(eng, s, args, kw):
    x = z3.simplify(z3.Select(s.L, V.ov(eng.toV(s, args[0])))); return [(s, Tup([eng.alloc_list(s, f(x)) for f in (doc_of, fut_of, rest_of)]))]
class Inject(Contract):
    target = "mcpyrate.coreutils:inject_after_futureimports"
    def pre(self, c): self.b = c.list("body", "stmt"); self.x = self.stmts(c); return [self.x, self.b], {}
    def stmts(self, c): l = c.list("stmts", "stmt"); self.X = c.lst(l); return l
    def hooks(self): return {"ext": {"mcpyrate.coreutils:split_futureimports": (split_hook, "contract of split_futureimports (this property)")}}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        B = z3.Select(p.s0.L, V.ov(self.b))
        return [("after-future-imports", z3.Select(p.s.L, V.ov(p.resultV)) == z3.Concat(doc_of(B), fut_of(B), self.X, rest_of(B)))] + p.unchanged("H", "L", "D")
class InjectOne(Inject):
    label = "mcpyrate.coreutils:inject_after_futureimports[one statement]"
    def stmts(self, c): o = c.obj("stmts", ast.stmt); self.X = unit(o); return o
class InjectBad(Inject):
    label = "mcpyrate.coreutils:inject_after_futureimports[bad arguments]"; must_reach = ("raise",)
    def pre(self, c):
        self.b, self.x = c.var("body"), c.var("stmts"); c.assume(self.b != ABSENT, self.x != ABSENT)
        c.assume(z3.Or(z3.Not(type_formula(self.b, list)), z3.Not(z3.Or(type_formula(self.x, list), type_formula(self.x, ast.stmt))))); return [self.x, self.b], {}
    def post(self, p): return [("typeerror", p.exc_is(TypeError) if p.raised else False)] + p.unchanged("H", "L", "D")

# ---------------------------------------------------------------- iswithphase
def h_(h, o, a): return z3.Select(h, V.ov(o), z3.StringVal(a))
def exact(o, C): return z3.And(V.is_obj(o), cls_of(V.ov(o)) == cid(C))
def phase_spec(s, x):
    """(is a phase block, its number) per the documented form."""
    items = z3.Select(s.L, V.ov(sel(s, x, "items"))); it = items[0]; ce = sel(s, it, "context_expr"); nm = sel(s, ce, "value"); sl = sel(s, ce, "slice")
    el = z3.Select(s.L, V.ov(sel(s, sl, "elts"))); arg = z3.If(exact(sl, ast.Tuple), el[0], sl); n = sel(s, arg, "value")
    ok = z3.And(exact(x, ast.With), z3.Length(items) == 1, sel(s, it, "optional_vars") == NONE, exact(ce, ast.Subscript), exact(nm, ast.Name), sel(s, nm, "id") == S("phase"),
                z3.Implies(exact(sl, ast.Tuple), z3.Length(el) == 1), exact(arg, ast.Constant), V.is_int(n), V.iv(n) >= 1)
    return ok, n
class IsWithPhase(Contract):
    target = "mcpyrate.multiphase:iswithphase"
    def pre(self, c): self.x = c.obj("stmt", ast.AST); self.fn = c.str("filename"); return [self.x], {"filename": self.fn}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        ok, n = phase_spec(p.s0, self.x)
        return [("documented-form", z3.Implies(ok, p.resultV == n)), ("nothing-else", z3.Implies(z3.Not(ok), p.resultV == FALSE))] + p.unchanged("H", "L", "D")

# ---------------------------------------------------------------- scanning
phaseno = z3.Function("phase_number", V, V)              # False, or the phase number (contract of iswithphase)
def iwp(eng, s, args, kw):
    r = phaseno(eng.toV(s, args[0])); s.assume(z3.Or(r == FALSE, z3.And(V.is_int(r), V.iv(r) >= 1))); return [(s, r)]
IWP = {"mcpyrate.multiphase:iswithphase": (iwp, "contract of iswithphase (this property)")}
def ismi(eng, s, args, kw):
    x = eng.toV(s, args[0]); r = ismac(x, S("macros")); s.assume(z3.Implies(r, z3.And(exact(x, ast.ImportFrom))))
    return [(s, V.bool(r))]
ISMI = {"mcpyrate.coreutils:ismacroimport": (ismi, "contract of ismacroimport (C07)")}
class Scan(Contract):
    """True iff some top-level absolute macro-import from the module imports the name."""
    must_reach = ("return",); modname = iname = None
    def pre(self, c):
        self.t = c.obj("tree", ast.Module, exact=True); self.body = c.list("body", "stmt"); c.setattr(self.t, "body", self.body); self.B = c.lst(self.body); self.H = c.s.H; self.L = c.s.L; self.a0 = c.s.alloc
        tag = self.iname
        self.NAMES = Fold("imports_" + tag, Bool, z3.BoolVal(False), lambda acc, a, h: z3.Or(acc, h_(h, a, "name") == S(self.iname)), extra=(HeapSort,))
        self.HAS = Fold("requests_" + tag, Bool, z3.BoolVal(False), lambda acc, x, h, l: z3.Or(acc, self.one(x)), extra=(HeapSort, ListSort))
        return [self.t], {}
    def names(self, x): sq = z3.Select(self.L, V.ov(h_(self.H, x, "names"))); return z3.Extract(sq, 1, z3.Length(sq) - 1)
    def one(self, x): return z3.And(ismac(x, S("macros")), h_(self.H, x, "module") == S(self.modname), h_(self.H, x, "level") == V.int(0), z3.Length(z3.Select(self.L, V.ov(h_(self.H, x, "names")))) >= 1, self.NAMES(self.names(x), self.H))
    def hooks(self): return {"ext": ISMI}
    @property
    def loops(self):
        def ax0(c):
            x = self.B[c.i]; nl = z3.Length(z3.Select(self.L, V.ov(h_(self.H, x, "names"))))
            return self.HAS.axioms(self.B, c.i, self.H, self.L) + [old_elem(self.B, c.i, self.a0), z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(self.B), ismac(x, S("macros"))), nl >= 1),
                       z3.Implies(self.HAS(z3.Extract(self.B, 0, c.i + 1), self.H, self.L), self.HAS(self.B, self.H, self.L))]
        return (LoopSpec(lambda c: [("not-yet", z3.Not(self.HAS(c.done, self.H, self.L)))], ax0),
                LoopSpec(lambda c: [("no-name-yet", z3.Not(self.NAMES(c.done, self.H)))], lambda c: self.NAMES.axioms(c.seq, c.i, self.H) + [old_elem(c.seq, c.i, self.a0),
                    z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(c.seq), self.NAMES(z3.Extract(c.seq, 0, c.i + 1), self.H)), self.NAMES(c.seq, self.H))]))    # (an Or-fold, once true, stays true)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("value", p.resultV == V.bool(self.HAS(self.B, self.H, self.L)))] + p.unchanged("H", "L", "D")
class IsMultiphase(Scan): target = "mcpyrate.multiphase:ismultiphase"; modname, iname = "mcpyrate.multiphase", "phase"
class IsDebug(Scan): target = "mcpyrate.multiphase:isdebug"; modname, iname = "mcpyrate.debug", "step_phases"

MAXPH = Fold("highest", V, NONE, lambda acc, x: z3.If(phaseno(x) == FALSE, acc, z3.If(z3.Or(acc == NONE, V.iv(phaseno(x)) > V.iv(acc)), phaseno(x), acc)))
class DetectHighestPhase(Contract):
    target = "mcpyrate.multiphase:detect_highest_phase"
    def pre(self, c):
        self.t = c.obj("tree", ast.Module, exact=True); self.body = c.list("body", "stmt"); c.setattr(self.t, "body", self.body); self.B = c.lst(self.body); return [self.t], {"filename": c.str("filename")}
    def hooks(self): return {"ext": IWP}
    loops = (LoopSpec(lambda c: [("highest-so-far", c.var("maxn") == MAXPH(c.done)), ("kind", z3.Or(c.var("maxn") == NONE, z3.And(V.is_int(c.var("maxn")), V.iv(c.var("maxn")) >= 1)))], lambda c: MAXPH.axioms(c.seq, c.i)),)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("highest", p.resultV == MAXPH(self.B))] + p.unchanged("H", "L", "D")


# ---------------------------------------------------------------- the phase loop
class MultiphaseExpand(Contract):
    """sys.modules' entry for the module is restored on every outcome; nothing else of sys.modules is touched here."""
    target = "mcpyrate.multiphase:multiphase_expand"; must_reach = ("return", "raise")
    def pre(self, c):
        self.mods = c.dict("sys_modules"); self.t, self.modname_, self.fn, self.dx = c.obj("tree", ast.Module), c.str("self_module"), c.var("filename"), c.var("dexpander")
        c.assume(self.fn != ABSENT, self.dx != ABSENT); return [self.t], {"filename": self.fn, "self_module": self.modname_, "dexpander": self.dx}
    def hooks(self):
        def inner(eng, s, args, kw):
            ok = self.agree(eng, s, args, kw); eng.oblige(s, "inner.arguments", ok)
            out = []
            for exc in (0, 1):
                b = s.clone(); havoc_user(b); b.ghost["inner_D"] = z3.Select(b.D, V.ov(self.mods)); b.ghost["inner_r"] = r = fresh("inner_result"); b.assume(r != ABSENT)
                if exc:
                    b.assume(type_formula(r, BaseException)); out.append((b, Exc(r, None)))
                else: out.append((b, r))
            return out
        return {"module_attr": {("sys", "modules"): lambda eng, s: self.mods}, "ext": {"mcpyrate.multiphase:_multiphase_expand": (inner, "the inner phase loop: may change anything, may raise")}}
    def agree(self, eng, s, args, kw):
        kw = bound(eng, args, kw)
        return z3.And(*[eng.toV(s, kw.get(k, PyObj(None))) == v for k, v in (("tree", self.t), ("filename", self.fn), ("self_module", self.modname_), ("dexpander", self.dx))])
    def post(self, p):
        d = z3.Select(p.s.D, V.ov(self.mods)); d0 = z3.Select(p.s0.D, V.ov(self.mods)); k = fresh("other_module")
        if "inner_D" not in p.s.ghost: return [("expanded", False)]
        res = p.resultV if p.returned else p.exc.v
        return [("restored", z3.Select(d, self.modname_) == z3.Select(d0, self.modname_)), ("others-untouched", z3.Implies(k != self.modname_, z3.Select(d, k) == z3.Select(p.s.ghost["inner_D"], k))),
                ("outcome-passed-on", res == p.s.ghost["inner_r"])]


# ---------------------------------------------------------------- extract_phase
copied = z3.Function("deepcopy_of", V, Int, V); copied_seq = z3.Function("deepcopy_elements", V, Int, SeqV)
class PFold(Fold):
    """A fold whose step also sees the prefix already folded."""
    def axioms(self, sq, i, *x):
        n = z3.Length(sq)
        def at(k):
            a = z3.Extract(sq, 0, k); return z3.Implies(z3.And(k >= 0, k < n), self.f(z3.Extract(sq, 0, k + 1), *x) == self.step(self.f(a, *x), sq[k], a, *x))
        return [self.f(EMPTY, *x) == self.init, at(i), at(z3.simplify(i - 1)), z3.Extract(sq, 0, n) == sq, z3.Implies(i == 0, z3.Extract(sq, 0, i) == EMPTY)]
def copy_copy(eng, s, args, kw):
    """copy.copy(tree): a new object of the same class with the same attributes."""
    x = eng.toV(s, args[0]); o = fresh("shallow"); s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc); na = fresh("alloc", Int); s.assume(na > V.ov(o)); s.alloc, s.nalloc = na, 0
    s.assume(cls_of(V.ov(o)) == cls_of(V.ov(x)))
    C = eng.static_class(s, x)
    if not isinstance(C, type): raise SpecMismatch("copy of an unknown class")
    for k in list(C._fields) + list(C._attributes): eng.setH(s, o, k, sel(s, x, k))
    s.meta[("cls", z3.simplify(o).get_id())] = C; s.meta[("keep", z3.simplify(o).get_id())] = o
    return [(s, o)]
class ExtractPhase(Contract):
    """The statements of this phase, in order, plus every future-import; the rest stays, in order, with deep copies of this
    phase's blocks lifted one phase down (phase number decreased, or the bare body at phase 1)."""
    target = "mcpyrate.multiphase:extract_phase"; label = "mcpyrate.multiphase:extract_phase[phase 1]"; one = True
    def pre(self, c):
        self.t = c.obj("tree", ast.Module, exact=True); self.body = c.list("body", "stmt"); c.setattr(self.t, "body", self.body); self.B = c.lst(self.body); self.L, self.H, self.a0 = c.s.L, c.s.H, c.s.alloc
        k = PyObj(1) if self.one else c.int("phase"); self.k = V.int(1) if self.one else k
        if not self.one: c.assume(V.iv(k) >= 2)
        tag = "1" if self.one else "k"
        mine = lambda x: phaseno(x) == self.k
        bodyof = lambda x: z3.Select(self.L, V.ov(h_(self.H, x, "body")))
        self.CNT = Fold("lifts_before" + tag, Int, z3.IntVal(0), lambda a, x: z3.If(mine(x), a + 1, a))
        self.THIS = Fold("this_phase" + tag, SeqV, EMPTY, lambda a, x: z3.If(mine(x), z3.Concat(a, bodyof(x)), z3.If(isfut_(x), z3.Concat(a, unit(x)), a)))
        self.REM = PFold("remaining" + tag, SeqV, EMPTY, lambda a, x, pre: z3.If(mine(x), z3.Concat(a, copied_seq(h_(self.H, x, "body"), self.CNT(pre)) if self.one else unit(copied(x, self.CNT(pre)))), z3.Concat(a, unit(x))))
        return [self.t], {"filename": c.str("filename"), "phase": k}
    def hooks(self):
        def iw(eng, s, args, kw):
            x = eng.toV(s, args[0]); r = phaseno(x); ok, n = phase_spec(s, x)
            s.assume(z3.Or(r == FALSE, z3.And(V.is_int(r), V.iv(r) >= 1, ok, n == r))); return [(s, r)]
        def dc(eng, s, args, kw):
            x = eng.toV(s, args[0]); n = z3.Length(s.ghost["trace"])
            if self.one:
                o = eng.alloc_list(s, copied_seq(x, n))
            else:
                ok, num = phase_spec(s, x); eng.oblige(s, "lift.one-phase-down", z3.And(ok, num == V.int(V.iv(phaseno(x)) - 1)))
                o = copied(x, n); s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc); na = fresh("alloc", Int); s.assume(na > V.ov(o)); s.alloc, s.nalloc = na, 0
            log(s, S("lift"), x, o); return [(s, o)]
        return {"ext": dict(ISFUT, **{"mcpyrate.multiphase:iswithphase": (iw, "contract of iswithphase (this property); statements of a body do not share nodes"),
                "copy.deepcopy": (dc, "deepcopy(x) is a new, independent, equal object; x is unchanged"), "copy.copy": (copy_copy, "copy(x) is a new object with the same class and attributes")})}
    @property
    def loops(self):
        def inv(c): return [("this-phase", c.lst(c.var("thisphase")) == self.THIS(c.done)), ("remaining", c.lst(c.var("remaining")) == self.REM(c.done)), ("lifts", z3.Length(c.s.ghost["trace"]) == self.CNT(c.done))]
        def ax(c): return self.CNT.axioms(self.B, c.i) + self.THIS.axioms(self.B, c.i) + self.REM.axioms(self.B, c.i) + [old_elem(self.B, c.i, self.a0)]
        return (LoopSpec(inv, ax),)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        r = p.resultV; r_, f_ = fresh("r", Int), fresh("f", Str)
        cond = [r_ < p.s0.alloc] + ([] if self.one else [f_ != z3.StringVal("value")])
        return [("module", z3.And(exact(r, ast.Module), V.ov(r) >= p.s0.alloc)), ("this-phase", z3.Select(p.s.L, V.ov(sel(p.s, r, "body"))) == self.THIS(self.B)),
                ("rest-stays", z3.And(sel(p.s, self.t, "body") == self.body, z3.Select(p.s.L, V.ov(self.body)) == self.REM(self.B))),
                ("separate-bodies", sel(p.s, r, "body") != self.body),
                ("frame.H", z3.Implies(z3.And(cond), z3.Select(p.s0.H, r_, f_) == z3.Select(p.s.H, r_, f_))), p.unchanged_except("L", [V.ov(self.body)])] + p.unchanged("D")
class ExtractPhaseK(ExtractPhase): label = "mcpyrate.multiphase:extract_phase[phase 2 or more]"; one = False
class ExtractPhase0(Contract):
    target = "mcpyrate.multiphase:extract_phase"; label = "mcpyrate.multiphase:extract_phase[phase 0 or invalid]"; must_reach = ("return", "raise")
    def pre(self, c):
        self.t, self.k = c.obj("tree", ast.Module), c.var("phase"); c.assume(self.k != ABSENT, z3.Not(z3.And(V.is_int(self.k), V.iv(self.k) > 0)), z3.Not(V.is_bool(self.k)), z3.Not(z3.And(V.is_obj(self.k), isa(cls_of(V.ov(self.k)), cid(int))))); return [self.t], {"filename": c.str("filename"), "phase": self.k}
    def post(self, p):
        ok = self.k == V.int(0)
        if p.returned: return [("as-is", z3.And(ok, p.resultV == self.t))] + p.unchanged("H", "L", "D")
        return [("invalid", z3.Not(ok)), ("error", z3.If(V.is_int(self.k), p.exc_is(ValueError), p.exc_is(TypeError)))] + p.unchanged("H", "L", "D")


class PhaseLoop(Contract):
    """Phases n, n-1, ..., 0, each exactly once and in that order; `__phase__ = k` injected; every non-empty phase k > 0 is run in the one
    temporary module before the next phase is extracted; the result is the expansion of phase 0."""
    target = "mcpyrate.multiphase:_multiphase_expand"
    def pre(self, c):
        self.t, self.modname_, self.fn, self.dx = c.obj("tree", ast.Module, exact=True), c.str("self_module"), c.str("filename"), c.var("dexpander"); c.assume(self.dx != ABSENT)
        self.body = c.list("body", "stmt"); c.setattr(self.t, "body", self.body)
        self.n = c.var("highest"); c.assume(z3.Or(self.n == NONE, z3.And(V.is_int(self.n), V.iv(self.n) >= 1))); self.N = z3.If(self.n == NONE, 0, V.iv(self.n))
        c.s.ghost.update(count=z3.IntVal(0), due=z3.BoolVal(False), module=NONE, ptree=NONE, pbody=NONE, injected=NONE, expansion=NONE); return [self.t], {"filename": self.fn, "self_module": self.modname_, "dexpander": self.dx}
    def hooks(self):
        def K(s): return self.N - (s.ghost["count"] - 1)      # the phase now being worked on
        def kw_(eng, s, kw, k): return eng.toV(s, kw[k]) if k in kw else ABSENT
        def create(eng, s, args, kw):
            kw = bound(eng, args, kw)
            eng.oblige(s, "module.created-once-first", z3.And(s.ghost["module"] == NONE, s.ghost["count"] == 0))
            eng.oblige(s, "module.identity", z3.And(kw_(eng, s, kw, "dotted_name") == self.modname_, kw_(eng, s, kw, "filename") == self.fn, kw_(eng, s, kw, "update_parent") == FALSE))
            m = fresh("module"); s.assume(V.is_obj(m), V.ov(m) >= s.alloc + s.nalloc); na = fresh("alloc", Int); s.assume(na > V.ov(m)); s.alloc, s.nalloc = na, 0
            s.ghost["module"] = m; return [(s, m)]
        def extract(eng, s, args, kw):
            kw = bound(eng, args, kw)
            eng.oblige(s, "extract.previous-phase-was-run", z3.Not(s.ghost["due"])); s.ghost["count"] = s.ghost["count"] + 1; k = K(s)
            eng.oblige(s, "extract.in-order", z3.And(kw_(eng, s, kw, "tree") == self.t, kw_(eng, s, kw, "phase") == V.int(k), k >= 0, kw_(eng, s, kw, "filename") == self.fn))
            out = []
            for s2, zero in eng.branch(s, k == 0):
                if zero: r = self.t
                else:
                    r = eng.construct_py(s2, ast.Module, [], {})[0][1]; r = eng.toV(s2, r); l = fresh("phase_body", SeqV); eng.setH(s2, r, "body", eng.alloc_list(s2, l))
                s2.ghost["ptree"], s2.ghost["pbody"] = r, sel(s2, r, "body"); s2.ghost["due"] = z3.Or(k == 0, z3.Length(z3.Select(s2.L, V.ov(sel(s2, r, "body")))) > 0); out.append((s2, r))
            return out
        def inject(eng, s, args, kw):
            kw = bound(eng, args, kw)
            a, b = kw_(eng, s, kw, "stmts"), kw_(eng, s, kw, "body"); tg = z3.Select(s.L, V.ov(sel(s, a, "targets")))
            eng.oblige(s, "inject.phase-number", z3.And(exact(a, ast.Assign), z3.Length(tg) == 1, exact(tg[0], ast.Name), sel(s, tg[0], "id") == S("__phase__"), exact(sel(s, tg[0], "ctx"), ast.Store), exact(sel(s, a, "value"), ast.Constant),
                       sel(s, sel(s, a, "value"), "value") == V.int(K(s)), b == s.ghost["pbody"]))
            l = eng.alloc_list(s, fresh("injected_body", SeqV)); s.ghost["injected"] = l; return [(s, l)]
        def ready(s, t): return z3.And(s.ghost["due"], t == s.ghost["ptree"], sel(s, t, "body") == s.ghost["injected"])
        def run(eng, s, args, kw):
            kw = bound(eng, args, kw)
            eng.oblige(s, "run.this-phase-in-the-module", z3.And(ready(s, kw_(eng, s, kw, "source")), K(s) > 0, kw_(eng, s, kw, "module") == s.ghost["module"], s.ghost["module"] != NONE)); s.ghost["due"] = z3.BoolVal(False); s.ghost["injected"] = NONE; return [(s, PyObj(None))]
        def expand(eng, s, args, kw):
            kw = bound(eng, args, kw)
            eng.oblige(s, "expand.phase-0", z3.And(ready(s, kw_(eng, s, kw, "tree")), K(s) == 0, kw_(eng, s, kw, "filename") == self.fn, kw_(eng, s, kw, "self_module") == self.modname_, kw_(eng, s, kw, "dexpander") == self.dx))
            s.ghost["due"] = z3.BoolVal(False); r = fresh("expansion"); s.assume(r != ABSENT); s.ghost["expansion"] = r; return [(s, r)]
        def text(eng, s, args, kw): return [(s, V.str(fresh("text", Str)))]
        isd = lambda eng, s, args, kw: [(s, V.bool(fresh("debug", Bool)))]
        return {"ext": {"mcpyrate.multiphase:detect_highest_phase": (lambda eng, s, args, kw: [(s, self.n)], "contract of detect_highest_phase (this property)"), "mcpyrate.multiphase:isdebug": (isd, "contract of isdebug (this property)"),
                "mcpyrate.compiler:create_module": (create, "C15"), "mcpyrate.multiphase:extract_phase": (extract, "contract of extract_phase (this property)"), "mcpyrate.coreutils:inject_after_futureimports": (inject, "contract of inject_after_futureimports (this property)"),
                "mcpyrate.compiler:run": (run, "C15: runs the tree in the module"), "mcpyrate.compiler:singlephase_expand": (expand, "C15: expands the tree"), "mcpyrate.unparser:unparse_with_fallbacks": (text, "C01: text only"), "mcpyrate.colorizer:setcolor": (text, "text only")}}
    @property
    def loops(self):
        def inv(c):
            g = c.s.ghost
            return [("count", z3.And(g["count"] == c.i, c.i <= self.N)), ("nothing-due", z3.Not(g["due"])), ("module", g["module"] == c.var("module")), ("module-made", g["module"] != NONE)]
        return (LoopSpec(inv),)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("all-phases", p.s.ghost["count"] == self.N + 1), ("all-run", z3.Not(p.s.ghost["due"])), ("result", p.resultV == p.s.ghost["expansion"])]

CONTRACTS = [IsFutureImport, SplitFutureimports, Inject, InjectOne, InjectBad, IsWithPhase, IsMultiphase, IsDebug, DetectHighestPhase, MultiphaseExpand, ExtractPhase, ExtractPhaseK, ExtractPhase0, PhaseLoop]
