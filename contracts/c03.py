from contracts.base import *
from contracts.c15 import exc_any
from mcpyrate.core import global_bindings
import mcpyrate.quotes as QT

M = "mcpyrate.quotes:"; sv = z3.StringVal
quotes_attr = z3.Function("attribute_of_mcpyrate", V, V, V)        # code that looks it up (dotted name, with import or without)
THAWED = z3.Function("thawed_from", V, V, z3.BoolSort())           # this object came out of loading these frozen bytes
FROZEN = z3.Function("frozen_from", V, V, z3.BoolSort())           # these bytes are what this value was frozen to
def attr_hook(e, s, a, k):
    b = bound(e, a, k); r = quotes_attr(e.toV(s, b["dotted_name"]), e.toV(s, b.get("force_import", PyObj(False)))); s.assume(r != ABSENT); return [(s, r)]
def new_obj(s, name):
    o = fresh(name); s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc); na = fresh("alloc", z3.IntSort()); s.assume(na > V.ov(o)); s.alloc, s.nalloc = na, 0; return o
def failed(f): x = exc_any(f); f.ghost["failure"] = x; return Exc(x)
def passed_on(p): return ("fails-only-with-what-failed", p.exc.v == p.s.ghost["failure"] if "failure" in p.s.ghost else False)
def dumps(e, s, a, k):
    x = e.toV(s, a[0]); e.oblige(s, "freeze.value-only", z3.BoolVal(len(a) == 1 and not k)); user(e, s); f = s.clone(); r = new_obj(s, "frozen"); s.assume(FROZEN(r, x)); s.ghost["frozen"] = r; return [(s, r), (f, failed(f))]
def user(e, s):
    k = getattr(e.current, "after_user", None); pre = s.clone(); havoc_user(s, [v for v in getattr(e.current, "mine", ())])
    if k: k(s, pre)
def loads(e, s, a, k):
    x = e.toV(s, a[0]); e.oblige(s, "thaw.bytes-only", z3.BoolVal(len(a) == 1 and not k)); user(e, s); f = s.clone(); r = fresh("thawed"); s.assume(r != ABSENT, THAWED(r, x), z3.Implies(V.is_obj(r), V.ov(r) < s.alloc + s.nalloc)); s.ghost["loads"] = s.ghost.get("loads", z3.IntVal(0)) + 1; return [(s, r), (f, failed(f))]
PICKLE = {"_pickle.dumps": (dumps, "pickle: bytes that load back as an equal value, or fails"), "_pickle.loads": (loads, "pickle: a new value equal to the frozen one, or fails")}
def built(p, node, K): return z3.And(V.is_obj(node), V.ov(node) >= p.s0.alloc, cls_of(V.ov(node)) == cid(K))
def H(p, node, name): return rd(p.s.H, z3.simplify(V.ov(node)), sv(name))
def L(p, lst): return rd(p.s.L, z3.simplify(V.ov(lst)))
def const(p, node, v): return z3.And(built(p, node, ast.Constant), sel(p.s, node, "value") == v)
def lookup_call(p, r, attr, force, values):
    """r is code for `mcpyrate.quotes.<attr>((values...))`."""
    a = p.eng.concrete_seq(L(p, H(p, r, "args"))); k = p.eng.concrete_seq(L(p, H(p, r, "keywords")))
    if a is None or k is None: raise SpecMismatch("the built call is not understood")
    out = [("call", built(p, r, ast.Call)), ("function", sel(p.s, r, "func") == quotes_attr(S(attr), B(force))), ("one-argument", z3.BoolVal(len(a) == 1 and not k))]
    if len(a) != 1: return out
    el = p.eng.concrete_seq(L(p, H(p, a[0], "elts")))
    if el is None: raise SpecMismatch("the key is not understood")
    return out + [("key", z3.And([built(p, a[0], ast.Tuple), z3.BoolVal(len(el) == len(values))] + [const(p, x, v) for x, v in zip(el, values)]))]
DC = {"mcpyrate.coreutils:_mcpyrate_attr": (attr_hook, "contract of _mcpyrate_attr (AttrCode here, one per attribute the package looks up)")}

# ---------------------------------------------------------------- the code that looks an attribute of mcpyrate up
class AttrCode(Contract):
    """Code for `mcpyrate.<dotted name>`; with `force_import`, for `__import__("mcpyrate.<submodule>", globals(), None, (), 0).<dotted name>`, whose value is the top-level package."""
    target = "mcpyrate.coreutils:_mcpyrate_attr"; dotted = None; force = False
    def pre(self, c): return [PyObj(self.dotted)], ({"force_import": PyObj(True)} if self.force else {})
    def post(self, p):
        if p.raised: return [("does-not-fail", False)]
        out, node = [], p.result
        for i, part in enumerate(reversed(self.dotted.split("."))):
            out.append((f"attribute-{part}", z3.And(built(p, node, ast.Attribute), H(p, node, "attr") == S(part)))); node = H(p, node, "value")
        if not self.force: return out + [("of-the-package", z3.And(built(p, node, ast.Name), H(p, node, "id") == S("mcpyrate")))]
        a = p.eng.concrete_seq(L(p, H(p, node, "args"))); k = p.eng.concrete_seq(L(p, H(p, node, "keywords"))); f = H(p, node, "func")
        if a is None or k is None: raise SpecMismatch("the built call is not understood")
        out += [("import-call", z3.And(built(p, node, ast.Call), built(p, f, ast.Name), H(p, f, "id") == S("__import__"), z3.BoolVal(len(a) == 5 and not k)))]
        if len(a) != 5: return out
        fl = p.eng.concrete_seq(L(p, H(p, a[3], "elts"))); g = a[1]; gf = H(p, g, "func")
        return out + [("imports-the-submodule", const(p, a[0], S(".".join(["mcpyrate"] + self.dotted.split(".")[:-1])))), ("globals", z3.And(built(p, g, ast.Call), built(p, gf, ast.Name), H(p, gf, "id") == S("globals"))), ("no-locals", const(p, a[2], NONE)), ("gives-the-package", z3.And(built(p, a[3], ast.Tuple), z3.BoolVal(fl == []))), ("absolute", const(p, a[4], V.int(0)))]
ATTRS = [(f"quotes.{n}", n in ("lookup_value", "capture_value")) for n in ("astify", "lift_sourcecode", "ast_literal", "ast_list", "ast_tuple", "capture_value", "lookup_value", "lookup_macro", "Done", "ast", "splice_ast_literals")] + [(f"metatools.{n}", False) for n in ("fix_locations", "MacroExpander", "step_expansion", "runtime_expand", "runtime_expand1")] + [("dump", True)]
ATTR_CODE = [type("AttrCode_" + d.replace(".", "_") + ("_imported" if f else ""), (AttrCode,), dict(dotted=d, force=f, label=f"mcpyrate.coreutils:_mcpyrate_attr[{d}{', imported' if f else ''}]", __doc__=AttrCode.__doc__)) for d, fs in ATTRS for f in sorted({False, fs})]

class CaptureValue(Contract):
    """Code for `lookup_value((name, frozen))` with the bytes this very capture made; nothing else changes."""
    target = M + "capture_value"; must_reach = ("return", "raise")
    def pre(self, c): self.v, self.n = c.var("value"), c.var("name"); c.assume(self.v != ABSENT, self.n != ABSENT); return [self.v, self.n], {}
    def hooks(self): return {"ext": dict(PICKLE, **DC)}
    def post(self, p):
        if p.raised: return [passed_on(p)]
        f = p.s.ghost.get("frozen")
        return [("froze", False)] if f is None else lookup_call(p, p.resultV, "quotes.lookup_value", True, [self.n, f]) + [("of-the-value", FROZEN(f, self.v))]

class LookupValue(Contract):
    """With a cache whose entries each hold a value thawed from the bytes with the key's id: the result is the cached value of these very bytes, else a value thawed from them now, which is then remembered with the bytes; no other entry changes and the cache stays so."""
    target = M + "lookup_value"; must_reach = ("return", "raise")
    def pre(self, c):
        self.n = c.var("name"); self.f = c.obj("frozen", object) if False else c.var("frozen"); c.assume(self.n != ABSENT, V.is_obj(self.f), V.ov(self.f) >= 0, V.ov(self.f) < c.s.alloc); self.cache = c.dict("cache"); c.assume(self.f != self.cache)
        self.any = c.var("any_key"); self.kk = V.tup(seq(self.n, V.int(obj_id(self.f)))); self.D0 = z3.Select(c.s.D, V.ov(self.cache)); self.inv_all(c.s, self.D0); self.alive(c.s, self.D0); return [V.tup(seq(self.n, self.f))], {}
    def entry(self, D, k):
        x = z3.Select(D, k); v, f = V.tv(x)[0], V.tv(x)[1]
        return z3.Implies(x != ABSENT, z3.And(V.is_tup(x), z3.Length(V.tv(x)) == 2, v != ABSENT, V.is_obj(f), k == V.tup(seq(V.tv(k)[0], V.int(obj_id(f)))), THAWED(v, f)))
    def inv_all(self, s, D): s.assume(self.entry(D, self.any), self.entry(D, self.kk))       # for the key asked for and an arbitrary other one
    def alive(self, s, D):
        """The bytes in the cache and those asked for are alive at the same time: the same id means the same object."""
        x = z3.Select(D, self.kk); s.assume(self.entry(D, self.kk), z3.Implies(x != ABSENT, V.tv(x)[1] == self.f))
    @property
    def mine(self): return ()
    def after_user(self, s, pre):
        """What is loaded may itself look captured values up, by this contract: it only adds entries."""
        D, N = z3.Select(pre.D, V.ov(self.cache)), z3.Select(s.D, V.ov(self.cache)); self.inv_all(s, N); self.alive(s, N)
        for k in (self.any, self.kk): s.assume(z3.Implies(z3.Select(D, k) != ABSENT, z3.Select(N, k) == z3.Select(D, k)))
    def hooks(self): return {"ext": PICKLE, "globals": {("mcpyrate.quotes", "_lookup_cache"): lambda e, s: self.cache}}
    def post(self, p):
        D, N = self.D0, z3.Select(p.s.D, V.ov(self.cache)); k = self.any; had = z3.Select(D, self.kk) != ABSENT; n = p.s.ghost.get("loads", z3.IntVal(0))
        kept = [("entries-kept", z3.Implies(z3.Select(D, k) != ABSENT, z3.Select(N, k) == z3.Select(D, k))), ("cache-sound", self.entry(N, k))]
        if p.raised: return kept + [("only-when-not-cached", z3.Not(had)), passed_on(p)]
        r = p.resultV
        return kept + [("from-these-bytes", THAWED(r, self.f)), ("remembered", z3.Select(N, self.kk) == V.tup(seq(r, self.f))), ("same-object-again", z3.Implies(had, z3.And(r == V.tv(z3.Select(D, self.kk))[0], n == 0))), ("thawed-once", n <= 1)]
class LookupValueEarly(Contract):
    """A key whose value is not captured yet is refused."""
    target = M + "lookup_value"; label = M + "lookup_value[not captured yet]"; must_reach = ("raise",)
    def pre(self, c): self.n = c.var("name"); c.assume(self.n != ABSENT); self.cache = c.dict("cache"); return [V.tup(seq(self.n, NONE))], {}
    hooks = LookupValue.hooks
    def post(self, p): return [("refused", p.exc_is(ValueError) if p.raised else False)] + p.unchanged("H", "L", "D")

scrubbed = z3.Function("scrubbed", V, V); unique = z3.Function("unique_name", V, z3.IntSort(), V)
def scrub(e, s, a, k): r = scrubbed(e.toV(s, a[0])); s.assume(V.is_str(r)); return [(s, r)]
def gensym(e, s, a, k): s.ghost["gensyms"] = s.ghost.get("gensyms", z3.IntVal(0)) + 1; r = unique(e.toV(s, a[0]), s.ghost["gensyms"]); s.assume(V.is_str(r)); return [(s, r)]
NAMES = {"mcpyrate.utils:scrub_uuid": (scrub, "contract of scrub_uuid (C12)"), "mcpyrate.utils:gensym": (gensym, "contract of gensym (C12): a new unique name")}
class CaptureMacro(Contract):
    """Code for `lookup_macro((name, new unique name, frozen))`; something that is not callable is refused."""
    target = M + "capture_macro"; must_reach = ("return", "raise")
    def pre(self, c): self.m, self.n = c.var("macro"), c.str("name"); c.assume(self.m != ABSENT); return [self.m, self.n], {}
    def hooks(self): return {"ext": dict(PICKLE, **DC, **NAMES)}
    def post(self, p):
        ok = p.eng.b_callable(p.s, [self.m], {})[0][1]; ok = V.bv(ok) if is_v(ok) else z3.BoolVal(ok.o); f = p.s.ghost.get("frozen")
        if p.raised: return [("not-callable", z3.Implies(z3.Not(ok), p.exc_is(TypeError))), ("else-cannot-be-frozen", z3.Implies(ok, passed_on(p)[1]))]
        return [("callable", ok)] + ([("froze", False)] if f is None else lookup_call(p, p.resultV, "quotes.lookup_macro", False, [scrubbed(self.n), unique(scrubbed(self.n), z3.IntVal(1)), f]) + [("of-the-macro", FROZEN(f, self.m))])
class CaptureAsMacro(Contract):
    """Looks up, right away, the macro frozen just now, under a new unique name made from the macro's own."""
    target = M + "capture_as_macro"; must_reach = ("return", "raise")
    def pre(self, c): self.m = c.var("macro"); self.mn = c.str("macro_name"); c.assume(self.m != ABSENT); return [self.m], {}
    def hooks(self):
        def attr(e, s, v, name):
            if name == "__name__" and e.entails(s, v == self.m): return [(s, self.mn)]
        def lm(e, s, a, k):
            f = s.ghost.get("frozen", NONE); x = e.toV(s, a[0]); e.oblige(s, "key", x == V.tup(seq(self.mn, unique(self.mn, z3.IntVal(1)), f))); e.oblige(s, "of-the-macro", FROZEN(f, self.m)); r = fresh("name_node"); s.assume(r != ABSENT); s.ghost["node"] = r; return [(s, r)]
        return {"attr": attr, "ext": dict(PICKLE, **NAMES, **{M + "lookup_macro": (lm, "contract of lookup_macro")})}
    def post(self, p):
        ok = V.bv(p.eng.b_callable(p.s, [self.m], {})[0][1])
        if p.raised: return [("not-callable", z3.Implies(z3.Not(ok), p.exc_is(TypeError))), ("else-cannot-be-frozen", z3.Implies(ok, passed_on(p)[1]))]
        return [("callable", ok), ("result", p.resultV == p.s.ghost.get("node", ABSENT))]
class LookupMacro(Contract):
    """A name node for the unique name, which is bound, among the global bindings, to the macro it was bound to before, else to the macro thawed from the bytes; no other binding changes."""
    target = M + "lookup_macro"; must_reach = ("return", "raise")
    def pre(self, c):
        self.n, self.u, self.f = c.str("name"), c.str("unique_name"), c.var("frozen"); c.assume(V.is_obj(self.f)); self.g = c.dict("global_bindings"); self.D0 = z3.Select(c.s.D, V.ov(self.g)); return [V.tup(seq(self.n, self.u, self.f))], {}
    @property
    def mine(self): return (self.g,)
    def hooks(self): return {"ext": PICKLE, "globals": {("mcpyrate.quotes", "global_bindings"): lambda e, s: self.g}}
    def post(self, p):
        D, N = self.D0, z3.Select(p.s.D, V.ov(self.g)); k = fresh("any_name"); had = z3.Select(D, self.u) != ABSENT; out = [("others-kept", z3.Implies(k != self.u, z3.Select(N, k) == z3.Select(D, k)))]
        if p.raised: return out + [("nothing-bound", z3.Select(N, self.u) == z3.Select(D, self.u)), ("only-when-unbound", z3.Not(had)), passed_on(p)]
        return out + [("name-node", z3.And(built(p, p.resultV, ast.Name), sel(p.s, p.resultV, "id") == self.u)), ("bound", z3.If(had, z3.Select(N, self.u) == z3.Select(D, self.u), THAWED(z3.Select(N, self.u), self.f)))]

# ---------------------------------------------------------------- detection
is_ref = z3.Function("is_quotes_reference", V, z3.BoolSort())
def ref_hook(e, s, a, k):
    x = e.toV(s, a[0]); r = fresh("reference_kind"); s.assume(z3.If(is_ref(x), z3.And(V.is_str(r), z3.Length(V.sv(r)) > 0), r == FALSE)); return [(s, r)]
class Detect(Contract):
    """A call of one of the lookup functions, by reference to mcpyrate.quotes, is recognised, with the parts of its key; anything else is not."""
    target = M + "is_captured_value"; names = ("lookup_value",); shape = "lookup"; must_reach = ("return", "raise")
    def pre(self, c):
        t = self.t = c.obj("tree", ast.Call, exact=True); self.f = c.obj("func", ast.AST); c.setattr(t, "func", self.f); self.args = c.list("args", "AST"); c.setattr(t, "args", self.args); self.A = c.lst(self.args)
        self.k = {"attr": c.str("attr"), "value": c.obj("value", ast.AST)}
        self.fattr = c.attr(self.f, "attr"); self.fval = c.attr(self.f, "value"); isat = cls_of(V.ov(self.f)) == cid(ast.Attribute); c.assume(z3.Implies(isat, z3.And(V.is_str(self.fattr), V.is_obj(self.fval))))
        self.matched = z3.And(isat, z3.Or([self.fattr == S(n) for n in self.all]), is_ref(self.fval)); self.kind = z3.And(self.matched, self.fattr == S(self.names[0])); self.c = c
        self.kk = self.A[0]; e = c.attr(self.kk, "elts"); self.E = z3.Select(c.s.L, V.ov(e))
        c.assume(z3.Implies(self.kind, self.wellformed(c, e))) if self.wf else None
        return [t], {}
    all = ("capture_value", "lookup_value"); wf = True; parts = (str, bytes)
    def wellformed(self, c, e):
        const = lambda x, K: z3.And(V.is_obj(x), V.ov(x) < c.s.alloc, cls_of(V.ov(x)) == cid(ast.Constant), type_formula(z3.Select(c.s.H, V.ov(x), sv("value")), K))
        return z3.And(z3.Length(self.A) == 1, cls_of(V.ov(self.kk)) == cid(ast.Tuple), type_formula(self.kk, ast.AST), type_formula(e, list), V.ov(e) < c.s.alloc, z3.Length(self.E) == len(self.parts), *[const(self.E[i], K) for i, K in enumerate(self.parts)])
    def hooks(self): return {"ext": {M + "_is_mcpyrate_quotes_reference": (ref_hook, "contract of _is_mcpyrate_quotes_reference")}}
    def val(self, p, x): return z3.Select(p.s0.H, V.ov(x), sv("value"))
    must_reach = ("return",)
    def post(self, p):
        if p.raised: return [("only-other-kinds", z3.And(self.matched, z3.Not(self.kind)))]
        return [("not-a-capture", z3.Implies(z3.Not(self.matched), p.resultV == FALSE)), ("key", z3.Implies(self.kind, p.resultV == V.tup(seq(*[self.val(p, self.E[i]) for i in range(len(self.parts))])))) ] + p.unchanged("H", "L", "D")
class DetectEarly(Detect):
    """A call of capture_value is recognised as a value not captured yet."""
    label = M + "is_captured_value[not captured yet]"; names = ("capture_value",)
    def wellformed(self, c, e):
        x = self.A[1]; return z3.And(z3.Length(self.A) == 2, type_formula(x, ast.AST), cls_of(V.ov(x)) == cid(ast.Constant), V.is_str(z3.Select(c.s.H, V.ov(x), sv("value"))))
    def post(self, p):
        if p.raised: return [("only-other-kinds", z3.And(self.matched, z3.Not(self.kind)))]
        return [("not-a-capture", z3.Implies(z3.Not(self.matched), p.resultV == FALSE)), ("key", z3.Implies(self.kind, p.resultV == V.tup(seq(self.val(p, self.A[1]), NONE))))] + p.unchanged("H", "L", "D")
class DetectMacro(Detect): target = M + "is_captured_macro"; names = all = ("lookup_macro",); parts = (str, str, bytes)
class DetectOther(Contract):
    """Something that is not a call node is not a capture."""
    target = M + "is_captured_value"; label = M + "is_captured_value[not a call]"; must_reach = ("return",)
    def pre(self, c): self.t = c.var("tree"); c.assume(self.t != ABSENT, z3.Or(z3.Not(V.is_obj(self.t)), cls_of(V.ov(self.t)) != cid(ast.Call))); return [self.t], {}
    def post(self, p): return [("no", z3.BoolVal(p.returned) if p.raised else p.resultV == FALSE)]
class DetectOtherMacro(DetectOther): target = M + "is_captured_macro"; label = M + "is_captured_macro[not a call]"
class Reference(Contract):
    """True exactly of `mcpyrate.quotes` and of `__import__("mcpyrate.quotes", ...).quotes`."""
    target = M + "_is_mcpyrate_quotes_reference"; must_reach = ("return",)
    def pre(self, c):
        t = self.t = c.obj("tree", ast.AST); A = lambda o, n: c.attr(o, n); cl = lambda o: cls_of(V.ov(o)); old = lambda v, K=ast.AST: z3.And(type_formula(v, K), V.ov(v) < c.s.alloc, V.ov(v) >= 0)
        m = A(t, "value"); f = A(m, "func"); a = A(m, "args"); sq = z3.Select(c.s.L, V.ov(a)); a0 = sq[0]
        isat = cl(t) == cid(ast.Attribute); c.assume(z3.Implies(isat, z3.And(old(m), V.is_str(A(t, "attr"))))); iscall = z3.And(isat, cl(m) == cid(ast.Call)); c.assume(z3.Implies(iscall, z3.And(old(f), old(a, list), z3.Implies(z3.Length(sq) > 0, old(a0)))))
        c.assume(z3.Implies(z3.And(isat, cl(m) == cid(ast.Name)), V.is_str(A(m, "id"))), z3.Implies(z3.And(iscall, cl(f) == cid(ast.Name)), V.is_str(A(f, "id"))), z3.Implies(z3.And(iscall, z3.Length(sq) > 0, cl(a0) == cid(ast.Constant)), A(a0, "value") != ABSENT))
        top = z3.And(isat, A(t, "attr") == S("quotes")); self.direct = z3.And(top, cl(m) == cid(ast.Name), A(m, "id") == S("mcpyrate")); imp = z3.And(top, iscall, cl(f) == cid(ast.Name), A(f, "id") == S("__import__"))
        c.assume(z3.Implies(imp, z3.Length(sq) > 0)); self.imported = z3.And(imp, cl(a0) == cid(ast.Constant), A(a0, "value") == S("mcpyrate.quotes")); return [t], {}
    def post(self, p):
        if p.raised: return [("noraise", False)]
        return [("direct", z3.Implies(self.direct, p.resultV == S("direct"))), ("import", z3.Implies(self.imported, p.resultV == S("import"))), ("neither", z3.Implies(z3.Not(z3.Or(self.direct, self.imported)), p.resultV == FALSE))] + p.unchanged("H", "L", "D")
CONTRACTS = ATTR_CODE + [CaptureValue, LookupValue, LookupValueEarly, CaptureMacro, CaptureAsMacro, LookupMacro, Detect, DetectEarly, DetectMacro, DetectOther, DetectOtherMacro, Reference]
