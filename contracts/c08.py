from contracts.base import *
from pyvc.engine import attrs_of
from mcpyrate import astfixers as AF

children_of = z3.Function("child_nodes", V, SeqV)
def child_iter(eng, s, args, kw):
    sq = children_of(eng.toV(s, args[0])); si = SeqIter(z3.Length(sq), lambda s2, i: sq[i]); si.seq = sq; return [(s, si)]
CHILDREN = {"ast.iter_child_nodes": (child_iter, "iter_child_nodes(x) yields the direct child nodes of x, in field order")}
LOC = ("lineno", "col_offset", "end_lineno", "end_col_offset")
def has_attr(t, name): return z3.Contains(attrs_of(cls_of(V.ov(t))), unit(S(name)))
def optional_end(s, t, n):
    """end_lineno and end_col_offset are optional attributes (None by default) except on patterns and type parameters."""
    return z3.Or(sel(s, t, n) != ABSENT, type_formula(t, ast.pattern), type_formula(t, ast.type_param), z3.Not(has_attr(t, n)))

class FixLocations(Contract):
    """By induction over the tree: the step for one node (any class, any current reference), the children handed on in order."""
    target = "mcpyrate.astfixers:fix_locations"; mode = "reference"; what = "node"
    def pre(self, c):
        self.t, self.ref = c.var("tree"), c.obj("reference_node", ast.AST)
        for n in LOC: c.assume(self.is_loc(c.attr(self.ref, n)))
        for n in LOC[2:]: c.assume(optional_end(c.s, self.ref, n))
        c.assume(z3.Or(self.t == NONE, type_formula(self.t, list), type_formula(self.t, ast.AST)))
        self.inside = self.checked = False; self.EV = Fold("visits", SeqV, EMPTY, lambda a, x, *l: z3.Concat(a, unit(V.tup(seq(x, *l)))), extra=(V,) * 4)
        return [self.t, self.ref], {"mode": PyObj(self.mode)}
    def is_loc(self, v): return z3.Or(v == ABSENT, v == NONE, V.is_int(v))
    def hooks(self):
        def fix(eng, s, args, kw):
            if not self.inside and not eng.suppress and not self.checked:
                self.checked = True; self.step(eng, s, eng.reg.cur_fn)
            b = bound(eng, args, kw); names = [a.arg for a in eng.reg.cur_fn.node.args.args]
            if len(names) != 5: raise SpecMismatch("recursive helper has another shape")
            log(s, *[eng.toV(s, b[n]) for n in names]); return [(s, PyObj(None))]
        return {"ext": dict(CHILDREN, **{"mcpyrate.astfixers:fix_locations.<locals>._fix": (fix, "structural recursion: the step is checked once on an arbitrary node; a call on a child affects only that child's subtree")})}
    def step(self, eng, s, fn):
        s = s.clone(); s.ghost["trace"] = EMPTY; c = Ctx(eng, s); s.frames = {k: dict(v) for k, v in s.frames.items()}
        t = {"node": lambda: c.obj("node", ast.AST), "list": lambda: c.list("nodes", "any"), "none": lambda: NONE}[self.what]()
        self.node = t; self.arg = [c.var(n) for n in ("l", "c", "el", "ec")]
        for v in self.arg: c.assume(z3.Or(v == NONE, V.is_int(v)))
        if self.what == "node":
            for n in LOC: c.assume(self.is_loc(c.attr(t, n)))
            for n in LOC[2:]: c.assume(optional_end(c.s, t, n))
        self.kids = children_of(t) if self.what == "node" else c.lst(t) if self.what == "list" else EMPTY
        s0 = s.clone(); n = 0
        self.handed = self.args_down(s0) if self.what == "node" else self.arg
        self.inside = True
        try:
            for s1, r in eng.inline(s, fn, [t] + self.arg, {}):
                n += 1
                if isinstance(r, Exc): eng.oblige(s1, "step.noraise", z3.BoolVal(False)); continue
                eng.oblige(s1, "step.children", s1.ghost["trace"] == self.EV(self.kids, *self.handed) if self.what != "none" else s1.ghost["trace"] == EMPTY)
                if self.what == "node":
                    for nm, f in self.own(s0, s1): eng.oblige(s1, "step." + nm, f)
                    eng.oblige(s1, "step.frame", frame_h(s0, s1, [(t, a) for a in LOC]))
                else: eng.oblige(s1, "step.frame", frame_h(s0, s1))
                eng.oblige(s1, "step.lists", frame_c(None, s0, s1) if False else z3.BoolVal(s0.L.get_id() == s1.L.get_id()))
        finally: self.inside = False
        if not n: raise SpecMismatch("no path through the step")
    def groups(self): return (("lineno", "end_lineno", 0, 2), ("col_offset", "end_col_offset", 1, 3))
    def args_down(self, s0):
        """Reference location for the children."""
        if self.mode != "update": return self.arg
        out = list(self.arg); t = self.node
        for a, e, i, k in self.groups():
            own = z3.And(has_attr(t, a), sel(s0, t, a) != ABSENT)
            out[i] = z3.If(own, sel(s0, t, a), self.arg[i]); out[k] = z3.If(own, z3.If(sel(s0, t, e) == ABSENT, NONE, sel(s0, t, e)), self.arg[k])
        return out
    def own(self, s0, s1):
        t = self.node; out = []
        for a, e, i, k in self.groups():
            fill = has_attr(t, a) if self.mode == "overwrite" else z3.And(has_attr(t, a), sel(s0, t, a) == ABSENT)
            out += [(a, sel(s1, t, a) == z3.If(fill, self.arg[i], sel(s0, t, a))), (e, sel(s1, t, e) == z3.If(z3.And(fill, has_attr(t, e)), self.arg[k], sel(s0, t, e)))]
        return out
    @property
    def loops(self):
        sp = LoopSpec(lambda c: [("visits", c.s.ghost["trace"] == self.EV(c.done, *self.handed))], lambda c: self.EV.axioms(self.kids, c.i, *self.handed))
        return (sp, sp)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        L = [sel(p.s0, self.ref, n) for n in LOC]; know = z3.And(L[0] != ABSENT, L[1] != ABSENT); dflt = lambda v: z3.If(v == ABSENT, NONE, v)
        one = seq(V.tup(seq(self.t, L[0], L[1], dflt(L[2]), dflt(L[3]))))
        return [("same-tree", p.resultV == self.t), ("from-the-reference", p.trace() == z3.If(know, one, EMPTY))] + p.unchanged("H", "L")
def variant(mode_, what_): return type(f"FixLocations_{mode_}_{what_}", (FixLocations,), dict(mode=mode_, what=what_, label=f"mcpyrate.astfixers:fix_locations[{mode_}, {what_}]"))
FIXLOC = [variant(m, w) for m in ("reference", "update", "overwrite") for w in ("node", "list", "none")]
for C in FIXLOC: globals()[C.__name__] = C


# ---------------------------------------------------------------- contexts
def shallow_copy(names):
    """copy.copy(x): a new object of the same class with equal attributes (stated for the attribute names in play)."""
    def hook(eng, s, args, kw):
        x = eng.toV(s, args[0]); o = fresh("shallow"); s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc, cls_of(V.ov(o)) == cls_of(V.ov(x))); na = fresh("alloc", Int); s.assume(na > V.ov(o)); s.alloc, s.nalloc = na, 0
        for n in names(): s.assume(z3.Select(s.H, V.ov(o), n) == z3.Select(s.H, V.ov(x), n))
        s.assume(isa(cls_of(V.ov(o)), cid(ast.AST))); s.meta[("cls", z3.simplify(o).get_id())] = ast.AST; s.meta[("keep", z3.simplify(o).get_id())] = o
        log(s, S("copy"), x, o); return [(s, o)]
    return hook
class Fixer(Contract):
    """The ctx fixer at one node, in the context class the walker's state holds there."""
    copying = True
    def fixer(self, c):
        w = self.w = c.obj("self", AF._CtxFixer, exact=True); self.st = c.obj("state", object); self.seen = c.set("seen"); self.cc = c.var("ctxclass")
        c.setattr(w, "_seen", self.seen); c.setattr(w, "copy_seen_nodes", B(self.copying)); c.setattr(w, "state", self.st); c.setattr(self.st, "ctxclass", self.cc)
        c.assume(z3.Or([self.cc == c.eng.toV(c.s, PyObj(K)) for K in (ast.Load, ast.Store, ast.Del)]))
        self.any = fresh("any_attr", Str); c.assume(self.any != z3.StringVal("ctx")); return w
    def hooks(self):
        def attr(eng, s, v, name):
            if name == "state" and eng.entails(s, v == self.w): return [(s, self.st)]
            if name == "ctxclass" and eng.entails(s, v == self.st): return [(s, self.cc)]
        def make(eng, s, f, args, kw):
            if not eng.entails(s, eng.toV(s, f) == self.cc) or args or kw: return None
            o = fresh("context"); s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc, cls_of(V.ov(o)) == V.ov(self.cc)); na = fresh("alloc", Int); s.assume(na > V.ov(o)); s.alloc, s.nalloc = na, 0; return [(s, o)]
        def withstate(eng, s, args, kw):
            b = dict(kw); cl = b.pop("ctxclass", PyObj(None)); log(s, S("withstate"), eng.toV(s, args[0]), eng.toV(s, cl))
            if b or len(args) != 1: eng.oblige(s, "withstate.only-ctxclass", z3.BoolVal(False))
            return [(s, PyObj(None))]
        return {"attr": attr, "unknown_call": make, "ext_method": generic_visit_hook, "ext": {"copy.copy": (shallow_copy(lambda: [z3.StringVal("ctx"), self.any]), "copy(x) is a new object with the same class and attributes"),
                "mcpyrate.walkers:BaseASTWalker.withstate": (withstate, "contract of withstate (C10)")}}
def has_ctx(o): return z3.Contains(fields_of(cls_of(V.ov(o))), unit(S("ctx")))
class FixOne(Fixer):
    target = "mcpyrate.astfixers:_CtxFixer._fix_one"; label = "mcpyrate.astfixers:_CtxFixer._fix_one[copying]"
    def pre(self, c): self.fixer(c); self.t = c.obj("tree", ast.AST); c.assume(self.t != self.w, self.t != self.st); return [self.w, self.t], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        r, was = p.resultV, z3.Select(z3.Select(p.s0.SS, V.ov(self.seen)), V.int(obj_id(self.t))); cp = z3.And(B_(self.copying), was)
        x = fresh("x"); new = z3.Select(p.s.SS, V.ov(self.seen)); old = z3.Select(p.s0.SS, V.ov(self.seen))
        return [("node-or-copy", z3.Implies(has_ctx(self.t), z3.If(cp, z3.And(V.is_obj(r), V.ov(r) >= p.s0.alloc, cls_of(V.ov(r)) == cls_of(V.ov(self.t)), z3.Select(p.s.H, V.ov(r), self.any) == z3.Select(p.s0.H, V.ov(self.t), self.any)), r == self.t))),
                ("context", z3.Implies(has_ctx(self.t), cls_of(V.ov(sel(p.s, r, "ctx"))) == V.ov(self.cc))), ("context-is-an-object", z3.Implies(has_ctx(self.t), V.is_obj(sel(p.s, r, "ctx")))), ("now-seen", z3.Select(new, x) == z3.Or(z3.Select(old, x), z3.And(has_ctx(self.t), x == V.int(obj_id(r))))),
                ("others", z3.Implies(z3.Not(has_ctx(self.t)), r == self.t)), ("original-intact", z3.Implies(z3.Or(z3.Not(has_ctx(self.t)), cp), frame_h(p.s0, p.s))), ("frame", frame_h(p.s0, p.s, [(self.t, "ctx")]))] + p.unchanged("L", "D")
def B_(b): return z3.BoolVal(b)
class FixOnePlain(FixOne): label = "mcpyrate.astfixers:_CtxFixer._fix_one[not copying]"; copying = False

# The language reference: which subtree positions have which context (every other child has the context of its parent).
POSITIONS = {
    ast.Assign: dict(targets=ast.Store, value=ast.Load), ast.AnnAssign: dict(target=ast.Store, annotation=ast.Load, value=ast.Load), ast.AugAssign: dict(target=ast.Store, value=ast.Load),
    ast.NamedExpr: dict(target=ast.Store, value=ast.Load), ast.For: dict(target=ast.Store, iter=ast.Load), ast.AsyncFor: dict(target=ast.Store, iter=ast.Load),
    ast.comprehension: dict(target=ast.Store, iter=ast.Load, ifs=ast.Load), ast.withitem: dict(context_expr=ast.Load, optional_vars=ast.Store), ast.Delete: dict(targets=ast.Del),
    ast.Attribute: dict(value=ast.Load), ast.Subscript: dict(value=ast.Load, slice=ast.Load)}
if hasattr(ast, "TypeAlias"): POSITIONS[ast.TypeAlias] = dict(name=ast.Store)
NESTED = (ast.Attribute, ast.Subscript)      # may occur below a target: Load must be restored explicitly
class Contexts(Fixer):
    """Each subtree position gets the context the language reference says, before the children are visited."""
    target = "mcpyrate.astfixers:_CtxFixer.transform"; node = None
    def pre(self, c):
        self.fixer(c)
        if self.node: self.t = c.obj("tree", self.node, exact=True)
        else:
            self.t = c.obj("tree", ast.AST)
            for K in POSITIONS: c.assume(cls_of(V.ov(self.t)) != cid(K))
        c.assume(self.t != self.w, self.t != self.st); return [self.w, self.t], {}
    def hooks(self):
        h = super().hooks()
        def one(eng, s, args, kw):
            x = eng.toV(s, args[0]); o = fresh("fixed"); s.assume(V.is_obj(o), cls_of(V.ov(o)) == cls_of(V.ov(x)), isa(cls_of(V.ov(o)), cid(self.node or ast.AST)))
            k = z3.simplify(o).get_id(); s.meta[("cls", k)] = self.node or ast.AST; s.meta[("keep", k)] = o
            if "fixed" in s.ghost: eng.oblige(s, "fixed-once", z3.BoolVal(False))
            s.ghost["fixed"] = o; eng.oblige(s, "fix-this-node", z3.And(x == self.t, s.ghost["trace"] == EMPTY)); return [(s, o)]
        h["ext"]["mcpyrate.astfixers:_CtxFixer._fix_one"] = (one, "contract of _fix_one (this property)"); return h
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        if "fixed" not in p.s.ghost: return [("own-context-set", False)]
        o, tr = p.s.ghost["fixed"], p.trace(); n = z3.Length(tr); gv = V.tup(seq(S("generic_visit"), o)); ws = z3.Extract(tr, 0, n - 1)
        out = [("children-last", z3.And(n >= 1, tr[n - 1] == gv)), ("result", p.resultV == o)]
        ev = lambda f, K: V.tup(seq(S("withstate"), sel(p.s, o, f), p.eng.toV(p.s, PyObj(K))))
        exp = POSITIONS.get(self.node, {}) if self.node else {}
        must = {f: K for f, K in exp.items() if not (K is ast.Load and self.node not in NESTED)}
        for f, K in must.items(): out.append((f"{f}-{K.__name__}", z3.Contains(ws, unit(ev(f, K)))))
        e = fresh("event"); out.append(("nothing-else", z3.Implies(z3.Contains(ws, unit(e)), z3.Or([e == ev(f, K) for f, K in exp.items()] + [z3.BoolVal(False)]))))
        return out + p.unchanged("H", "L", "D")
CTX = [type("Contexts_" + K.__name__, (Contexts,), dict(node=K, label=f"mcpyrate.astfixers:_CtxFixer.transform[{K.__name__}]")) for K in POSITIONS] + [type("Contexts_other", (Contexts,), dict(label="mcpyrate.astfixers:_CtxFixer.transform[any other class]"))]
for C in CTX: globals()[C.__name__] = C

class FixCtx(Contract):
    """With copying, shared nodes are unshared first; then one fresh fixer, in the given mode, visits the tree, and its result is the result."""
    target = "mcpyrate.astfixers:fix_ctx"; copying = True
    def pre(self, c): self.t = c.obj("tree", ast.AST); return [self.t], {"copy_seen_nodes": PyObj(self.copying)}
    def hooks(self):
        def unshare(e, s, a, k): e.oblige(s, "unshare.this-tree", e.toV(s, a[0]) == self.t); log(s, S("unshare")); return [(s, PyObj(None))]
        def mk(e, s, a, k):
            m = dict(k).pop("copy_seen_nodes", None); ok = m is not None and len(k) == 1 and not a and e.entails(s, e.truth(s, m) == z3.BoolVal(self.copying)); e.oblige(s, "fixer.mode", z3.BoolVal(bool(ok)))
            o = fresh("fixer"); s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc, cls_of(V.ov(o)) == cid(AF._CtxFixer)); na = fresh("alloc", Int); s.assume(na > V.ov(o)); s.alloc, s.nalloc = na, 0; s.meta[("cls", z3.simplify(o).get_id())] = AF._CtxFixer; s.meta[("keep", z3.simplify(o).get_id())] = o; s.ghost["fixer"] = o; return [(s, o)]
        def visit(e, s, a, k):
            w = walker_of(e); r = fresh("fixed_tree"); s.assume(r != ABSENT); e.oblige(s, "visit.this-tree", z3.And(e.toV(s, a[-1]) == self.t, z3.BoolVal("fixer" in s.ghost and not k))); log(s, S("visit")); s.ghost["fixed"] = r; return [(s, r)]
        return {"ext": {"mcpyrate.astfixers:_unshare": (unshare, "contract of _unshare (bounded)"), "mcpyrate.astfixers._CtxFixer": (mk, "constructor: a fixer with nothing seen yet, in this mode"), "mcpyrate.walkers:ASTTransformer.visit": (visit, "contract of visit (C10), with transform as above")}}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        want = [V.tup(seq(S("unshare")))] * self.copying + [V.tup(seq(S("visit")))]
        return [("order", p.trace() == seq(*want)), ("result", p.resultV == p.s.ghost["fixed"] if "fixed" in p.s.ghost else False)]
class FixCtxPlain(FixCtx): label = "mcpyrate.astfixers:fix_ctx[not copying]"; copying = False

class FixerInit(Contract):
    """A new fixer: nothing seen yet, in the mode given; the walker's initial state says Load."""
    target = "mcpyrate.astfixers:_CtxFixer.__init__"
    def pre(self, c): self.w = c.obj("self", AF._CtxFixer, exact=True); self.m = c.var("mode"); c.assume(V.is_bool(self.m)); return [self.w], {"copy_seen_nodes": self.m}
    def hooks(self):
        def reset(e, s, a, k):
            d = (k.get("**") or [None])[0]; L_ = e.toV(s, PyObj(ast.Load))
            g = z3.And(z3.Select(s.DK, V.ov(d)) == unit(S("ctxclass")), z3.Select(z3.Select(s.D, V.ov(d)), S("ctxclass")) == L_) if d is not None and len(k) == 1 else (e.toV(s, k["ctxclass"]) == L_ if set(k) == {"ctxclass"} else z3.BoolVal(False)); e.oblige(s, "state.initially-Load", g); log(s, S("reset")); return [(s, PyObj(None))]
        return {"ext": {"mcpyrate.walkers:BaseASTWalker.reset": (reset, "contract of reset (C10)")}}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        s = sel(p.s, self.w, "_seen"); x = fresh("x")
        return [("reset-once", p.trace() == seq(V.tup(seq(S("reset"))))), ("mode", sel(p.s, self.w, "copy_seen_nodes") == self.m), ("nothing-seen", z3.And(V.is_obj(s), V.ov(s) >= p.s0.alloc, z3.Not(z3.Select(z3.Select(p.s.SS, V.ov(s)), x))))]

CONTRACTS = FIXLOC + [FixOne, FixOnePlain, FixCtx, FixCtxPlain, FixerInit] + CTX
