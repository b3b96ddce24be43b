from contracts.base import *
from mcpyrate.bunch import Bunch
from mcpyrate import walkers as W

children = z3.Function("ast_children", V, SeqV)       # what iter_child_nodes(tree) yields

def child_hook(eng, s, args, kw):
    return [(s, eng.alloc_list(s, children(eng.toV(s, args[0]))))]
CHILD = {"ast.iter_child_nodes": (child_hook, "iter_child_nodes(tree) yields a fixed sequence of tree's children and has no side effect")}

class Walker(Contract):
    """A walker whose state stack holds Bunches (ghost: top of stack is a well-formed Bunch)."""
    cls = W.BaseASTWalker
    def walker(self, c):
        w = self.w = c.obj("self", self.cls)
        self.stack = c.list("stack"); self.over = c.dict("overrides"); self.coll = c.list("collected")
        c.setattr(w, "_stack", self.stack); c.setattr(w, "_subtree_overrides", self.over); c.setattr(w, "collected", self.coll)
        c.assume(z3.Distinct(V.ov(w), V.ov(self.stack), V.ov(self.over), V.ov(self.coll)))
        return w
    def top(self, c):
        sq = c.lst(self.stack)
        t = c.obj("state", Bunch, exact=True)
        c.assume(z3.Length(sq) >= 1, sq[z3.Length(sq) - 1] == t, t != self.w)
        d = c.dict("state_data"); r = c.list("state_res")
        c.setattr(t, "_data", d); c.setattr(t, "_reserved_names", r)
        c.assume(z3.Distinct(V.ov(d), V.ov(self.over)), z3.Distinct(V.ov(r), V.ov(self.stack), V.ov(self.coll)))
        self.state, self.sd = t, d
        return t
    def L0(self, p, v): return z3.Select(p.s0.L, V.ov(v))
    def L1(self, p, v): return z3.Select(p.s.L, V.ov(v))
    def D0(self, p, v): return z3.Select(p.s0.D, V.ov(v))
    def D1(self, p, v): return z3.Select(p.s.D, V.ov(v))

class Reset(Walker):
    target = "mcpyrate.walkers:BaseASTWalker.reset"
    def pre(self, c):
        self.walker(c); self.kw = c.dict("kw")
        return [self.w], {"**": [self.kw]}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        st = sel(p.s, self.w, "_stack"); ov = sel(p.s, self.w, "_subtree_overrides"); co = sel(p.s, self.w, "collected")
        lst = z3.Select(p.s.L, V.ov(st))
        b = lst[0]
        return [("one-state", z3.Length(lst) == 1), ("state-is-bunch", cls_of(V.ov(b)) == cid(Bunch)),
                ("bindings", z3.Select(p.s.D, V.ov(sel(p.s, b, "_data"))) == self.D0(p, self.kw)),
                ("own-bindings", sel(p.s, b, "_data") != self.kw),
                ("no-overrides", z3.Select(p.s.D, V.ov(ov)) == z3.K(V, ABSENT)), ("nothing-collected", z3.Select(p.s.L, V.ov(co)) == EMPTY),
                ("fresh", z3.And([V.ov(x) >= p.s0.alloc for x in (st, ov, co)])),
                p.unchanged_except("H", None, [a_(self.w, x) for x in ("_stack", "_subtree_overrides", "collected")])] + p.unchanged("D", "DK", "L")

class Init(Reset): target = "mcpyrate.walkers:BaseASTWalker.__init__"

class GetState(Walker):
    target = "mcpyrate.walkers:BaseASTWalker._getstate"
    def pre(self, c): self.walker(c); self.top(c); return [self.w], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("top", p.resultV == self.state)] + p.unchanged("H", "D", "DK", "L")

class SetState(Walker):
    """Rebinding the state replaces the top of the stack only."""
    target = "mcpyrate.walkers:BaseASTWalker._setstate"
    def pre(self, c): self.walker(c); self.top(c); self.v = c.var("new"); return [self.w, self.v], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        a, b = self.L0(p, self.stack), self.L1(p, self.stack); n = z3.Length(a)
        return [("replaced", b == z3.Concat(z3.Extract(a, 0, n - 1), unit(self.v))), p.unchanged_except("L", [V.ov(self.stack)])] + p.unchanged("H", "D", "DK")

class Collect(Walker):
    target = "mcpyrate.walkers:BaseASTWalker.collect"
    def pre(self, c): self.walker(c); self.v = c.var("value"); return [self.w, self.v], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("appended", self.L1(p, self.coll) == z3.Concat(self.L0(p, self.coll), unit(self.v))), ("value", p.resultV == self.v),
                p.unchanged_except("L", [V.ov(self.coll)])] + p.unchanged("H", "D", "DK")

class Override(Walker):
    """Shared post: exactly the given nodes' overrides become one new Bunch = copy of the state + bindings."""
    def setup(self, c):
        self.walker(c); self.top(c)
        self.kw = c.dict("kw"); c.assume(z3.Distinct(V.ov(self.kw), V.ov(self.over), V.ov(self.sd)))
        self.q = fresh("q")                       # an arbitrary key of the override table
        self.k = fresh("k", Str)                  # an arbitrary state variable
        self.among = Fold("among", Bool, z3.BoolVal(False), lambda acc, x: z3.Or(acc, V.int(obj_id(x)) == self.q))
    def state_facts(self, p, ns):
        nd = sel(p.s, ns, "_data"); k = V.str(self.k)
        nv = z3.Select(self.D0(p, self.kw), k)
        return [("new-state", z3.And(V.ov(ns) >= p.s0.alloc, cls_of(V.ov(ns)) == cid(Bunch))),
                ("state-contents", z3.Select(z3.Select(p.s.D, V.ov(nd)), k) == z3.If(nv == ABSENT, z3.Select(self.D0(p, self.sd), k), nv)),
                ("own-storage", z3.And(V.ov(nd) >= p.s0.alloc, nd != self.sd))]
    def frame(self, p):
        return p.unchanged("H", "L") + [p.unchanged_except("D", [V.ov(self.over)])]
    def inv(self, c):
        d0 = c.dct(self.over, c.pre); d1 = c.dct(self.over)
        ns = c.var("newstate")
        return [("tbl", z3.Select(d1, self.q) == z3.If(self.among(c.done), ns, z3.Select(d0, self.q)))]
    def ax(self, c): return self.among.axioms(c.seq, c.i)
    @property
    def loops(self): return [LoopSpec(self.inv, self.ax)]

class WithState(Override):
    target = "mcpyrate.walkers:BaseASTWalker.withstate"; label = "mcpyrate.walkers:BaseASTWalker.withstate[node]"
    def pre(self, c):
        self.setup(c); self.t = c.obj("tree", ast.AST)
        return [self.w, self.t], {"**": [self.kw]}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        key = V.int(obj_id(self.t)); ns = z3.Select(self.D1(p, self.over), key)
        return [("only-this-node", z3.Implies(self.q != key, z3.Select(self.D1(p, self.over), self.q) == z3.Select(self.D0(p, self.over), self.q)))] + self.state_facts(p, ns) + self.frame(p)

class WithStateSuite(Override):
    target = "mcpyrate.walkers:BaseASTWalker.withstate"; label = "mcpyrate.walkers:BaseASTWalker.withstate[suite]"
    def pre(self, c):
        self.setup(c); self.t = c.list("tree", "stmt")
        c.assume(z3.Distinct(V.ov(self.t), V.ov(self.stack), V.ov(self.coll)))
        return [self.w, self.t], {"**": [self.kw]}
    def elements(self, p): return self.L0(p, self.t)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        els = self.elements(p)
        v = z3.Select(self.D1(p, self.over), self.q)
        hit = self.among(els)
        return [("outside", z3.Implies(z3.Not(hit), v == z3.Select(self.D0(p, self.over), self.q)))] + \
               [(n, z3.Implies(hit, f)) for n, f in self.state_facts(p, v)] + self.frame(p)

class GenericWithState(WithStateSuite):
    target = "mcpyrate.walkers:BaseASTWalker.generic_withstate"; label = None
    def pre(self, c):
        self.setup(c); self.t = c.obj("tree", ast.AST)
        return [self.w, self.t], {"**": [self.kw]}
    def hooks(self): return {"ext": CHILD}
    def elements(self, p): return children(self.t)


# ---------------------------------------------------------------- visiting
flat = Fold("flat", SeqV, EMPTY, lambda acc, x, L: z3.If(type_formula(x, list), z3.Concat(acc, flat.f(z3.Select(L, V.ov(x)), L)),
                                                     z3.If(x == NONE, acc, z3.Concat(acc, unit(x)))), extra=(ListSort,))
def flatten_hook(eng, s, args, kw):
    """Callee contract of utils.flatten (proved as `Flatten` below)."""
    out = []
    for s2, l in eng.list_from(s, args[0]):
        if isinstance(l, Exc): out.append((s2, l)); continue
        s2.meta["flatL"] = s2.L
        out.append((s2, eng.alloc_list(s2, flat(eng.seq_of(s2, l), s2.L))))
    return out
FLATTEN = {"mcpyrate.utils:flatten": (flatten_hook, "callee contract, proved as mcpyrate.utils:flatten")}

class Flatten(Contract):
    """The elements in order, lists spliced recursively, None dropped; a new list; nothing modified."""
    target = "mcpyrate.utils:flatten"
    def pre(self, c):
        self.l = c.list("lst", "any"); self.Lz = c.s.L;  self.a0 = c.s.alloc
        return [self.l], {}
    def hooks(self):
        def rec(eng, s, args, kw):
            v = eng.toV(s, args[0])
            return [(s, eng.alloc_list(s, flat(z3.Select(self.Lz, V.ov(v)), self.Lz)))]
        return {"ext": {"mcpyrate.utils:flatten": (rec, "recursive call: this contract (induction on nesting depth)")}}
    @property
    def loops(self):
        def inv(c): return [("prefix", c.lst(c.var("out")) == flat(c.done, self.Lz))]
        return [LoopSpec(inv, lambda c: flat.axioms(c.seq, c.i, self.Lz) + flat.axioms(c.done, c.i, self.Lz))]
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("flattened", z3.Select(p.s.L, V.ov(p.resultV)) == flat(z3.Select(self.Lz, V.ov(self.l)), self.Lz)), ("new-list", V.ov(p.resultV) >= p.s0.alloc)] + p.unchanged("H", "D", "DK", "L")

class FlattenOne(Flatten):
    """recursive=False: one level only."""
    label = "mcpyrate.utils:flatten[recursive=False]"
    one = Fold("flat1", SeqV, EMPTY, lambda acc, x, L: z3.If(type_formula(x, list), z3.Concat(acc, z3.Select(L, V.ov(x))), z3.If(x == NONE, acc, z3.Concat(acc, unit(x)))), extra=(ListSort,))
    def pre(self, c): a, k = super().pre(c); return a, {"recursive": PyObj(False)}
    @property
    def loops(self):
        def inv(c): return [("prefix", c.lst(c.var("out")) == self.one(c.done, self.Lz))]
        return [LoopSpec(inv, lambda c: self.one.axioms(c.seq, c.i, self.Lz) + [old_elem(c.seq, c.i, self.a0)])]
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("flattened", z3.Select(p.s.L, V.ov(p.resultV)) == self.one(z3.Select(self.Lz, V.ov(self.l)), self.Lz)), ("new-list", V.ov(p.resultV) >= p.s0.alloc)] + p.unchanged("H", "D", "DK", "L")

class Visit(Walker):
    """One visit step.  User code (examine/transform) is arbitrary, except that it keeps the walker's stack discipline:
    it leaves the depth and the entries below the top as they were (which `visit` itself guarantees, so this is the induction hypothesis)."""
    must_reach = ("return", "raise"); suite = False; user = "examine"
    def pre(self, c):
        self.walker(c)
        sq = c.lst(self.stack); c.assume(z3.Length(sq) >= 1)
        self.S0 = sq
        self.t = c.list("tree", "stmt") if self.suite else c.obj("tree", ast.AST)
        if self.suite: c.assume(z3.Distinct(V.ov(self.t), V.ov(self.stack), V.ov(self.coll)))
        c.assume(V.ov(self.t) != V.ov(self.w))
        self.T0 = c.lst(self.t); self.ov0 = z3.Select(c.dct(self.over), V.int(obj_id(self.t)))
        self.hasov = z3.And(self.ov0 != ABSENT, self.ov0 != NONE)
        c.s.ghost["visited"] = EMPTY; c.s.ghost["results"] = EMPTY
        return [self.w, self.t], {}
    def step(self, eng, s, args, kw):
        """Effect of user code / of a recursive visit."""
        t = eng.toV(s, args[0])
        old = z3.simplify(z3.Select(s.L, V.ov(self.stack))); n = z3.Length(old)
        popped = z3.Select(z3.Select(s.D, V.ov(self.over)), V.int(obj_id(self.t))) == ABSENT
        top = old[n - 1]
        havoc_user(s, [self.t] if self.suite else [])
        new = z3.Select(s.L, V.ov(self.stack))
        s.assume(z3.Length(new) == n, z3.Extract(new, 0, n - 1) == z3.Extract(old, 0, n - 1))
        for nm, v in (("_stack", self.stack), ("_subtree_overrides", self.over), ("collected", self.coll)): s.assume(sel(s, self.w, nm) == v)
        r = fresh("result"); s.assume(r != ABSENT)
        e = s.clone()
        log(s, t, top, V.bool(popped), r)
        s.ghost["visited"] = z3.simplify(z3.Concat(s.ghost["visited"], unit(t))); s.ghost["results"] = z3.simplify(z3.Concat(s.ghost["results"], unit(r)))
        x = fresh("exc"); e.assume(V.is_obj(x), isa(cls_of(V.ov(x)), cid(BaseException)))
        log(e, t, top, V.bool(popped), x)
        return [(s, r), (e, Exc(x))]
    def hooks(self):
        W_ = "mcpyrate.walkers:" + self.cls.__name__
        return {"ext": dict(FLATTEN, **{f"{W_}.{self.user}": (self.step, "arbitrary user code; keeps the walker's stack discipline"),
                        f"{W_}.visit": (self.step, "recursive call: this contract (induction on the tree)")})}
    def stack_facts(self, c, s):
        cur = z3.Select(s.L, V.ov(self.stack)); n = z3.Length(self.S0)
        return cur, n
    @property
    def loops(self):
        def inv(c):
            cur = c.lst(self.stack); n = z3.Length(self.S0)
            k = z3.If(self.hasov, n, n - 1)
            out = [("depth", z3.Length(cur) == k + 1), ("below", z3.Extract(cur, 0, k) == z3.Extract(self.S0, 0, k)), ("suite", c.lst(self.t) == self.T0),
                   ("visited", c.s.ghost["visited"] == c.done)] + [("w" + nm, sel(c.s, self.w, nm) == v) for nm, v in (("_stack", self.stack), ("_subtree_overrides", self.over), ("collected", self.coll))]
            if self.user == "transform": out.append(("results", c.lst(c.var("$acc")) == c.s.ghost["results"]))
            return out
        return [LoopSpec(inv)]
    def stack_post(self, p):
        cur = self.L1(p, self.stack); n = z3.Length(self.S0)
        return [("stack-object", sel(p.s, self.w, "_stack") == self.stack), ("depth-restored", z3.Length(cur) == n),
                ("outer-states-kept", z3.Extract(cur, 0, n - 1) == z3.Extract(self.S0, 0, n - 1)),
                ("override-undone", z3.Implies(self.hasov, cur == self.S0))]
    def post(self, p):
        out = self.stack_post(p)
        n = z3.Length(self.S0); top = z3.If(self.hasov, self.ov0, self.S0[n - 1])
        tr = p.trace()
        ev = V.tv(tr[0])
        out += [("once", z3.Length(tr) == 1), ("node", ev[0] == self.t), ("state-in-effect", ev[1] == top), ("override-consumed", ev[2] == TRUE),
                ("outcome", ev[3] == (p.resultV if p.returned else p.exc.v))]
        return out
class VisitorVisit(Visit):
    target = "mcpyrate.walkers:ASTVisitor.visit"; label = "mcpyrate.walkers:ASTVisitor.visit[node]"; cls = W.ASTVisitor
class TransformerVisit(Visit):
    target = "mcpyrate.walkers:ASTTransformer.visit"; label = "mcpyrate.walkers:ASTTransformer.visit[node]"; cls = W.ASTTransformer; user = "transform"
class VisitorSuite(Visit):
    target = "mcpyrate.walkers:ASTVisitor.visit"; label = "mcpyrate.walkers:ASTVisitor.visit[suite]"; cls = W.ASTVisitor; suite = True
    def post(self, p):
        out = self.stack_post(p)
        if p.returned: out += [("all-in-order", p.s.ghost["visited"] == self.T0), ("value", p.resultV == NONE)]
        return out
class TransformerSuite(Visit):
    target = "mcpyrate.walkers:ASTTransformer.visit"; label = "mcpyrate.walkers:ASTTransformer.visit[suite]"; cls = W.ASTTransformer; suite = True; user = "transform"
    def post(self, p):
        out = self.stack_post(p)
        if p.returned:
            out += [("all-in-order", p.s.ghost["visited"] == self.T0), ("same-list", p.resultV == self.t),
                    ("spliced-results", self.L1(p, self.t) == flat(p.s.ghost["results"], p.s.meta.get("flatL", p.s.L)))]
        return out

CONTRACTS = [Reset, Init, GetState, SetState, Collect, WithState, WithStateSuite, GenericWithState, Flatten, FlattenOne, VisitorVisit, TransformerVisit, VisitorSuite, TransformerSuite]
