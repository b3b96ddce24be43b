from contracts.base import *
from mcpyrate.bunch import Bunch

RES = ("_data", "_reserved_names")

def bunch(c, name="self"):
    """A well-formed Bunch: `_data` is a dict, `_reserved_names` a list."""
    b = c.obj(name, Bunch, exact=True)
    d = c.dict(name + "_data"); r = c.list(name + "_reserved")
    c.setattr(b, "_data", d); c.setattr(b, "_reserved_names", r)
    return b, d, r

class BunchM(Contract):
    """Base: a method on a well-formed Bunch over dict `d` with reserved-name list `r`."""
    def pre(self, c):
        self.b, self.d, self.r = bunch(c)
        return [self.b] + self.args(c), {}
    def args(self, c): return []
    def D0(self, p): return z3.Select(p.s0.D, V.ov(self.d))
    def D1(self, p): return z3.Select(p.s.D, V.ov(self.d))
    def K0(self, p): return z3.Select(p.s0.DK, V.ov(self.d))
    def K1(self, p): return z3.Select(p.s.DK, V.ov(self.d))
    def only_data(self, p):
        return [p.unchanged_except("D", [V.ov(self.d)]), p.unchanged_except("DK", [V.ov(self.d)])] + p.unchanged("H", "L")
    def argkey(self, c, private=False):
        self.n = c.str("name")
        if not private: c.assume(*[V.sv(self.n) != z3.StringVal(x) for x in RES])
        return self.n
    def added(self, p, k, v):
        """The dictionary after d[k] = v."""
        d, ks = self.D0(p), self.K0(p)
        return [("stored", self.D1(p) == z3.Store(d, k, v)), ("order", self.K1(p) == z3.If(z3.Select(d, k) == ABSENT, z3.Concat(ks, unit(k)), ks))]
    def removed(self, p, k):
        ks = self.K0(p); i = z3.IndexOf(ks, unit(k), 0)
        return [("removed", self.D1(p) == z3.Store(self.D0(p), k, ABSENT)),
                ("order", self.K1(p) == z3.Concat(z3.Extract(ks, 0, i), z3.Extract(ks, i + 1, z3.Length(ks) - i - 1)))]

class Read(BunchM):
    """d[k] as attribute or item."""
    must_reach = ("return", "raise")
    err = KeyError
    def args(self, c): return [self.argkey(c, self.err is KeyError)]
    def post(self, p):
        v = z3.Select(self.D0(p), self.n)
        if p.returned: return [("value", z3.And(v != ABSENT, p.resultV == v))] + p.unchanged("H", "D", "DK", "L")
        return [("miss", v == ABSENT), ("error", p.exc_is(self.err))] + p.unchanged("H", "D", "DK", "L")
class GetAttr(Read):
    target = "mcpyrate.bunch:Bunch.__getattr__"; err = AttributeError
class GetItem(Read): target = "mcpyrate.bunch:Bunch.__getitem__"

class SetAttr(BunchM):
    target = "mcpyrate.bunch:Bunch.__setattr__"; must_reach = ("return", "raise")
    def args(self, c):
        self.argkey(c); self.v = c.var("value"); c.assume(self.v != ABSENT)
        return [self.n, self.v]
    def post(self, p):
        res = z3.Contains(z3.Select(p.s0.L, V.ov(self.r)), z3.Unit(self.n))
        if p.returned: return self.added(p, self.n, self.v) + [("unreserved", z3.Not(res))] + self.only_data(p)
        return [("only-reserved", res), ("attributeerror", p.exc_is(AttributeError))] + p.unchanged("H", "D", "DK", "L")

class SetAttrPrivate(BunchM):
    """The two storage attributes are real attributes."""
    target = "mcpyrate.bunch:Bunch.__setattr__"; label = "mcpyrate.bunch:Bunch.__setattr__[storage]"
    def args(self, c):
        self.n = c.str("name"); self.v = c.var("value")
        c.assume(z3.Or([V.sv(self.n) == z3.StringVal(x) for x in RES]))
        return [self.n, self.v]
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("set", z3.Select(p.s.H, V.ov(self.b), V.sv(self.n)) == self.v), p.unchanged_except("H", None, [a_(self.b, x) for x in RES])] + p.unchanged("D", "DK", "L")

class SetItem(BunchM):
    target = "mcpyrate.bunch:Bunch.__setitem__"
    def args(self, c):
        self.argkey(c, True); self.v = c.var("value"); c.assume(self.v != ABSENT)
        return [self.n, self.v]
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return self.added(p, self.n, self.v) + self.only_data(p)

class Remove(BunchM):
    must_reach = ("return", "raise"); err = KeyError
    def args(self, c): return [self.argkey(c, self.err is KeyError)]
    def post(self, p):
        v = z3.Select(self.D0(p), self.n)
        if p.returned: return [("present", v != ABSENT)] + self.removed(p, self.n) + self.only_data(p)
        return [("miss", v == ABSENT), ("error", p.exc_is(self.err))] + p.unchanged("H", "D", "DK", "L")
class DelAttr(Remove):
    target = "mcpyrate.bunch:Bunch.__delattr__"; err = AttributeError
class DelItem(Remove): target = "mcpyrate.bunch:Bunch.__delitem__"

class Contains(BunchM):
    target = "mcpyrate.bunch:Bunch.__contains__"
    def args(self, c): return [self.argkey(c, True)]
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("value", p.resultV == V.bool(z3.Select(self.D0(p), self.n) != ABSENT))] + p.unchanged("H", "D", "DK", "L")
class Len(BunchM):
    target = "mcpyrate.bunch:Bunch.__len__"
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("value", p.resultV == V.int(z3.Length(self.K0(p))))] + p.unchanged("H", "D", "DK", "L")

class Get(BunchM):
    target = "mcpyrate.bunch:Bunch.get"
    def args(self, c): self.v = c.var("dflt"); return [self.argkey(c, True), self.v]
    def post(self, p):
        v = z3.Select(self.D0(p), self.n)
        if not p.returned: return [("noraise", False)]
        return [("value", p.resultV == z3.If(v == ABSENT, self.v, v))] + p.unchanged("H", "D", "DK", "L")
class GetNoDefault(Get):
    label = "mcpyrate.bunch:Bunch.get[no default]"
    def args(self, c): self.v = NONE; return [self.argkey(c, True)]

class Pop(Remove):
    target = "mcpyrate.bunch:Bunch.pop"
    def post(self, p):
        return super().post(p) + ([("value", p.resultV == z3.Select(self.D0(p), self.n))] if p.returned else [])
class PopDefault(BunchM):
    target = "mcpyrate.bunch:Bunch.pop"; label = "mcpyrate.bunch:Bunch.pop[default]"
    def args(self, c): self.v = c.var("dflt"); c.assume(self.v != ABSENT); return [self.argkey(c, True), self.v]
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        v = z3.Select(self.D0(p), self.n)
        return [("value", p.resultV == z3.If(v == ABSENT, self.v, v)), ("removed", self.D1(p) == z3.Store(self.D0(p), self.n, ABSENT))] + self.only_data(p)

class SetDefault(BunchM):
    target = "mcpyrate.bunch:Bunch.setdefault"
    def args(self, c): self.v = c.var("dflt"); c.assume(self.v != ABSENT); return [self.argkey(c, True), self.v]
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        v = z3.Select(self.D0(p), self.n)
        return [("value", p.resultV == z3.If(v == ABSENT, self.v, v)), ("stored", self.D1(p) == z3.If(v == ABSENT, z3.Store(self.D0(p), self.n, self.v), self.D0(p)))] + self.only_data(p)

class Clear(BunchM):
    target = "mcpyrate.bunch:Bunch.clear"
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("empty", self.D1(p) == z3.K(V, ABSENT)), ("nokeys", self.K1(p) == EMPTY)] + self.only_data(p)

class Update(BunchM):
    """Keyword update with an arbitrary set of keyword arguments (a dict `kw`)."""
    target = "mcpyrate.bunch:Bunch.update"
    def pre(self, c):
        self.b, self.d, self.r = bunch(c)
        self.kw = c.dict("kw")
        return [self.b], {"**": [self.kw]}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        k = fresh("k"); nv = z3.Select(z3.Select(p.s0.D, V.ov(self.kw)), k)
        return [("merged", z3.Select(self.D1(p), k) == z3.If(nv == ABSENT, z3.Select(self.D0(p), k), nv))] + self.only_data(p)

class Init(Contract):
    """Any keyword arguments become the items (also one named `self`)."""
    target = "mcpyrate.bunch:Bunch.__init__"
    def pre(self, c):
        self.b = c.obj("self", Bunch, exact=True); self.kw = c.dict("kw")
        return [self.b], {"**": [self.kw]}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        nd = sel(p.s, self.b, "_data")
        return [("contents", z3.Select(p.s.D, V.ov(nd)) == z3.Select(p.s0.D, V.ov(self.kw))), ("order", z3.Select(p.s.DK, V.ov(nd)) == z3.Select(p.s0.DK, V.ov(self.kw))),
                ("own-dict", nd != self.kw), p.unchanged_except("H", None, [a_(self.b, x) for x in RES])] + p.unchanged("D", "DK", "L")

class Copy(BunchM):
    """The copy has the same items and its own storage."""
    target = "mcpyrate.bunch:Bunch.copy"
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        nd = sel(p.s, p.resultV, "_data"); k = fresh("k")
        return [("contents", z3.Select(z3.Select(p.s.D, V.ov(nd)), k) == z3.Select(self.D0(p), k)), ("own-dict", nd != self.d), ("new", V.ov(p.resultV) >= p.s0.alloc),
                ("class", cls_of(V.ov(p.resultV)) == cid(Bunch))] + p.unchanged("H", "D", "DK", "L")
class Replace(BunchM):
    target = "mcpyrate.bunch:Bunch.replace"
    def args(self, c):
        self.o, self.od, self.orr = bunch(c, "other")
        return [self.o]
    def post(self, p):
        nd = sel(p.s, self.b, "_data"); k = fresh("k")
        if not p.returned: return [("noraise", False)]
        return [("contents", z3.Select(z3.Select(p.s.D, V.ov(nd)), k) == z3.Select(z3.Select(p.s0.D, V.ov(self.od)), k)), ("shallow-copy", nd != self.od), ("own", V.ov(nd) >= p.s0.alloc),
                p.unchanged_except("H", None, [a_(self.b, "_data")])] + p.unchanged("D", "DK", "L")
class ReplaceBad(BunchM):
    target = "mcpyrate.bunch:Bunch.replace"; label = "mcpyrate.bunch:Bunch.replace[not a Bunch]"; must_reach = ("raise",)
    def args(self, c):
        o = c.var("other"); c.assume(z3.Not(c.isinstance(o, Bunch)), o != ABSENT); return [o]
    def post(self, p):
        return [("typeerror", p.exc_is(TypeError) if p.raised else False)] + p.unchanged("H", "D", "DK", "L")

VIEW = z3.Function("view_of_dict", z3.StringSort(), V, V)          # live view or iterator of this very dict
class View(BunchM):
    """The live view (or iterator) of the Bunch's own storage, in its order; nothing changes."""
    what = None
    def hooks(self):
        def meth(e, s, recv, name, a, k):
            if name not in ("keys", "items", "values", "__iter__") or not is_v(recv) or not e.entails(s, recv == self.d): return None
            e.oblige(s, "view.no-arguments", z3.BoolVal(not a and not k)); return [(s, VIEW(z3.StringVal(name), self.d))]
        return dict(method=meth, views=meth, ext={"builtins.iter": (lambda e, s, a, k: [(s, VIEW(z3.StringVal("__iter__"), self.d))] if e.entails(s, e.toV(s, a[0]) == self.d) else None, "iterator over a dict's keys in order")})
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("view", p.resultV == VIEW(z3.StringVal(self.what), self.d))] + p.unchanged("H", "D", "DK", "L")
class Keys(View): target = "mcpyrate.bunch:Bunch.keys"; what = "keys"
class Items(View): target = "mcpyrate.bunch:Bunch.items"; what = "items"
class Values(View): target = "mcpyrate.bunch:Bunch.values"; what = "values"
class Iter(View): target = "mcpyrate.bunch:Bunch.__iter__"; what = "__iter__"
class PopItem(BunchM):
    """The last item: removed and returned as a pair; KeyError when there is none."""
    target = "mcpyrate.bunch:Bunch.popitem"; must_reach = ("return", "raise")
    def hooks(self):
        def meth(e, s, recv, name, a, k):
            if name != "popitem" or not is_v(recv) or not e.entails(s, recv == self.d): return None
            ks = z3.Select(s.DK, V.ov(recv)); n = z3.Length(ks); f = s.clone(); f.assume(n == 0); s.assume(n > 0); x = ks[n - 1]; v = z3.Select(z3.Select(s.D, V.ov(recv)), x)
            s.D = z3.Store(s.D, V.ov(recv), z3.Store(z3.Select(s.D, V.ov(recv)), x, ABSENT)); s.DK = z3.Store(s.DK, V.ov(recv), z3.Extract(ks, 0, n - 1))
            return [(s, V.tup(seq(x, v))), (f, e.raise_(f, KeyError))]
        return dict(method=meth)
    def post(self, p):
        ks = self.K0(p); n = z3.Length(ks)
        if not p.returned: return [("empty", n == 0), ("error", p.exc_is(KeyError))] + p.unchanged("H", "D", "DK", "L")
        x = ks[n - 1]; return [("pair", p.resultV == V.tup(seq(x, z3.Select(self.D0(p), x)))), ("removed", self.D1(p) == z3.Store(self.D0(p), x, ABSENT)), ("order", self.K1(p) == z3.Extract(ks, 0, n - 1))] + self.only_data(p)
EQ = z3.Function("values_equal", V, V, z3.BoolSort())
class Equal(BunchM):
    """Compares the storage with the other operand, whose class decides (so a Bunch and a dict with equal contents are equal either way); `!=` is the negation."""
    target = "mcpyrate.bunch:Bunch.__eq__"; negated = False
    def args(self, c): self.other = c.var("other"); c.assume(self.other != ABSENT); return [self.other]
    def hooks(self):
        def cmp(e, s, op, a, b):
            a, b = e.toV(s, a), e.toV(s, b)
            if not isinstance(op, (ast.Eq, ast.NotEq)): return None
            if e.entails(s, a == self.d): a, b = b, a
            if not (e.entails(s, b == self.d) and e.entails(s, a == self.other)): return None
            r = EQ(a, b); return [(s, V.bool(r if isinstance(op, ast.Eq) else z3.Not(r)))]
        return dict(compare=cmp)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        r = EQ(self.other, self.d); return [("value", p.resultV == V.bool(z3.Not(r) if self.negated else r))] + p.unchanged("H", "D", "DK", "L")
class NotEqual(Equal): target = "mcpyrate.bunch:Bunch.__ne__"; negated = True

NOT_NAMES = Fold("not_identifiers", SeqV, EMPTY, lambda acc, k: z3.If(z3.And(V.is_str(k), is_identifier(V.sv(k))), acc, z3.Concat(acc, unit(k))))
class Bunchify(Contract):
    """A dictionary whose keys are all identifiers: a new Bunch with that very dictionary as its storage. Any other key: ValueError. Nothing else changes."""
    target = "mcpyrate.bunch:bunchify"; must_reach = ("return", "raise")
    def pre(self, c): self.d = c.dict("d"); self.K = z3.Select(c.s.DK, V.ov(self.d)); self.pre_H = c.s.H; return [self.d], {}
    @property
    def loops(self):
        return (LoopSpec(lambda c: [("bad", c.lst(c.var("$acc")) == NOT_NAMES(z3.Extract(self.K, 0, c.i)))], lambda c: NOT_NAMES.axioms(self.K, c.i)), LoopSpec(lambda c: []))
    def post(self, p):
        bad = NOT_NAMES(self.K)
        if not p.returned: return [("bad-key", bad != EMPTY), ("error", p.exc_is(ValueError))] + p.unchanged("D", "DK")
        b = p.resultV; return [("names-only", bad == EMPTY), ("bunch", z3.And(V.is_obj(b), V.ov(b) >= p.s0.alloc, cls_of(V.ov(b)) == cid(Bunch))), ("shares-the-storage", sel(p.s, b, "_data") == self.d)] + p.unchanged("D", "DK")
class BunchifyBunch(BunchM):
    """A Bunch: itself."""
    target = "mcpyrate.bunch:bunchify"; label = "mcpyrate.bunch:bunchify[Bunch]"
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("itself", p.resultV == self.b)] + p.unchanged("H", "D", "DK", "L")
class BunchifyOther(Contract):
    """Anything that is no mapping: TypeError."""
    target = "mcpyrate.bunch:bunchify"; label = "mcpyrate.bunch:bunchify[no mapping]"; must_reach = ("raise",)
    def pre(self, c): self.x = c.var("d"); c.assume(z3.Or(V.is_int(self.x), V.is_str(self.x), self.x == NONE)); return [self.x], {}
    def post(self, p): return [("fails", z3.BoolVal(p.raised)), ("error", p.exc_is(TypeError) if p.raised else False)] + p.unchanged("H", "D", "DK")

CONTRACTS = [GetAttr, GetItem, SetAttr, SetAttrPrivate, SetItem, DelAttr, DelItem, Contains, Len, Get, GetNoDefault, Pop, PopDefault, SetDefault, Clear, Update, Init, Copy, Replace, ReplaceBad, Keys, Items, Values, Iter, PopItem, Equal, NotEqual, Bunchify, BunchifyBunch, BunchifyOther]
