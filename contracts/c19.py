from contracts.base import *
from contracts.c15 import exc_any
from pyvc.engine import strmul

M = "mcpyrate.astdumper:"
PairV = lambda t: V.tv(t)
text = z3.Function("text_that_evaluates_to", V, V); spaces = z3.Function("spaces", V, Str); stripped = z3.Function("without_leading_space", Str, Str)
field_items = z3.Function("fields_of_node", V, SeqV); attr_names = attrs_of
PAIRS = Fold("names_with_texts", SeqV, EMPTY, lambda acc, it: z3.Concat(acc, unit(V.tup(seq(V.tv(it)[0], text(V.tv(it)[1]))))))
attrv = z3.Function("attribute_or_None", V, V, V)
ATTRS = Fold("attributes_with_texts", SeqV, EMPTY, lambda acc, k, o: z3.Concat(acc, unit(V.tup(seq(k, text(attrv(o, k)))))), extra=(V,))
TEXTS = Fold("texts", SeqV, EMPTY, lambda acc, x: z3.Concat(acc, unit(text(x))))
GIVEN = Fold("keywords_given", SeqV, EMPTY, lambda acc, p: z3.Concat(acc, unit(V.str(z3.Concat(V.sv(V.tv(p)[0]), z3.StringVal("="), V.sv(V.tv(p)[1]))))))
class Dump(Contract):
    """The text of a value, made from the texts of what is in it (each of which, by this contract, evaluates to its value): for a node its class's name called with each field, by name, in order."""
    target = M + "dump"; multiline = True; attrs = False; kind = "node"
    def pre(self, c): self.x = self.value(c); self.top = c.obj("top", ast.AST); return [self.top], dict(include_attributes=PyObj(self.attrs), multiline=PyObj(self.multiline), color=PyObj(False))
    def value(self, c):
        x = c.obj("node", ast.AST); self.F = field_items(x); self.A = attrs_of(cls_of(V.ov(x))); self.P = z3.Const("all_pairs", SeqV); e = z3.IntVal(0)
        c.assume(*PAIRS.axioms(self.F, e), *ATTRS.axioms(self.A, e, x), z3.Implies(z3.Length(self.A) == 0, self.A == EMPTY), self.P == (z3.Concat(PAIRS(self.F), ATTRS(self.A, x)) if self.attrs else PAIRS(self.F))); return x
    def hooks(self):
        def rec(e, s, a, k):
            x = e.toV(s, a[0])
            if s.meta.get("inside"): t = text(x); s.assume(V.is_str(t)); return [(s, t)]
            e.oblige(s, "starts-with-the-tree", x == self.top); fn = e.reg.cur_fn; t = s.clone(); t.meta = dict(s.meta, inside=True); n = 0
            for u, r in e.inline(t, fn, [self.x, V.int(fresh("indent", Int))], {}):
                n += 1
                if isinstance(r, Exc): e.oblige(u, "step.no-failure", z3.BoolVal(False)); continue
                for nm, f in self.step(e, u, e.toV(u, r)): e.oblige(u, "step." + nm, f)
                e.oblige(u, "step.nothing-changed", z3.And(u.H == s.H, u.D == s.D))
            if not n: raise SpecMismatch("the step has no outcome")
            r = text(x); s.assume(V.is_str(r)); return [(s, r)]
        def fields(e, s, a, k):
            e.oblige(s, "fields.of-the-node", e.toV(s, a[0]) == self.x); sq = self.F
            def elt(s, i): it = z3.simplify(sq[i]); s.assume(V.is_tup(it), z3.Length(V.tv(it)) == 2, V.is_str(V.tv(it)[0]), V.tv(it)[1] != ABSENT); return Tup([V.tv(it)[0], V.tv(it)[1]])
            it = SeqIter(z3.Length(sq), elt); it.seq = sq; return [(s, it)]
        def meth(e, s, recv, name, args, kw):
            if name == "lstrip" and not args: return [(s, V.str(stripped(V.sv(e.toV(s, recv)))))]
        def ga(e, s, a, k): e.oblige(s, "attribute.else-None", z3.And(e.toV(s, a[0]) == self.x, z3.BoolVal(len(a) == 3), e.toV(s, a[2]) == NONE)); r = attrv(self.x, e.toV(s, a[1])); s.assume(r != ABSENT); return [(s, r)]
        return {"method": meth, "ext": {M + "dump.<locals>.recurse": (rec, "recursive call: this contract (induction on the tree)"), "ast.iter_fields": (fields, "yields (name, value) pairs in a fixed order"), "builtins.getattr": (ga, "the attribute, or None"), "builtins.repr": (lambda e, s, a, k: [(s, V.str(shown(e.toV(s, a[0]))))], "Python's repr")}}
    def sep(self, r):
        """How parts are separated: a comma, then any amount of white space that this text uses."""
        if not self.multiline: return z3.StringVal(", ") if self.joined(r) else None
        todo, seen = [z3.simplify(r)], []
        while todo:
            t = todo.pop()
            if z3.is_app(t) and t.decl().eq(strmul) and z3.simplify(t.arg(0) == z3.StringVal(" ")).eq(z3.BoolVal(True)): seen.append(t)
            todo += t.children()
        if not seen: return None
        return z3.Concat(z3.StringVal(",\n"), seen[0])
    def joined(self, r):
        todo = [z3.simplify(r)]
        while todo:
            t = todo.pop()
            if z3.is_app(t) and t.decl().eq(str_join): return True
            todo += t.children()
        return False
    def pairs(self, u): return self.P
    @property
    def loops(self):
        ext = lambda sq, i: z3.Extract(sq, 0, i); H = lambda c: ("heap", z3.And(c.s.H == c.pre.H, c.s.D == c.pre.D)); acc = lambda c: c.lst(c.var("$acc"))
        first = LoopSpec(lambda c: [("pairs", acc(c) == PAIRS(ext(self.F, c.i))), H(c)], lambda c: PAIRS.axioms(self.F, c.i))
        second = LoopSpec(lambda c: [("attributes", acc(c) == ATTRS(ext(self.A, c.i), self.x)), H(c)], lambda c: ATTRS.axioms(self.A, c.i, self.x) + [z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(self.A)), V.is_str(self.A[c.i]))])
        def isp(sq, i): return z3.Implies(z3.And(i >= 0, i < z3.Length(sq)), z3.And(V.is_tup(sq[i]), z3.Length(V.tv(sq[i])) == 2, V.is_str(V.tv(sq[i])[0]), V.is_str(V.tv(sq[i])[1])))
        third = LoopSpec(lambda c: [("everything", c.seq == self.P), ("same", acc(c) == ext(self.pairs(c.s), c.i)), H(c)], lambda c: [isp(self.pairs(c.s), c.i)])
        fourth = LoopSpec(lambda c: [("everything", c.seq == self.P), ("given", acc(c) == GIVEN(ext(self.pairs(c.s), c.i))), H(c)], lambda c: GIVEN.axioms(self.pairs(c.s), c.i) + [isp(self.pairs(c.s), c.i)])
        return (first, second, third, fourth) if self.attrs else (first, third, fourth)
    def step(self, e, u, r):
        C = cls_name(cls_of(V.ov(self.x))); sep = self.sep(r)
        if sep is None: return [("text-of-nothing", z3.And(z3.Length(self.F) == 0, z3.Length(self.A) == 0 if self.attrs else True, r == V.str(z3.Concat(C, z3.StringVal("()")))))]
        return [("text", r == V.str(z3.Concat(C, z3.StringVal("("), str_join(sep, GIVEN(self.pairs(u))), z3.StringVal(")"))))]
    def post(self, p): return [("result", p.resultV == text(self.top) if p.returned else False)]
shown = z3.Function("repr_of", V, Str)
class DumpOneLine(Dump): label = M + "dump[one line]"; multiline = False
class DumpAttributes(Dump): label = M + "dump[with attributes]"; attrs = True
class DumpAttributesOneLine(Dump): label = M + "dump[with attributes, one line]"; attrs = True; multiline = False
class DumpList(Dump):
    """A list: the texts of its elements, in order, inside brackets."""
    label = M + "dump[list]"
    def value(self, c): x = c.list("list", "any"); self.L0_ = c.lst(x); self.j = z3.Const("element", Int); return x
    @property
    def loops(self):
        n = z3.Length(self.L0_)
        def inv(c):
            a = c.lst(c.var("$acc")); at = lambda k: z3.Implies(z3.And(k >= 0, k < c.i), a[k] == text(self.L0_[k])); return [("count", z3.Length(a) == c.i), ("texts", z3.And(at(self.j), at(z3.IntVal(0)), at(n - 1))), ("heap", z3.And(c.s.H == c.pre.H, c.s.D == c.pre.D, z3.Select(c.s.L, V.ov(self.x)) == self.L0_))]
        return (LoopSpec(inv, lambda c: [V.is_str(text(self.L0_[k])) for k in (self.j, z3.IntVal(0), n - 1)]),)
    def step(self, e, u, r):
        n = z3.Length(self.L0_); t = z3.simplify(V.sv(r))
        if z3.is_string_value(t): return [("empty", z3.And(n == 0, t == z3.StringVal("[]")))]
        if not t.decl().eq(str_join): raise SpecMismatch("the text of a list is not understood")
        sep = self.sep(r); Q = t.arg(1); j = self.j; x = V.sv(text(self.L0_[j]))
        if sep is None: raise SpecMismatch("the separator is not understood")
        one = z3.Concat(z3.If(j == 0, z3.Concat(z3.StringVal("["), stripped(x)), x), z3.If(j == n - 1, z3.StringVal("]"), z3.StringVal("")))
        return [("separated", t.arg(0) == sep), ("elements", z3.And(n > 0, z3.Length(Q) == n, z3.Implies(z3.And(j >= 0, j < n), Q[j] == V.str(one))))]
class DumpListOneLine(DumpList): label = M + "dump[list, one line]"; multiline = False
class DumpLeaf(Dump):
    """Any other value: its `repr`, except that an infinite number is written as one that overflows."""
    label = M + "dump[bare value]"
    def value(self, c): x = c.var("value"); c.assume(x != ABSENT, z3.Implies(V.is_obj(x), z3.And(V.ov(x) >= 0, V.ov(x) < c.s.alloc)), z3.Not(type_formula(x, ast.AST)), z3.Not(type_formula(x, list))); return x
    loops = ()
    def step(self, e, u, r):
        import sys
        number = z3.Or([exact_type_formula(self.x, K) for K in (float, complex)]); return [("text", r == V.str(z3.If(number, str_replace_all(shown(self.x), z3.StringVal("inf"), z3.StringVal("1e" + repr(sys.float_info.max_10_exp + 1))), shown(self.x))))]
class DumpOther(Dump):
    """Only a node or a list is dumped."""
    label = M + "dump[not a tree]"; must_reach = ("raise",)
    def pre(self, c): self.x = self.top = DumpLeaf.value(self, c); return [self.x], {}
    loops = ()
    def hooks(self):
        def worked(e, s, a, k): e.oblige(s, "not-a-tree.nothing-dumped", False); return []
        return {"ext": {M + "dump.<locals>.recurse": (lambda e, s, a, k: None if self.first(s) else worked(e, s, a, k), "the recursion"), "ast.iter_fields": (worked, "unreached")}}
    def first(self, s):
        if s.meta.get("in"): return False
        s.meta["in"] = True; return True
    def post(self, p): return [("refused", p.exc_is(TypeError) if p.raised else False)]
CONTRACTS = [Dump, DumpOneLine, DumpAttributes, DumpAttributesOneLine, DumpList, DumpListOneLine, DumpLeaf, DumpOther]
