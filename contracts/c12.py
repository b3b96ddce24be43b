from contracts.base import *
from contracts.c10 import Flatten, FlattenOne
import mcpyrate.utils as U
import mcpyrate.walkers as W
from mcpyrate import markers as MK
from pyvc.engine import to_repr, to_str

# ---------------------------------------------------------------- gensym / scrub_uuid
HEXD = "0123456789abcdefABCDEF"
class Gensym(Contract):
    """The result was never returned before, is recorded, and is basename + "_" + a uuid hex string."""
    target = "mcpyrate.utils:gensym"; must_reach = ("return", "raise")
    def pre(self, c):
        self.b = c.var("basename"); c.assume(self.b != ABSENT)
        self.prev = V.obj(z3.IntVal(T.static_id(U._previous_gensyms)))
        c.assume(isa(cls_of(V.ov(self.prev)), cid(set)), cls_of(V.ov(self.prev)) == cid(set))
        return [self.b], {}
    def hooks(self):
        def uu(eng, s, args, kw):
            v = fresh("uuid"); s.assume(V.is_obj(v))
            return [(s, v)]
        return {"ext": {"uuid.uuid4": (uu, "uuid4() returns some object; str() of it with '-' removed is an arbitrary string")}}
    def post(self, p):
        S0 = z3.Select(p.s0.SS, V.ov(self.prev)); S1 = z3.Select(p.s.SS, V.ov(self.prev))
        b = self.b
        bad = z3.And(z3.Not(V.is_str(b)), z3.Not(V.is_none(b)), truthy(p, b))
        if p.raised:
            return [("only-bad-basename", bad), ("typeerror", p.exc_is(TypeError)), ("untouched", S0 == S1)]
        r = p.resultV
        pre = z3.If(V.is_none(b), z3.StringVal("gensym_"), z3.If(z3.Length(V.sv(b)) == 0, z3.StringVal(""), z3.Concat(V.sv(b), z3.StringVal("_"))))
        return [("str", V.is_str(r)), ("never-before", z3.Not(z3.Select(S0, r))), ("recorded", S1 == z3.Store(S0, r, z3.BoolVal(True))),
                ("base", z3.Implies(z3.Or(V.is_none(b), V.is_str(b)), z3.PrefixOf(pre, V.sv(r)))), p.unchanged_except("SS", [V.ov(self.prev)])] + p.unchanged("H", "D", "L")
def truthy(p, v): return p.eng.truth(p.s0, v)

class GensymStr(Gensym):
    label = "mcpyrate.utils:gensym[str or None]"; must_reach = ("return",)
    def pre(self, c):
        a = super().pre(c); c.assume(z3.Or(V.is_none(self.b), V.is_str(self.b))); return a
    loops = (LoopSpec(lambda c: [("base", z3.And(V.is_str(c.var("sym")), z3.PrefixOf(V.sv(c.var("basename")), V.sv(c.var("sym")))))]),)
class GensymBad(Gensym):
    label = "mcpyrate.utils:gensym[bad basename]"; must_reach = ("raise",); loops = ()
    def pre(self, c):
        a = super().pre(c); c.assume(z3.Not(z3.Or(V.is_none(self.b), V.is_str(self.b)))); c.assume(c.eng.truth(c.s, self.b)); return a

class ScrubUuid(Contract):
    target = "mcpyrate.utils:scrub_uuid"
    def pre(self, c): self.x = c.str("string"); return [self.x], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        s, r = V.sv(self.x), p.resultV; rs = V.sv(r)
        i = z3.LastIndexOf(s, z3.StringVal("_")); u = z3.SubString(s, i + 1, z3.Length(s) - i - 1)
        j = fresh("j", Int)
        out = [("str", V.is_str(r)), ("prefix", z3.PrefixOf(rs, s)), ("whole-or-suffix", z3.Or(r == self.x, z3.And(i >= 0, rs == z3.SubString(s, 0, i), z3.Length(s) == i + 33))),
               ("hex", z3.Implies(z3.And(r != self.x, j >= 0, j < 32), z3.Contains(z3.StringVal(HEXD), z3.SubString(u, j, 1))))] + p.unchanged("H", "L", "D")
        return out

# ---------------------------------------------------------------- rename
IDKINDS = ("identifier",)
def id_fields(C): return {f: q for f, (k, q) in asdl_fields(C).items() if k == "identifier"}
def all_nodes():
    out, todo = [], [ast.AST]
    while todo:
        C = todo.pop()
        subs = [K for K in C.__subclasses__() if K.__module__ == "ast"]
        todo += subs
        if not subs and C.__doc__ and C not in (ast.Num, ast.Str, ast.Bytes, ast.NameConstant, ast.Ellipsis): out.append(C)
    return sorted(set(out), key=lambda C: C.__name__)
NODES = [C for C in all_nodes() if C.__name__ in dir(ast) and not C.__name__.startswith("_")]
NAMED = [C for C in NODES if id_fields(C)]

class RenameNode(Contract):
    """rename()'s effect on one node of the given class: every identifier field (as the running Python's ASDL declares them) holding the old name
    gets the new name, nothing else of the node changes, and the children are visited."""
    target = "mcpyrate.utils:rename"; node = None
    mapf = Fold("renamed", SeqV, EMPTY, lambda acc, x, o, n: z3.Concat(acc, unit(z3.If(x == o, n, x))), extra=(V, V))
    def pre(self, c):
        self.o, self.n = c.str("old"), c.str("new")
        self.t = c.obj("tree", self.node, exact=True) if self.node else c.obj("tree", ast.AST)
        self.lists = {}
        if self.node is None:
            c.assume(*[cls_of(V.ov(self.t)) != cid(K) for K in NAMED + MARKS])
        else:
            for f, q in id_fields(self.node).items():
                if q == "*":
                    l = self.lists[f] = c.list(f, "identifier"); c.setattr(self.t, f, l)
                else:
                    v = c.attr(self.t, f); c.assume(V.is_str(v) if q == "" else z3.Or(V.is_none(v), V.is_str(v)))
        return [self.o, self.n, self.t], {}
    def hooks(self):
        def visit(eng, s, args, kw):
            fr = next(d for d in reversed(list(s.frames.values())) if any(isinstance(v, Cls) for v in d.values()))
            C = next(v for v in fr.values() if isinstance(v, Cls))
            w = eng.alloc(s, C); s.meta[("cls", z3.simplify(w).get_id())] = C; s.meta[("keep", z3.simplify(w).get_id())] = z3.simplify(w)
            tr = eng.cls_attr(s, C, "transform")
            return eng.call(s, tr[1].bind(w), [args[0]], {})
        def gv(eng, s, recv, name, args, kw):
            if name[1] == "generic_visit":
                log(s, S("generic_visit"), eng.toV(s, args[0])); return [(s, args[0])]
        return {"ext": {"mcpyrate.walkers:ASTTransformer.visit": (visit, "walker contract (C10): visit(node) calls transform(node)")}, "ext_method": gv,
                "construct": None}
    @property
    def loops(self):
        def inv_idx(c):                                   # for j in range(len(names)): names[j] = ...
            l0 = z3.Select(self.Lz, V.ov(self.l)); A = self.mapf(z3.Extract(l0, 0, c.i), self.o, self.n); n = z3.Length(l0)
            return [("len", z3.Length(A) == c.i), ("done+todo", c.lst(self.l) == z3.Concat(A, z3.Extract(l0, c.i, n - c.i)))]
        def inv_acc(c): return [("acc", c.lst(c.var("$acc")) == self.mapf(c.done, self.o, self.n))]
        def inv(c): return inv_acc(c) if c.has("$acc") else inv_idx(c)
        def ax(c):
            sq = z3.Select(self.Lz, V.ov(self.l))
            n = z3.Length(sq); A = self.mapf(z3.Extract(sq, 0, c.i), self.o, self.n); Bq = z3.Extract(sq, c.i, n - c.i); AB = z3.Concat(A, Bq)
            lemma = z3.Implies(z3.And(z3.Length(A) == c.i, c.i >= 0, c.i < n), z3.And(z3.Extract(AB, 0, c.i) == A, z3.Extract(AB, c.i + 1, n - c.i - 1) == z3.Extract(sq, c.i + 1, n - c.i - 1), AB[c.i] == sq[c.i], z3.Length(AB) == n, Bq == z3.Concat(unit(sq[c.i]), z3.Extract(sq, c.i + 1, n - c.i - 1))))
            return [lemma] + self.mapf.axioms(sq, c.i, self.o, self.n) + [z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(sq)), z3.And(V.is_str(sq[c.i]), z3.Extract(sq, 0, c.i + 1) == z3.Concat(z3.Extract(sq, 0, c.i), unit(sq[c.i]))))]
        return [LoopSpec(inv, ax)]
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        out = [("same-node", p.resultV == self.t), ("children-visited", p.trace() == seq(V.tup(seq(S("generic_visit"), self.t))))]
        mine = []
        for f, q in (id_fields(self.node) if self.node else {}).items():
            a = sel(p.s0, self.t, f); b = sel(p.s, self.t, f)
            if q == "*":
                l0 = z3.Select(p.s0.L, V.ov(a)); l1 = z3.Select(p.s.L, V.ov(b))
                out.append((f"{f}-renamed", l1 == self.mapf(l0, self.o, self.n)))
            else: out.append((f"{f}-renamed", b == z3.If(a == self.o, self.n, a)))
            mine.append(a_(self.t, f))
        out.append(p.unchanged_except("H", None, mine) if mine else ("frame.H", True))
        if not mine: out += p.unchanged("H")
        out.append(p.unchanged_except("L", [V.ov(l) for l in self.lists.values()]))
        return out + p.unchanged("D")
MARKS = []
def mk(C):
    class R(RenameNode):
        node = C; label = f"mcpyrate.utils:rename[{C.__name__}]"
        def pre(self, c):
            r = super().pre(c); self.Lz = c.s.L; self.l = next(iter(self.lists.values()), None); return r
    R.__name__ = "Rename" + C.__name__
    return R
RENAMES = [mk(C) for C in NAMED]
class RenameOther(RenameNode): label = "mcpyrate.utils:rename[nodes without names]"; loops = ()

# ---------------------------------------------------------------- bindings, docstrings, locations
class ExtractBindings(Contract):
    target = "mcpyrate.utils:extract_bindings"
    def pre(self, c):
        self.d = c.dict("bindings"); self.f1, self.f2 = c.var("f1"), c.var("f2"); self.q = fresh("q")
        ks = z3.Select(c.s.DK, V.ov(self.d)); d = c.dct(self.d)
        c.assume(z3.Contains(ks, unit(self.q)) == (z3.Select(d, self.q) != ABSENT))      # a dict's keys are the present ones
        return [self.d, self.f1, self.f2], {}
    @property
    def loops(self):
        def inv(c):
            d, ks = c.si.dict; acc = z3.Select(c.s.D, V.ov(c.var("$acc"))); v = z3.Select(d, self.q)
            return [("acc", z3.Select(acc, self.q) == z3.If(z3.And(z3.Contains(z3.Extract(ks, 0, c.i), unit(self.q)), z3.Or(v == self.f1, v == self.f2)), v, ABSENT))]
        def ax(c):
            d, ks = c.si.dict
            return [z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(ks)), z3.Contains(z3.Extract(ks, 0, c.i + 1), unit(self.q)) == z3.Or(z3.Contains(z3.Extract(ks, 0, c.i), unit(self.q)), ks[c.i] == self.q)),
                    z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(ks)), z3.Select(d, ks[c.i]) != ABSENT), z3.Extract(ks, 0, z3.Length(ks)) == ks, z3.Implies(c.i == 0, z3.Extract(ks, 0, c.i) == EMPTY)]
        return [LoopSpec(inv, ax)]
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        v = z3.Select(z3.Select(p.s0.D, V.ov(self.d)), self.q); r = p.resultV
        return [("exactly-matching", z3.Select(z3.Select(p.s.D, V.ov(r)), self.q) == z3.If(z3.Or(v == self.f1, v == self.f2), v, ABSENT)), ("new", V.ov(r) >= p.s0.alloc)] + p.unchanged("H", "D", "L")

class GetDocstring(Contract):
    target = "mcpyrate.utils:getdocstring"
    def pre(self, c):
        self.b = c.list("body", "stmt"); return [self.b], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        sq = z3.Select(p.s0.L, V.ov(self.b)); st = sq[0]; v = sel(p.s0, st, "value"); k = sel(p.s0, v, "value")
        has = z3.And(z3.Length(sq) > 0, cls_of(V.ov(st)) == cid(ast.Expr), V.is_obj(v), cls_of(V.ov(v)) == cid(ast.Constant), V.is_str(k))
        return [("value", p.resultV == z3.If(has, k, NONE))] + p.unchanged("H", "L", "D")
class GetDocstringNone(Contract):
    target = "mcpyrate.utils:getdocstring"; label = "mcpyrate.utils:getdocstring[None]"
    def pre(self, c): return [PyObj(None)], {}
    def post(self, p): return [("none", p.resultV == NONE if p.returned else False)]
class GetDocstringBad(Contract):
    target = "mcpyrate.utils:getdocstring"; label = "mcpyrate.utils:getdocstring[not a list]"; must_reach = ("raise",)
    def pre(self, c):
        self.b = c.obj("body", ast.AST); return [self.b], {}
    def post(self, p): return [("typeerror", p.exc_is(TypeError) if p.raised else False)] + p.unchanged("H", "L", "D")

lineno_of = z3.Function("lineno_of", V, V)
field_items = z3.Function("field_items", V, SeqV)          # what ast.iter_fields(tree) yields
colored = z3.Function("colored", Str, V, Str)
def colorize_hook(eng, s, args, kw):
    return [(s, V.str(colored(V.sv(eng.toV(s, args[0])), eng.opaqueV(s, args[1]))))]
COLORIZE = {"mcpyrate.colorizer:colorize": (colorize_hook, "colorize(text, color) is a function of its arguments")}
def falsy_int(v): return z3.Or(v == NONE, v == V.int(0))
class GetLineno(Contract):
    """Own line number if it has one, else that of the marker body, else the first truthy one among the children in order, else None."""
    target = "mcpyrate.utils:get_lineno"
    nofound = Fold("nofound", Bool, z3.BoolVal(True), lambda acc, x: z3.And(acc, falsy_int(lineno_of(x))))
    def pre(self, c):
        self.t = c.var("tree"); c.assume(self.t != ABSENT); c.s.ghost["visited"] = EMPTY; self.sub = None
        return [self.t], {}
    def hooks(self):
        def rec(eng, s, args, kw):
            v = eng.toV(s, args[0]); r = lineno_of(v); s.assume(z3.Or(r == NONE, V.is_int(r)))
            s.ghost["visited"] = z3.simplify(z3.Concat(s.ghost["visited"], unit(v))); return [(s, r)]
        def fields(eng, s, args, kw):
            # a list of (name, value) pairs; the loop sees the values
            sq = field_items(eng.toV(s, args[0])); l = eng.alloc_list(s, sq)
            it = SeqIter(z3.Length(sq), lambda s, i: Tup([V.str(fresh("fname", Str)), z3.simplify(sq[i])])); it.seq = sq
            return [(s, it)]
        return {"ext": {"mcpyrate.utils:get_lineno": (rec, "recursive call: this contract (induction on the tree)"), "ast.iter_fields": (fields, "iter_fields(tree) yields (name, value) pairs in a fixed order")}}
    loops = tuple(LoopSpec(lambda c: [("order", c.s.ghost["visited"] == c.done), ("none-yet", GetLineno.nofound(c.done))], lambda c: GetLineno.nofound.axioms(c.seq, c.i)) for _ in range(2))
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        t = self.t; has = z3.And(V.is_obj(t), sel(p.s0, t, "lineno") != ABSENT); C = cls_of(V.ov(t))
        vis = p.s.ghost["visited"]; n = z3.Length(vis); r = p.resultV
        marker = z3.And(V.is_obj(t), isa(C, cid(MK.ASTMarker)), sel(p.s0, t, "body") != ABSENT)
        isast = z3.And(V.is_obj(t), isa(C, cid(ast.AST))); islist = z3.And(V.is_obj(t), isa(C, cid(list)))
        els = z3.If(isast, field_items(t), z3.Select(p.s0.L, V.ov(t)))
        return [("own", z3.Implies(has, z3.And(r == sel(p.s0, t, "lineno"), n == 0))),
                ("marker-body", z3.Implies(z3.And(z3.Not(has), marker), z3.And(vis == unit(sel(p.s0, t, "body")), r == lineno_of(sel(p.s0, t, "body"))))),
                ("in-order", z3.Implies(z3.And(z3.Not(has), z3.Not(marker), z3.Or(isast, islist)), vis == z3.Extract(els, 0, n))),
                ("first-found", z3.Implies(z3.And(z3.Not(has), z3.Not(marker), z3.Or(isast, islist)),
                    z3.Or(z3.And(r == NONE, vis == els, self.nofound(vis)), z3.And(n > 0, r == lineno_of(vis[n - 1]), z3.Not(falsy_int(r)), self.nofound(z3.Extract(vis, 0, n - 1)))))),
                ("other-none", z3.Implies(z3.And(z3.Not(has), z3.Not(marker), z3.Not(isast), z3.Not(islist)), r == NONE))] + p.unchanged("H", "L", "D")

def lineno_hook(eng, s, args, kw): return [(s, lineno_of(eng.toV(s, args[0])))]
class FormatLocation(Contract):
    target = "mcpyrate.utils:format_location"
    def pre(self, c):
        self.f, self.t, self.c = c.str("filename"), c.var("tree"), c.var("sourcecode")
        c.assume(z3.Or(self.c == NONE, V.is_str(self.c)), self.t != ABSENT)
        return [self.f, self.t, self.c], {}
    def hooks(self): return {"ext": dict(COLORIZE, **{"mcpyrate.utils:get_lineno": (lineno_hook, "contract of get_lineno (own contract)")})}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        from mcpyrate.colorizer import ColorScheme
        col = p.eng.opaqueV(p.s, PyObj(ColorScheme.SOURCEFILENAME)); ln = lineno_of(self.t)
        code = z3.If(z3.Or(self.c == NONE, V.sv(self.c) == z3.StringVal("")), z3.StringVal(""),
                     z3.Concat(z3.If(z3.Contains(V.sv(self.c), z3.StringVal("\n")), z3.StringVal("\n"), z3.StringVal(" ")), V.sv(self.c)))
        return [("text", p.resultV == V.str(z3.Concat(colored(V.sv(self.f), col), z3.StringVal(":"), p.eng.str_of(p.s, ln), z3.StringVal(":"), code)))] + p.unchanged("H", "L", "D")
class FormatMacroFunction(Contract):
    target = "mcpyrate.utils:format_macrofunction"
    def pre(self, c):
        self.f = c.var("function"); m = c.attr(self.f, "__module__"); q = c.attr(self.f, "__qualname__")
        c.assume(V.is_obj(self.f), z3.Or(m == ABSENT, m == NONE, V.is_str(m)), z3.Or(q == ABSENT, V.is_str(q)))
        return [self.f], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        m, q = sel(p.s0, self.f, "__module__"), sel(p.s0, self.f, "__qualname__")
        return [("text", p.resultV == z3.If(z3.Or(m == ABSENT, q == ABSENT), V.str(to_repr(self.f)), z3.If(z3.Or(m == NONE, m == S("")), q, V.str(z3.Concat(V.sv(m), z3.StringVal("."), V.sv(q))))))] + p.unchanged("H", "L", "D")
unparsed = z3.Function("unparsed", V, Str)
class FormatContext(Contract):
    """The first n lines of the unparsed code, and an ellipsis exactly when there are more."""
    target = "mcpyrate.utils:format_context"
    def pre(self, c):
        self.t = c.var("tree"); self.n = c.int("n"); c.assume(V.iv(self.n) >= 0); return [self.t], {"n": self.n}
    def hooks(self):
        def up(eng, s, args, kw):
            for k in ("debug", "color"):
                if not (k in kw and eng.conc(kw[k]) == (True, True)): return [(s, V.str(fresh("plain", Str)))]
            return [(s, V.str(unparsed(eng.toV(s, args[0]))))]
        return {"ext": dict(COLORIZE, **{"mcpyrate.unparser:unparse_with_fallbacks": (up, "returns a string determined by the tree (properties C01)")})}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        from mcpyrate.colorizer import ColorScheme
        nl = z3.StringVal("\n"); lines = str_split(unparsed(self.t), nl); n = V.iv(self.n)
        k = z3.If(n > z3.Length(lines), z3.Length(lines), n)
        head = str_join(nl, z3.Extract(lines, 0, k))
        more = z3.Concat(head, nl, colored(z3.StringVal("..."), p.eng.opaqueV(p.s, PyObj(ColorScheme.GREYEDOUT))))
        return [("text", z3.Or(z3.And(z3.Length(lines) > n, p.resultV == V.str(more)), z3.And(z3.Length(lines) <= n, p.resultV == V.str(head))))] + p.unchanged("H", "L", "D")

# ---------------------------------------------------------------- nesting tracker
class Nest(Contract):
    """Running a body under the returned context manager: the value seen inside, and the stack afterwards however the body ends."""
    must_reach = ("return", "raise")
    def pre(self, c):
        self.w = c.obj("self", U.NestingLevelTracker); self.st = c.list("stack"); c.setattr(self.w, "stack", self.st)
        sq = c.lst(self.st); self.S0 = sq; self.cur = sq[z3.Length(sq) - 1]
        c.assume(z3.Length(sq) >= 1, V.is_int(self.cur))
        self.a = c.var("arg"); c.assume(self.a != ABSENT); self.argfacts(c)
        return [self.w, self.a], {}
    def argfacts(self, c): pass
    def finish(self, eng, s0, s, o, args):
        if o[0] != "return": return [(s, o)]
        def body(s2, val):
            sq = z3.simplify(z3.Select(s2.L, V.ov(self.st)))
            log(s2, S("inside"), sq[z3.Length(sq) - 1], V.int(z3.Length(sq)))
            e = s2.clone(); x = fresh("exc"); e.assume(V.is_obj(x), isa(cls_of(V.ov(x)), cid(BaseException)))
            return [(s2, NEXT), (e, ("raise", Exc(x)))]
        c = o[1] if isinstance(o[1], CM) else eng.fromV(o[1])
        return eng.run_cm(s, c, body)
    def want(self): return self.a
    def bad(self): return z3.BoolVal(False)
    def post(self, p):
        tr = p.trace(); ev = V.tv(tr[0])
        frame = [("stack-restored", z3.Select(p.s.L, V.ov(self.st)) == self.S0)] + [p.unchanged_except("L", [V.ov(self.st)])] + p.unchanged("H", "D")
        entered = z3.Length(tr) == 1
        if p.returned: return [("entered", entered), ("level-inside", ev[1] == self.want())] + frame
        return [("body-failed-or-bad", z3.Or(entered, self.rejected(p))), ("level-inside", z3.Implies(entered, ev[1] == self.want()))] + frame
class SetTo(Nest):
    target = "mcpyrate.utils:NestingLevelTracker.set_to"
    def intv(self): return z3.If(V.is_bool(self.a), z3.If(V.bv(self.a), 1, 0), V.iv(self.a))
    def rejected(self, p):
        isint = z3.Or(V.is_int(self.a), V.is_bool(self.a))
        return z3.Or(z3.And(z3.Not(isint), p.exc_is(TypeError)), z3.And(isint, self.intv() < 0, p.exc_is(ValueError)))
class ChangedBy(Nest):
    target = "mcpyrate.utils:NestingLevelTracker.changed_by"
    def argfacts(self, c): c.assume(V.is_int(self.a))
    def want(self): return V.int(V.iv(self.cur) + V.iv(self.a))
    def rejected(self, p): return z3.And(V.iv(self.cur) + V.iv(self.a) < 0, p.exc_is(ValueError))
class NestInit(Contract):
    target = "mcpyrate.utils:NestingLevelTracker.__init__"
    def pre(self, c): self.w = c.obj("self", U.NestingLevelTracker); self.a = c.int("start"); return [self.w, self.a], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        st = sel(p.s, self.w, "stack")
        return [("stack", z3.Select(p.s.L, V.ov(st)) == unit(self.a)), ("own", V.ov(st) >= p.s0.alloc), p.unchanged_except("H", None, [a_(self.w, "stack")])]
class NestValue(Contract):
    target = "mcpyrate.utils:NestingLevelTracker._get_value"
    def pre(self, c):
        self.w = c.obj("self", U.NestingLevelTracker); self.st = c.list("stack"); c.setattr(self.w, "stack", self.st); c.assume(z3.Length(c.lst(self.st)) >= 1)
        return [self.w], {}
    def post(self, p):
        sq = z3.Select(p.s0.L, V.ov(self.st))
        return [("top", p.resultV == sq[z3.Length(sq) - 1] if p.returned else False)] + p.unchanged("H", "L", "D")

CONTRACTS = [GensymStr, GensymBad, ScrubUuid, Flatten, FlattenOne] + RENAMES + [RenameOther, ExtractBindings, GetDocstring, GetDocstringNone, GetDocstringBad, GetLineno, FormatLocation, FormatMacroFunction, FormatContext, NestInit, NestValue, SetTo, ChangedBy]
