from contracts.base import *
from contracts.c10 import Flatten
import mcpyrate.splicing as SP
from mcpyrate.markers import ASTMarker

class SpliceBase(Contract):
    """The template is walked once; at each node: the placeholder (and only it) is replaced - by the given code itself
    the first time, by an independent copy afterwards; any other node is kept and its children are visited."""
    must_reach = ("return", "raise")
    def placeholder(self, s, n): raise NotImplementedError
    def hooks(self):
        def visit(eng, s, args, kw):
            w = walker_of(eng)
            first = sel(s, w, "first")
            if z3.is_true(z3.simplify(first == ABSENT)) or not eng.entails(s, first != ABSENT): raise SpecMismatch("the splicer keeps its state differently")
            eng.oblige(s, "starts-with-the-original", first == TRUE)
            c = Ctx(eng, s); node = c.obj("node", ast.AST); fst = fresh("fst", Bool)
            code = self.code(eng, s)
            c.assume(V.ov(node) != V.ov(w))
            def prep(st): eng.setH(st, w, "first", V.bool(fst))
            def spec(s0, s1, r, tr):
                if isinstance(r, Exc): return [("noraise", False)]
                rv = eng.toV(s1, r); ph = self.placeholder(s0, node)
                ev = V.tv(tr[0])
                return [("first-is-the-code", z3.Implies(z3.And(ph, fst), z3.And(rv == code, tr == EMPTY))),
                        ("later-are-copies", z3.Implies(z3.And(ph, z3.Not(fst)), z3.And(z3.Length(tr) == 1, ev[0] == S("deepcopy"), ev[1] == code, rv == ev[2], rv != code))),
                        ("used-up", z3.Select(s1.H, V.ov(w), z3.StringVal("first")) == z3.If(ph, FALSE, V.bool(fst))),
                        ("others-kept", z3.Implies(z3.Not(ph), z3.And(rv == node, tr == seq(V.tup(seq(S("generic_visit"), node)))))),
                        ("frame", frame_h(s0, s1, [(w, "first")])), ("frameL", frame_c("L", s0, s1)), ("frameD", frame_c("D", s0, s1))]
            Walk(eng, s, w).run(node, "transform", "node", spec, prep)
            r = fresh("walked"); log(s, S("walk"), eng.toV(s, args[0]), r)
            return [(s, r)]
        return {"ext": dict(DEEPCOPY, **{"mcpyrate.walkers:ASTTransformer.visit": (visit, "walker contract (C10): visits the nodes in order, calling transform on each")}), "ext_method": generic_visit_hook}
    def walked(self, p, what):
        tr = p.trace(); ev = V.tv(tr[0])
        return z3.And(z3.Length(tr) == 1, ev[0] == S("walk"), ev[1] == what, p.resultV == ev[2])

class SpliceExpression(SpliceBase):
    target = "mcpyrate.splicing:splice_expression"; must_reach = ("return",)
    def pre(self, c):
        self.e = c.var("expr"); self.t = c.var("template"); self.tag = c.str("tag"); self.facts(c)
        for v in (self.e, self.t): c.assume(z3.Implies(V.is_obj(v), V.ov(v) < c.s.alloc))
        return [self.e, self.t, self.tag], {}
    def good(self, p, e=None):
        b = sel(p.s0, self.e, "body")
        return z3.Or(type_formula(self.e, ast.expr), z3.And(type_formula(self.e, ASTMarker), type_formula(b, ast.expr)))
    def facts(self, c):
        c.assume(type_formula(self.e, ast.expr)); t = self.t
        c.assume(z3.Or(t == NONE, type_formula(t, ast.AST), type_formula(t, list)))
    def code(self, eng, s): return self.e
    def placeholder(self, s, n): return z3.And(cls_of(V.ov(n)) == cid(ast.Name), sel(s, n, "id") == self.tag)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        empty = z3.Not(p.eng.truth(p.s0, self.t))
        return [("template-walked", z3.If(empty, z3.And(p.resultV == self.e, p.trace() == EMPTY), self.walked(p, self.t)))] + p.unchanged("L", "D")
class SpliceExpressionMarker(SpliceExpression):
    label = "mcpyrate.splicing:splice_expression[marker]"
    def facts(self, c):
        c.assume(type_formula(self.e, ASTMarker), type_formula(c.attr(self.e, "body"), ast.expr), z3.Or(type_formula(self.t, ast.AST), type_formula(self.t, list)))
class SpliceExpressionBad(SpliceExpression):
    label = "mcpyrate.splicing:splice_expression[bad arguments]"; must_reach = ("raise",)
    def facts(self, c):
        b = c.attr(self.e, "body"); c.assume(self.e != ABSENT, self.t != ABSENT, c.eng.truth(c.s, self.t))
        ok = z3.Or(type_formula(self.e, ast.expr), z3.And(type_formula(self.e, ASTMarker), type_formula(b, ast.expr)))
        c.assume(z3.Or(z3.Not(ok), z3.Not(z3.Or(type_formula(self.t, ast.AST), type_formula(self.t, list)))))
        c.assume(z3.Implies(type_formula(self.e, ASTMarker), b != ABSENT))
    def post(self, p): return [("typeerror", p.exc_is(TypeError) if p.raised else False)] + p.unchanged("H", "L", "D")

class SpliceStatements(SpliceBase):
    target = "mcpyrate.splicing:splice_statements"; must_reach = ("return", "raise")
    def pre(self, c):
        self.b = c.list("body", "stmt"); self.t = c.list("template", "stmt"); self.tag = c.str("tag")
        return [self.b, self.t, self.tag], {}
    def code(self, eng, s): return self.b
    def placeholder(self, s, n):
        v = sel(s, n, "value"); return z3.And(cls_of(V.ov(n)) == cid(ast.Expr), V.is_obj(v), cls_of(V.ov(v)) == cid(ast.Name), sel(s, v, "id") == self.tag)
    def post(self, p):
        nb = z3.Length(z3.Select(p.s0.L, V.ov(self.b))); nt = z3.Length(z3.Select(p.s0.L, V.ov(self.t)))
        if p.raised: return [("empty-body", z3.And(nb == 0, p.exc_is(ValueError)))] + p.unchanged("H", "L", "D")
        return [("body-nonempty", nb > 0), ("template-walked", z3.If(nt == 0, z3.And(p.resultV == self.b, p.trace() == EMPTY), self.walked(p, self.t)))] + p.unchanged("L", "D")
class SpliceStatementsSingle(SpliceStatements):
    """A single statement is taken as a one-statement list, for either argument."""
    label = "mcpyrate.splicing:splice_statements[single statements]"; must_reach = ("return",)
    def pre(self, c):
        self.b = c.obj("body", ast.AST); self.t = c.obj("template", ast.AST); self.tag = c.str("tag")
        return [self.b, self.t, self.tag], {}
    def code(self, eng, s):
        d = next(d for d in reversed(list(s.frames.values())) if "body" in d and "template" in d); return eng.toV(s, d["body"])
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        tr = p.trace(); ev = V.tv(tr[0])
        d = next(d for d in p.s.frames.values() if "body" in d and "template" in d)
        code = p.eng.toV(p.s, d["body"])
        return [("walked-list", z3.And(z3.Length(tr) == 1, z3.Select(p.s.L, V.ov(ev[1])) == unit(self.t), p.resultV == ev[2])), ("code-list", z3.Select(p.s.L, V.ov(code)) == unit(self.b))] + p.unchanged("L", "D")

# ---------------------------------------------------------------- splice_dialect
doc_of = z3.Function("docpart", SeqV, SeqV); fut_of = z3.Function("futurepart", SeqV, SeqV); rest_of = z3.Function("restpart", SeqV, SeqV)
doctext = z3.Function("doctext", SeqV, V)
taken = {k: z3.Function("taken_" + k, SeqV, SeqV) for k in ("all", "dialects", "macros")}
left = {k: z3.Function("left_" + k, SeqV, SeqV) for k in ("all", "dialects", "macros")}
ismac = z3.Function("ismacroimport_", V, V, Bool)
spliced = z3.Function("spliced", SeqV, SeqV, V, SeqV)
class SpliceDialect(Contract):
    """Order of the result; which statements are moved; docstrings joined; template located at the reference."""
    target = "mcpyrate.splicing:splice_dialect"; must_reach = ("return", "raise")
    def pre(self, c):
        self.b = c.list("body", "stmt"); self.t = c.list("template", "stmt"); self.tag = c.str("tag"); self.ln, self.co = c.var("lineno"), c.var("col_offset")
        for v in (self.ln, self.co): c.assume(z3.Or(v == NONE, V.is_int(v)))
        self.B0, self.T0 = c.lst(self.b), c.lst(self.t); c.assume(old_elem(self.B0, 0, c.s.alloc))
        c.s.ghost["fixed"] = EMPTY; self.memo = {}; self.pc0 = list(c.s.pc)
        return [self.b, self.t, self.tag, self.ln, self.co], {}
    def hooks(self):
        def fix(eng, s, args, kw):
            mode = eng.conc(kw.get("mode", args[2] if len(args) > 2 else PyObj(None)))
            if mode != (True, "overwrite"): eng.oblige(s, "fix-mode", z3.BoolVal(False))
            t, ref = eng.toV(s, args[0]), eng.toV(s, args[1])
            s.meta["ref"] = (sel(s, ref, "lineno"), sel(s, ref, "col_offset"), ref)
            s.ghost["fixed"] = z3.simplify(z3.Concat(s.ghost["fixed"], unit(t))); return [(s, args[0])]
        def split(eng, s, args, kw):
            x = z3.simplify(z3.Select(s.L, V.ov(eng.toV(s, args[0]))))
            ls = [eng.alloc_list(s, f(x)) for f in (doc_of, fut_of, rest_of)]
            s.assume(z3.Length(doc_of(x)) <= 1)
            return [(s, Tup(ls))]
        def docstr(eng, s, args, kw):
            r = doctext(z3.Select(s.L, V.ov(eng.toV(s, args[0])))); s.assume(V.is_str(r)); return [(s, r)]
        def ismi(eng, s, args, kw):
            m = kw.get("magicname", args[1] if len(args) > 1 else PyObj("macros")); m = eng.toV(s, m)
            s.meta["magic"] = m
            return [(s, V.bool(ismac(eng.toV(s, args[0]), m)))]
        def visit(eng, s, args, kw):
            """Determine what the local extractor takes out, and check it on an arbitrary node in an arbitrary heap
            (once per extractor class and values of its free variables: the check assumes nothing about the path)."""
            w = walker_of(eng); C = eng.static_class(s, w); coll = eng.toV(s, sel(s, w, "collected"))
            if not isinstance(C, Cls): raise SpecMismatch("extractor not a local class")
            free = {n.id for n in ast.walk(C.node) if isinstance(n, ast.Name)}
            def val(nm):
                f = C.fid
                while f is not None:
                    if nm in s.frames[f]:
                        v = s.frames[f][nm]; return v.sexpr() if z3.is_expr(v) else repr(getattr(v, "o", type(v).__name__))
                    f = s.frames[f].get("$parent")
            memo = (C.node.lineno, tuple((n, val(n)) for n in sorted(free)))
            if memo not in self.memo: self.memo[memo] = self.extractor(eng, s, w)
            kind = self.memo[memo]
            lst = eng.toV(s, args[0]); x = z3.Select(s.L, V.ov(lst))
            s.L = z3.Store(z3.Store(s.L, V.ov(lst), left[kind](x)), V.ov(coll), taken[kind](x))
            return [(s, args[0])]
        def splice(eng, s, args, kw):
            b, t = (z3.Select(s.L, V.ov(eng.toV(s, a))) for a in args[:2])
            tag = eng.toV(s, args[2]) if len(args) > 2 else eng.toV(s, kw.get("tag", PyObj("__paste_here__")))
            eng.oblige(s, "something-to-paste", z3.Length(b) > 0); s.meta["pasted"] = b                # else splice_statements rejects it
            return [(s, eng.alloc_list(s, spliced(b, t, tag)))]
        def cl(eng, s, args, kw):
            new, old = eng.toV(s, args[0]), eng.toV(s, args[1])
            for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"): eng.setH(s, new, a, sel(s, old, a))
            return [(s, args[0])]
        M = "mcpyrate."
        return {"ext": {M + "astfixers:fix_locations": (fix, "contract of fix_locations (C08)"), M + "coreutils:split_futureimports": (split, "contract of split_futureimports (C13)"),
                        M + "utils:getdocstring": (docstr, "contract of getdocstring (C12)"), M + "coreutils:ismacroimport": (ismi, "contract of ismacroimport (C07)"),
                        M + "walkers:ASTTransformer.visit": (visit, "walker contract (C10)"), M + "splicing:splice_statements": (splice, "contract of splice_statements (this property)"),
                        "ast.copy_location": (cl, "copy_location copies the location attributes")}, "ext_method": generic_visit_hook}
    def extractor(self, eng, s, w):
        g = s.clone(); g.pc = list(self.pc0); cl = cls_of(V.ov(w))
        g.assume(*[f for f in s.pc if z3.is_eq(f) and z3.simplify(f.arg(0)).get_id() == z3.simplify(cl).get_id()])
        havoc_heap(g); c = Ctx(eng, g); node = c.obj("node", ast.AST); coll = c.list("collected"); c.setattr(w, "collected", coll); g.meta.pop("magic", None)
        c.assume(V.ov(node) != V.ov(w), V.ov(w) < g.alloc)
        kinds = set()
        def look(s0, s1, r, tr):
            m = s1.meta.get("magic"); kinds.add(None if m is None else eng.conc(m)[1]); return []
        eng.suppress += 1
        try: Walk(eng, g, w).run(node, "transform", "x", look)
        finally: eng.suppress -= 1
        if len(kinds) != 1: raise SpecMismatch("extractor with several predicates")
        magic = kinds.pop(); kind = magic or "all"
        if kind not in taken: raise SpecMismatch("unknown extractor")
        def pred(s0):
            if magic: return ismac(node, S(magic))
            tg = sel(s0, node, "targets"); sq = z3.Select(s0.L, V.ov(tg)); t0 = sq[0]
            return z3.And(cls_of(V.ov(node)) == cid(ast.Assign), z3.Length(sq) == 1, V.is_obj(t0), cls_of(V.ov(t0)) == cid(ast.Name), sel(s0, t0, "id") == S("__all__"))
        def spec(s0, s1, r, tr):
            if isinstance(r, Exc): return [("noraise", False)]
            rv = eng.toV(s1, r); P = pred(s0); c0, c1 = z3.Select(s0.L, V.ov(coll)), z3.Select(s1.L, V.ov(coll))
            keep = z3.And(rv == node, c1 == c0, tr == (EMPTY if kind == "all" else seq(V.tup(seq(S("generic_visit"), node)))))
            return [("taken-out", z3.Implies(P, z3.And(rv == NONE, c1 == z3.Concat(c0, unit(node)), tr == EMPTY))), ("others-kept", z3.Implies(z3.Not(P), keep)), ("frame", frame_h(s0, s1))]
        Walk(eng, g, w).run(node, "transform", f"extract-{kind}", spec)
        return kind
    loops = (LoopSpec(lambda c: [("in-order", c.s.ghost["fixed"] == c.done)]), LoopSpec(lambda c: []))
    def post(self, p):
        if p.raised: return [("empty-body", z3.And(z3.Length(self.B0) == 0, p.exc_is(ValueError)))] + p.unchanged("H", "L", "D")
        r = z3.Select(p.s.L, V.ov(p.resultV))
        ub, tb = rest_of(self.B0), rest_of(self.T0)
        ub1, tb1 = left["all"](ub), left["all"](tb)
        tb2, ub2 = left["dialects"](tb1), left["dialects"](ub1)
        ud, td = doc_of(self.B0), doc_of(self.T0)
        both = z3.And(z3.Length(ud) > 0, z3.Length(td) > 0)
        ub3 = left["macros"](ub2); pasted = p.s.meta.get("pasted", ub3); nothing = z3.Length(ub3) == 0
        tail = z3.Concat(fut_of(self.T0), fut_of(self.B0), taken["all"](ub), taken["dialects"](tb1), taken["dialects"](ub1), taken["macros"](tb2), taken["macros"](ub2),
                         spliced(pasted, left["macros"](tb2), self.tag))
        single = z3.If(z3.Length(ud) > 0, ud, td)
        d0 = r[0]; dv = sel(p.s, d0, "value")
        sep = z3.StringVal("\n" + "-" * 79 + "\n")
        text = V.str(z3.Concat(V.sv(doctext(ud)), sep, V.sv(doctext(td))))
        rf = p.s.meta.get("ref"); given = z3.And(self.ln != NONE, self.co != NONE)
        empty = z3.Length(self.T0) == 0
        out = [("order[one docstring]", z3.Implies(z3.And(z3.Not(empty), z3.Not(both)), r == z3.Concat(single, tail))),
               ("order[both docstrings]", z3.Implies(z3.And(z3.Not(empty), both), z3.And(r == z3.Concat(unit(d0), tail), cls_of(V.ov(d0)) == cid(ast.Expr), cls_of(V.ov(dv)) == cid(ast.Constant), sel(p.s, dv, "value") == text))),
               ("empty-template", z3.Implies(empty, p.resultV == self.b)),
               ("pasted[rest of the body]", z3.Implies(z3.And(z3.Not(empty), z3.Not(nothing)), pasted == ub3)),
               ("pasted[nothing left of the body]", z3.Implies(z3.And(z3.Not(empty), nothing), z3.And(z3.Length(pasted) == 1, cls_of(V.ov(pasted[0])) == cid(ast.Pass), sel(p.s, pasted[0], "lineno") == p.old(lambda c: c.attr(self.B0[0], "lineno")))))]
        return out
class SpliceDialectLocations(SpliceDialect):
    """All template statements are located at the given position, or at the start of the body."""
    label = "mcpyrate.splicing:splice_dialect[locations]"; must_reach = ("return",)
    def hooks(self):
        h = super().hooks(); split = h["ext"]["mcpyrate.coreutils:split_futureimports"][0]
        def stop(eng, s, args, kw):
            if "reported" not in s.meta:
                s.meta["reported"] = True
                rf = s.meta.get("ref"); given = z3.And(self.ln != NONE, self.co != NONE)
                eng.oblige(s, "all-template-statements", s.ghost["fixed"] == self.T0)
            return split(eng, s, args, kw)
        fix0 = h["ext"]["mcpyrate.astfixers:fix_locations"][0]
        def fix(eng, s, args, kw):
            if "reported" not in s.meta:
                ref = eng.toV(s, args[1]); given = z3.And(self.ln != NONE, self.co != NONE)
                eng.oblige(s, "reference", z3.If(given, z3.And(sel(s, ref, "lineno") == self.ln, sel(s, ref, "col_offset") == self.co), ref == self.B0[0]))
            return fix0(eng, s, args, kw)
        h["ext"]["mcpyrate.coreutils:split_futureimports"] = (stop, "contract of split_futureimports (C13)")
        h["ext"]["mcpyrate.astfixers:fix_locations"] = (fix, "contract of fix_locations (C08)")
        return h
    def post(self, p): return []

CONTRACTS = [SpliceExpression, SpliceExpressionMarker, SpliceExpressionBad, SpliceStatements, SpliceStatementsSingle, SpliceDialect, SpliceDialectLocations, Flatten]
