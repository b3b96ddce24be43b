from contracts.base import *
from contracts.c04 import Core, BME
from mcpyrate import core as CO
MAE = CO.MacroApplicationError
HINT = "An exception occurred during macro expansion.\n\nMacro use site (most recent macro application last):"
def sv(x): return V.sv(x)

class Expand(Core):
    """One macro invocation: the bound macro is called once with the documented arguments; a valid output goes on to postprocessing, everything else becomes a
    `MacroApplicationError` that carries the use site and whose cause is the original exception."""
    target = "mcpyrate.core:BaseMacroExpander.expand"; must_reach = ("return", "raise"); kind = "node"; rlimit = 40_000_000
    def pre(self, c):
        self.expander(c); c.assume(self.hook == NONE); self.syn, self.tgt, self.nm, self.t, self.sc = c.str("syntax"), c.obj("target", ast.AST), c.str("macroname"), c.var("tree"), c.str("sourcecode"); self.kw = c.dict("kw")
        self.macro = z3.Select(z3.Select(c.s.D, V.ov(self.binds)), self.nm); self.loc = z3.Const("use_site", Str); c.assume(self.t != ABSENT)
        c.assume(z3.Implies(self.macro != ABSENT, z3.And(V.is_obj(self.macro), truthy_obj(V.ov(self.macro)), *[z3.Not(isa(cls_of(V.ov(self.macro)), cid(K))) for K in (list, dict, set, tuple, ast.AST)])), V.ov(self.kw) != V.ov(self.binds))
        K = z3.Select(c.s.DK, V.ov(self.kw))
        self.kw0 = z3.Select(c.s.D, V.ov(self.kw)); self.someArg = z3.Const("some_key", Str); c.assume(z3.Implies(z3.Length(K) == 0, z3.Select(self.kw0, V.str(self.someArg)) == ABSENT))
        return [self.w, self.syn, self.tgt, self.nm, self.t, self.sc], {"kw": self.kw}
    def outcome(self, eng, b):
        """One result of the macro, of the kind under study."""
        r = fresh("macro_output"); b.assume(r != ABSENT)
        if self.kind == "node": b.assume(z3.Or(r == NONE, type_formula(r, ast.AST)))
        elif self.kind == "list": b.assume(type_formula(r, list))
        else: b.assume(z3.Not(r == NONE), z3.Not(type_formula(r, ast.AST)), z3.Not(type_formula(r, list)))
        return r
    def hooks(self):
        def site(eng, s, args, kw):
            b = bound(eng, args, kw); eng.oblige(s, "use-site", z3.And(eng.toV(s, b["filename"]) == self.fn, eng.toV(s, b["tree"]) == self.tgt, eng.toV(s, b["sourcecode"]) == self.sc)); return [(s, V.str(self.loc))]
        def call(eng, s, f, args, kw):
            if not eng.entails(s, eng.toV(s, f) == self.macro): return None
            st = kw.get("**", []); k = {x: y for x, y in kw.items() if x != "**"}
            if len(args) != 1 or len(st) != 1 or k: raise SpecMismatch("macro called in another way")
            d = z3.Select(s.D, V.ov(eng.toV(s, st[0]))); P = lambda n: z3.Select(d, S(n))
            eng.oblige(s, "macro.tree", eng.toV(s, args[0]) == self.t)
            for n, v in (("syntax", self.syn), ("expander", self.w), ("invocation", self.tgt)): eng.oblige(s, f"macro.named-argument.{n}", P(n) == v)
            eng.oblige(s, "macro.other-named-arguments", z3.Implies(z3.And(*[self.someArg != n for n in ("syntax", "expander", "invocation")]), z3.Select(d, V.str(self.someArg)) == z3.Select(self.kw0, V.str(self.someArg))))
            out = []; keep = sel(s, self.w, "_debughook")
            def user(b): havoc_user(b); b.assume(sel(b, self.w, "_debughook") == keep)
            b = s.clone(); user(b); r = self.outcome(eng, b); log(b, S("macro"), r); out.append((b, r))
            if self.kind == "node":
                b = s.clone(); user(b); e = fresh("exc"); b.assume(type_formula(e, BaseException)); log(b, S("raised"), e)
                cause = sel(b, e, "__cause__"); args_ = sel(b, e, "args"); b.ghost["e"] = e; b.ghost["cause"] = cause; b.ghost["msg"] = V.tv(args_)[0]
                b.assume(sel(b, e, "__traceback__") != ABSENT, V.ov(e) < b.alloc + b.nalloc)
                b.assume(z3.Or(cause == NONE, z3.And(type_formula(cause, BaseException), truthy_obj(V.ov(cause)), *[z3.Not(isa(cls_of(V.ov(cause)), cid(K))) for K in (list, dict, set, tuple, ast.AST)])))
                b.assume(z3.Implies(type_formula(e, MAE), z3.And(V.is_tup(args_), z3.Length(V.tv(args_)) == 1, V.is_str(V.tv(args_)[0]))))
                m, rest, lf = sv(V.tv(args_)[0]), z3.Const("older_sites", Str), z3.StringVal("\n"); head = z3.StringVal(HINT + "\n"); parts = str_split(m, lf); b.ghost["rest"] = rest
                b.assume(z3.Length(parts) >= 1, V.is_str(parts[0]))
                # str.split/join: a message that starts with the two-line heading is that heading and what join gives back for the remaining lines
                tail = z3.SubSeq(parts, 3, z3.Length(parts) - 3)
                b.assume(z3.Implies(m == z3.Concat(head, rest), z3.And(z3.Length(parts) >= 4, parts[0] == S(HINT.split("\n")[0]), str_join(lf, tail) == rest)))
                out.append((b, Exc(e, None)))
            return out
        def aslist(eng, s, v):
            v = eng.toV(s, v)
            if self.kind == "list": return None
            a = s.clone(); o = eng.alloc_list(a, fresh("elements", SeqV)); a.ghost["listed"] = o; a.ghost["Lat"] = a.L; log(a, S("listed"), v, o)
            b = s.clone(); e = fresh("exc"); b.assume(type_formula(e, BaseException)); log(b, S("not-listable"), e); b.ghost["e"] = e; havoc_user(b)
            return [(a, o), (b, Exc(e, None))]
        def post(eng, s, args, kw):
            b = bound(eng, args, kw); x = eng.toV(s, b["expansion"]); eng.oblige(s, "postprocess.target", eng.toV(s, b["target"]) == self.tgt); r = fresh("expanded"); s.assume(r != ABSENT)
            s.ghost["sent"] = x; s.ghost["sentL"] = z3.Select(s.L, V.ov(x)); s2 = s.clone(); log(s, S("postprocess"), r); havoc_user(s2); e = fresh("exc"); s2.assume(type_formula(e, BaseException)); log(s2, S("postprocess-raised"), e)
            return [(s, r), (s2, Exc(e, None))]
        return {"unknown_call": call, "list": aslist, "attr": self.attr, "ext": {"mcpyrate.utils:format_location": (site, "a text naming the file, the line and the source"), "mcpyrate.core:BaseMacroExpander._visit_expansion": (post, "contract of _visit_expansion (C04)")}}
    def report(self, p, cause):
        """The error is a use-site report: its type, its text, its cause."""
        own = z3.Concat(self.loc, z3.StringVal("\nin "), sv(self.syn), z3.StringVal(" macro invocation for '"), sv(self.nm), z3.StringVal("'")); a = sel(p.s, p.exc.v, "args")
        self.own = own; return [("type", p.exc_is(MAE)), ("cause", sel(p.s, p.exc.v, "__cause__") == cause)], sv(V.tv(a)[0])
    def tags(self, p):
        """Names of the logged events on this path, in order."""
        t = z3.simplify(p.trace()); out = []
        def w(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_SEQ_CONCAT:
                for ch in x.children(): w(ch)
            elif k == z3.Z3_OP_SEQ_UNIT: out.append(z3.simplify(V.sv(V.tv(x.arg(0))[0])).as_string())
        w(t); return out
    def post(self, p):
        tr = p.trace(); ev = self.tags(p); val = lambda i: V.tv(tr[i])[1]; g = p.s.ghost; unbound = self.macro == ABSENT
        j = z3.Int("j")
        def isnode(sq): return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.Length(sq)), type_formula(sq[j], ast.AST)))
        if "postprocess" in ev or "postprocess-raised" in ev:
            out = [("outcome-passed-on", (p.resultV if p.returned else p.exc.v) == val(len(ev) - 1)), ("returned-iff", z3.BoolVal(p.returned == (ev[-1] == "postprocess"))), ("macro-called-once", z3.And(z3.BoolVal(ev.count("macro") == 1), z3.Not(unbound)))]
            r = val(0)
            if self.kind == "node": return out + [("output", g["sent"] == r)]
            out += [("output-is-a-list-of-nodes", z3.And(type_formula(g["sent"], list), isnode(g["sentL"])))]
            if self.kind == "other": out += [("all-elements", g["sent"] == g["listed"])]
            else: out += [("all-elements", g["sentL"] == g["L0"])]
            return out
        if p.returned: return [("nothing-returned-without-postprocessing", False)]
        if not ev:
            ty, text = self.report(p, None); c = sel(p.s, p.exc.v, "__cause__")
            return [("only-if-unbound", unbound), ty[0], ("cause-is-the-unbound-name-error", type_formula(c, MAE)), ("text", text == self.own)]
        if ev == ["raised"]:
            x = val(0); nested = z3.And(type_formula(x, MAE), g["cause"] != NONE); exc = type_formula(x, Exception); ty, text = self.report(p, z3.If(nested, g["cause"], x))
            m = sv(g["msg"]); lf = z3.StringVal("\n"); hint = z3.StringVal(HINT + "\n")
            return [("not-an-Exception-passes", z3.Implies(z3.Not(exc), p.exc.v == x))] + [(k, z3.Implies(exc, f)) for k, f in ty] + [("text", z3.Implies(z3.And(exc, z3.Not(nested)), text == self.own)),
                    ("outermost-first", z3.Implies(z3.And(exc, nested, m == z3.Concat(hint, g["rest"])), text == z3.Concat(hint, self.own, lf, g["rest"]))),
                    ("second-report-gets-heading", z3.Implies(z3.And(exc, nested, str_split(m, lf)[0] != S(HINT.split("\n")[0])), text == z3.Concat(hint, self.own, lf, m)))]
        bad = ev[-1] == "not-listable"
        ty, text = self.report(p, None); c = sel(p.s, p.exc.v, "__cause__"); isexc = type_formula(val(len(ev) - 1), Exception) if bad else z3.BoolVal(True)
        out = [(k, z3.Implies(isexc, f)) for k, f in (ty[0], ("cause-is-the-output-error", type_formula(c, MAE)), ("text", text == self.own))]
        if bad: return out + [("not-an-Exception-passes", z3.Implies(z3.Not(isexc), p.exc.v == val(len(ev) - 1)))]
        if self.kind == "node": return out + [("valid-output-accepted", False)]
        sq = g["L0"] if self.kind == "list" else z3.Select(g["Lat"], V.ov(g["listed"]))
        return out + [("only-invalid-output-rejected", z3.Not(isnode(sq)))]
class ExpandList(Expand):
    label = "mcpyrate.core:BaseMacroExpander.expand[macro returns a list]"; kind = "list"
    def outcome(self, eng, b): r = super().outcome(eng, b); b.ghost["L0"] = z3.Select(b.L, V.ov(r)); return r
class ExpandOther(Expand): label = "mcpyrate.core:BaseMacroExpander.expand[macro returns another object]"; kind = "other"


from contracts.c07 import InsertCoverageDummy, InsertCoverageDummyOne, InsertCoverageDummyList, copy_location, loc_eq
from mcpyrate.core import Done
class CoverageDummyExpr(Contract):
    """Code that evaluates to None - `(lambda: None)()` - at the place of the invocation, protected from further expansion."""
    target = "mcpyrate.expander:_make_coverage_dummy_expr"
    def pre(self, c): self.x = c.obj("macronode", ast.AST); return [self.x], {}
    def hooks(self): return {"ext": {"ast.copy_location": (copy_location, "copies the location attributes")}}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        s = p.s; is_ = lambda o, C: z3.And(V.is_obj(o), cls_of(V.ov(o)) == cid(C)); at = lambda o, n: sel(s, o, n); none = lambda o, n: z3.Select(s.L, V.ov(at(o, n))) == EMPTY
        r = p.resultV; call = at(r, "body"); lam = at(call, "func"); ar = at(lam, "args"); v = at(lam, "body")
        return [("done", is_(r, Done)), ("call", z3.And(is_(call, ast.Call), none(call, "args"), none(call, "keywords"))), ("lambda", is_(lam, ast.Lambda)), ("value", z3.And(is_(v, ast.Constant), at(v, "value") == NONE)),
                ("no-parameters", z3.And(is_(ar, ast.arguments), *[none(ar, n) for n in ("posonlyargs", "args", "kwonlyargs", "kw_defaults", "defaults")], at(ar, "vararg") == NONE, at(ar, "kwarg") == NONE)),
                ("located", z3.And([loc_eq(s, o, p.s0, self.x) for o in (call, lam, v)]))] + p.unchanged("H", "L", "D")

CONTRACTS = [Expand, ExpandList, ExpandOther, CoverageDummyExpr, InsertCoverageDummy, InsertCoverageDummyOne, InsertCoverageDummyList]
