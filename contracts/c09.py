from contracts.base import *
from mcpyrate import core as CO
from mcpyrate.markers import ASTMarker
import mcpyrate.markers as MK

markers_in = z3.Function("markers_in", V, SeqV)        # the cls instances in the tree, in the order the walker meets them
def is_class(eng, s, k, K):
    """the class value k is K."""
    if isinstance(k, Cls): return z3.BoolVal(k.pyobj is K)
    return z3.BoolVal(False) if k is None else eng.toV(s, k) == eng.toV(s, PyObj(K))
class GetMarkers(Contract):
    """At each node: collected iff it is a cls instance; its children are always visited. The result is what was collected."""
    target = "mcpyrate.markers:get_markers"; label = "mcpyrate.markers:get_markers[any marker]"; K = ASTMarker; dflt = False
    def pre(self, c):
        self.t = c.var("tree"); c.assume(z3.Or(type_formula(self.t, ast.AST), type_formula(self.t, list))); self.memo = False
        return [self.t] + ([] if self.dflt else [PyObj(self.K)]), {}
    def hooks(self):
        def visit(eng, s, args, kw):
            w = walker_of(eng); coll = eng.toV(s, sel(s, w, "collected")); eng.oblige(s, "starts-empty", z3.Select(s.L, V.ov(coll)) == EMPTY)
            c = Ctx(eng, s.clone()); node = c.obj("node", ast.AST); before = fresh("before", SeqV)
            def prep(st):
                for f in c.s.pc[len(s.pc):]: st.assume(f)
                st.meta.update({k: v for k, v in c.s.meta.items() if k not in st.meta}); st.assume(node != w); st.L = z3.Store(st.L, V.ov(coll), before)
            def spec(s0, s1, r, tr):
                if isinstance(r, Exc): return [("noraise", False)]
                is_m = type_formula(node, self.K)
                return [("collects-exactly-markers", z3.Select(s1.L, V.ov(coll)) == z3.If(is_m, z3.Concat(before, unit(node)), before)), ("children-visited", tr == seq(V.tup(seq(S("generic_visit"), node)))),
                        ("same-list", sel(s1, w, "collected") == coll), ("frame", frame_h(s0, s1)), ("frameL", frame_c("L", s0, s1, [coll]))]
            Walk(eng, s, w).run(node, "examine", "node", spec, prep)
            log(s, S("walk"), eng.toV(s, args[0])); s.L = z3.Store(s.L, V.ov(coll), markers_in(eng.toV(s, args[0]))); return [(s, PyObj(None))]
        return {"ext": {"mcpyrate.walkers:ASTVisitor.visit": (visit, "walker contract (C10): visits the nodes in order, calling examine on each")}, "ext_method": generic_visit_hook}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("walked-once", p.trace() == seq(V.tup(seq(S("walk"), self.t)))), ("result", z3.Select(p.s.L, V.ov(p.resultV)) == markers_in(self.t))] + p.unchanged("H", "L", "D")
class GetMarkersDefault(GetMarkers): label = "mcpyrate.markers:get_markers[default class]"; dflt = True
class GetMarkersDone(GetMarkers): label = "mcpyrate.markers:get_markers[a subclass]"; K = CO.Done

class DeleteMarkers(Contract):
    """At each node: a cls marker is replaced by its processed content (or removed, if empty); any other node is kept and its children processed."""
    target = "mcpyrate.markers:delete_markers"; label = "mcpyrate.markers:delete_markers[any marker]"; K = ASTMarker; dflt = False
    def pre(self, c):
        self.t = c.var("tree"); c.assume(z3.Or(type_formula(self.t, ast.AST), type_formula(self.t, list))); self.inside = False
        return [self.t] + ([] if self.dflt else [PyObj(self.K)]), {}
    def hooks(self):
        def visit(eng, s, args, kw):
            if self.inside:
                r = fresh("visited"); s.assume(r != ABSENT); log(s, S("visit"), eng.toV(s, args[0]), r); return [(s, r)]
            w = walker_of(eng); c = Ctx(eng, s.clone()); node = c.obj("node", ast.AST); body = c.attr(node, "body")
            def prep(st):
                for f in c.s.pc[len(s.pc):]: st.assume(f)
                st.meta.update({k: v for k, v in c.s.meta.items() if k not in st.meta}); st.assume(node != w, z3.Implies(type_formula(node, self.K), body != ABSENT))
            def spec(s0, s1, r, tr):
                if isinstance(r, Exc): return [("noraise", False)]
                rv = eng.toV(s1, r); m = type_formula(node, self.K); ev = V.tv(tr[0])
                return [("removed-if-empty", z3.Implies(z3.And(m, body == NONE), z3.And(rv == NONE, tr == EMPTY))),
                        ("content", z3.Implies(z3.And(m, body != NONE), z3.And(z3.Length(tr) == 1, ev[0] == S("visit"), ev[1] == body, rv == ev[2]))),
                        ("others-kept", z3.Implies(z3.Not(m), z3.And(rv == node, tr == seq(V.tup(seq(S("generic_visit"), node)))))), ("frame", frame_h(s0, s1)), ("frameL", frame_c("L", s0, s1))]
            self.inside = True
            try: Walk(eng, s, w).run(node, "transform", "node", spec, prep)
            finally: self.inside = False
            r = fresh("walked"); s.assume(r != ABSENT); log(s, S("walk"), eng.toV(s, args[0]), r); return [(s, r)]
        return {"ext": {"mcpyrate.walkers:ASTTransformer.visit": (visit, "walker contract (C10): visits the nodes in order, calling transform on each")}, "ext_method": generic_visit_hook}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        tr = p.trace(); ev = V.tv(tr[0])
        return [("walked-once", z3.And(z3.Length(tr) == 1, ev[0] == S("walk"), ev[1] == self.t, p.resultV == ev[2]))] + p.unchanged("H", "L", "D")
class DeleteMarkersDefault(DeleteMarkers): label = "mcpyrate.markers:delete_markers[default class]"; dflt = True
class DeleteMarkersDone(DeleteMarkers): label = "mcpyrate.markers:delete_markers[a subclass]"; K = CO.Done

class CheckNone(Contract):
    """Raises exactly when get_markers finds some (of the given class, or of any class)."""
    target = "mcpyrate.markers:check_no_markers_remaining"; must_reach = ("return", "raise"); given = None
    def pre(self, c): self.t = c.obj("tree", ast.AST); self.fn = c.str("filename"); self.L = fresh("found", SeqV); return [self.t], dict({"filename": self.fn}, **({"cls": PyObj(self.given)} if self.given else {}))
    def hooks(self):
        def gm(eng, s, args, kw):
            b = bound(eng, args, kw); k = b.get("cls", PyObj(ASTMarker)); want = self.given or ASTMarker
            eng.oblige(s, "class", z3.And(eng.toV(s, b["tree"]) == self.t, is_class(eng, s, k, want))); l = eng.alloc_list(s, self.L); s.ghost["got"] = z3.BoolVal(True); return [(s, l)]
        text = lambda eng, s, args, kw: [(s, V.str(fresh("text", Str)))]
        return {"ext": {"mcpyrate.markers:get_markers": (gm, "contract of get_markers (this property)"), "mcpyrate.utils:format_context": (text, "text only"), "mcpyrate.utils:format_location": (text, "text only (C12)")}}
    loops = tuple(LoopSpec(lambda c: []) for _ in range(4))
    def post(self, p):
        if p.returned: return [("none-found", z3.And(self.L == EMPTY, p.resultV == NONE)), ("looked", "got" in p.s.ghost)] + p.unchanged("H", "L", "D")
        return [("some-found", self.L != EMPTY), ("error", p.exc_is(CO.MacroExpansionError))]
class CheckNoneDone(CheckNone): label = "mcpyrate.markers:check_no_markers_remaining[a given class]"; given = CO.Done

# ---------------------------------------------------------------- global postprocessing
post_of = z3.Function("postprocessed_by", V, V, V)       # what postprocessor f returns for tree t
"""The tree after the first postprocessors."""
THREAD = Fold("threaded", V, lambda t: t, lambda acc, f, t: post_of(f, acc), extra=(V,))
POSTCALLS = Fold("postprocessor_calls", SeqV, EMPTY, lambda acc, f: z3.Concat(acc, unit(f)))
class GlobalPostprocess(Contract):
    """Markers of the expander removed, contexts fixed on possibly shared nodes, then each registered postprocessor once, in registration order."""
    target = "mcpyrate.core:global_postprocess"
    def pre(self, c):
        self.t = c.var("tree"); c.assume(z3.Or(type_formula(self.t, ast.AST), type_formula(self.t, list))); self.reg = c.list("global_postprocessors", "any"); self.R = c.lst(self.reg); return [self.t], {}
    def hooks(self):
        def dm(eng, s, args, kw):
            b = bound(eng, args, kw); k = b.get("cls"); eng.oblige(s, "expander-markers-deleted-first", z3.And(eng.toV(s, b["tree"]) == self.t, is_class(eng, s, k, CO.MacroExpanderMarker), s.ghost["trace"] == EMPTY))
            r = fresh("without_markers"); s.assume(r != ABSENT); log(s, S("delete")); s.meta["t1"] = r; return [(s, r)]
        def fx(eng, s, args, kw):
            b = bound(eng, args, kw); eng.oblige(s, "contexts-fixed-next", z3.And(eng.toV(s, b["tree"]) == s.meta.get("t1", ABSENT), eng.toV(s, b["copy_seen_nodes"]) == TRUE, z3.Length(s.ghost["trace"]) == 1))
            r = fresh("fixed"); s.assume(r != ABSENT); log(s, S("fix")); s.meta["t2"] = self.t2 = r; s.ghost["trace"] = EMPTY; return [(s, r)]
        def call(eng, s, f, args, kw):
            fv = eng.toV(s, f); x = eng.toV(s, args[0]); eng.oblige(s, "called-with-the-tree", z3.BoolVal(len(args) == 1 and not kw)); havoc_user(s, [self.reg]); s.ghost["trace"] = z3.Concat(s.ghost["trace"], unit(fv)); r = post_of(fv, x); s.assume(r != ABSENT); return [(s, r)]
        return {"globals": {("mcpyrate.core", "global_postprocessors"): lambda eng, s: self.reg}, "unknown_call": call,
                "ext": {"mcpyrate.markers:delete_markers": (dm, "contract of delete_markers (this property)"), "mcpyrate.astfixers:fix_ctx": (fx, "contract of the ctx fixer (C08)")}}
    @property
    def loops(self):
        return (LoopSpec(lambda c: [("once-each-in-order", c.s.ghost["trace"] == POSTCALLS(c.done)), ("threaded", c.var("tree") == THREAD(c.done, self.t2)), ("registry", c.lst(self.reg) == self.R)], lambda c: POSTCALLS.axioms(self.R, c.i) + THREAD.axioms(self.R, c.i, self.t2)),)
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        if "t2" not in p.s.meta: return [("contexts-fixed", False)]
        return [("all-called", p.trace() == POSTCALLS(self.R)), ("result", p.resultV == THREAD(self.R, p.s.meta["t2"])), ("registry-kept", z3.Select(p.s.L, V.ov(self.reg)) == self.R)]

class Register(Contract):
    """Appended at the end, unless already registered."""
    target = "mcpyrate.core:add_postprocessor"
    def pre(self, c): self.reg = c.list("global_postprocessors", "any"); self.R = c.lst(self.reg); self.f = c.var("function"); c.assume(self.f != ABSENT, V.is_obj(self.f)); return [self.f], {}
    def hooks(self): return {"globals": {("mcpyrate.core", "global_postprocessors"): lambda eng, s: self.reg}}
    def want(self): return z3.If(z3.Contains(self.R, unit(self.f)), self.R, z3.Concat(self.R, unit(self.f)))
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("registry", z3.Select(p.s.L, V.ov(self.reg)) == self.want()), p.unchanged_except("L", [V.ov(self.reg)])] + p.unchanged("H", "D")
class Unregister(Register):
    """Removed if registered; no effect (and no error) otherwise."""
    target = "mcpyrate.core:remove_postprocessor"
    def want(self):
        i = z3.IndexOf(self.R, unit(self.f), 0); return z3.If(z3.Contains(self.R, unit(self.f)), z3.Concat(z3.Extract(self.R, 0, i), z3.Extract(self.R, i + 1, z3.Length(self.R) - i - 1)), self.R)

CONTRACTS = [GetMarkers, GetMarkersDefault, GetMarkersDone, DeleteMarkers, DeleteMarkersDefault, DeleteMarkersDone, CheckNone, CheckNoneDone, GlobalPostprocess, Register, Unregister]
