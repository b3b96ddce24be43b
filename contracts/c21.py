from contracts.base import *
from pyvc.engine import Part, Unsupported, SeqIter
from contracts.c15 import exc_any
from mcpyrate.expander import MacroExpander, MacroCollector
from mcpyrate.core import Done
from mcpyrate.utils import NestingLevelTracker
import mcpyrate.debug as DB

M = "mcpyrate.debug:"; ONCE = "mcpyrate.core:BaseMacroExpander.visit_once"
shown = z3.Function("shown", V, z3.StringSort()); dumped = z3.Function("dumped", V, z3.StringSort()); indented = z3.Function("indented", z3.StringSort(), V, z3.StringSort())

KNOWN = Fold("options_known", z3.BoolSort(), z3.BoolVal(True), lambda acc, k, H: z3.And(acc, cls_of(V.ov(k)) == cid(ast.Constant), z3.Or([rd(H, V.ov(k), z3.StringVal("value")) == S(n) for n in ("unparse", "dump", "detailed", "summary")])), extra=(HeapSort,))
GIVEN = Fold("option_given", z3.BoolSort(), z3.BoolVal(False), lambda acc, k, H, n: z3.Or(acc, rd(H, V.ov(k), z3.StringVal("value")) == V.str(n)), extra=(HeapSort, z3.StringSort()))
class Stepping(Contract):
    """One layer at a time until the collector finds no invocation in the tree; each step is reported once, on stderr, after it was taken; what comes out is the last tree; the hook and the level are restored on every outcome."""
    target = M + "step_expansion"; must_reach = ("return", "raise"); syntax = "expr"; nargs = 0; bad = False; anyargs = False; first = None
    def pre(self, c):
        self.t = c.var("tree"); self.x = c.obj("expander", MacroExpander, exact=True); self.fn = c.str("filename"); self.hook = c.var("debughook"); c.assume(self.t != ABSENT, self.hook != ABSENT, z3.Implies(V.is_obj(self.hook), z3.And(V.ov(self.hook) >= 0, V.ov(self.hook) < c.s.alloc)), z3.Implies(V.is_obj(self.t), V.ov(self.t) < c.s.alloc))
        for k, v in (("filename", self.fn), ("_debughook", self.hook)): c.setattr(self.x, k, v)
        self.lv = c.obj("level", NestingLevelTracker, exact=True); self.st = c.list("stack"); c.setattr(self.lv, "stack", self.st); self.S0 = c.lst(self.st); top = self.S0[z3.Length(self.S0) - 1]; c.assume(z3.Length(self.S0) >= 1, V.is_int(top), V.iv(top) >= 0)
        self.vals = []; el = []
        for i in range(self.nargs):
            k = c.obj(f"arg{i}", ast.Constant, exact=True); v = S(self.first) if self.first and not i else c.str(f"value{i}"); c.setattr(k, "value", v); self.vals.append(v); el.append(k)
        if self.bad: k = c.obj("badarg", ast.AST); c.assume(cls_of(V.ov(k)) != cid(ast.Constant)); el.append(k)
        if len(el) > 1: c.assume(z3.Distinct(*el))
        self.args = c.eng.alloc_list(c.s, seq(*el))
        if self.anyargs: self.args = c.list("options", "AST"); c.assume(self.args != self.st)
        self.A = c.lst(self.args); self.H0 = c.s.H
        g = c.s.ghost; g["cur"] = self.t; g["reported"] = ABSENT; g["reports"] = z3.IntVal(0); g["steps"] = z3.IntVal(0); g["looked"] = ABSENT; g["found"] = z3.BoolVal(False)
        return [self.t], dict(args=self.args, syntax=PyObj(self.syntax), expander=self.x)
    # options
    def opt(self, name):
        if self.anyargs: return GIVEN(self.A, self.H0, z3.StringVal(name))
        return z3.Or([v == S(name) for v in self.vals] + [z3.BoolVal(False)])
    def known(self):
        if self.anyargs: return KNOWN(self.A, self.H0)
        return z3.And([z3.Or([v == S(n) for n in ("unparse", "dump", "detailed", "summary")]) for v in self.vals] + [z3.BoolVal(not self.bad)])
    def stable(self, s): return z3.And(sel(s, self.lv, "stack") == self.st, z3.Select(s.L, V.ov(self.args)) == z3.Select(self.L0, V.ov(self.args)))
    def user(self, s):
        h, m = sel(s, self.x, "_debughook"), self.mine(s); havoc_user(s, [self.st, self.args]); s.assume(sel(s, self.x, "_debughook") == h, sel(s, self.lv, "stack") == self.st)
    def mine(self, s): return None
    def hooks(self):
        def text(f):
            def h(e, s, args, kw):
                b = bound(e, args, kw) if False else dict(zip(("tree",), args), **kw); x = e.toV(s, b["tree"]); b_ = s.clone(); k, c = exc_any(b_); r = V.str(f(x)); return [(s, r)]
            return h
        def unp(e, s, args, kw):
            x = e.toV(s, args[0]); return [(s, V.str(z3.If(z3.And(e.toV(s, kw.get("debug", FALSE)) == TRUE, e.toV(s, kw.get("expander", NONE)) == self.x), shown(x), fresh("text", z3.StringSort()))))]
        def dmp(e, s, args, kw): return [(s, V.str(dumped(e.toV(s, args[0]))))]
        def ind(e, s, args, kw): return [(s, V.str(indented(V.sv(e.toV(s, args[0])), e.toV(s, args[1]))))]
        def prn(e, s, args, kw):
            import sys
            f = kw.get("file"); e.oblige(s, "printed-on-stderr", z3.BoolVal(isinstance(f, PyObj) and f.o is sys.stderr and len(args) == 1))
            x = z3.simplify(e.toV(s, args[0])); y = z3.simplify(V.sv(x))
            if z3.is_app(y) and y.decl().name() == "indented": self.report(e, s, y.arg(0))
            return [(s, NONE)]
        def mk(e, s, args, kw):
            e.oblige(s, "collector.of-this-expander", e.toV(s, args[0] if args else kw["expander"]) == self.x); o = Ctx(e, s).obj("collector", MacroCollector, exact=True); s.meta["mc"] = o; s.ghost["looked"] = ABSENT; s.ghost["found"] = z3.BoolVal(False); return [(s, o)]
        def attr(e, s, v, name):
            if name == "collected" and "mc" in s.meta and e.entails(s, v == s.meta["mc"]):
                l = e.alloc_list(s, fresh("collected", SeqV)); s.assume((z3.Length(z3.Select(s.L, V.ov(l))) > 0) == s.ghost["found"]); return [(s, l)]
        def look(e, s, args, kw):
            if not e.entails(s, e.toV(s, walker_of(e)) == s.meta.get("mc", NONE)): raise SpecMismatch("another collector")
            x = e.toV(s, args[0]); r = s.clone(); k = Exc(exc_any(r))
            f = fresh("found", z3.BoolSort()); s.ghost["found"] = z3.Or(f, z3.And(s.ghost["found"])); s.ghost["looked"] = z3.If(s.ghost["looked"] == ABSENT, x, NONE); return [(s, NONE), (r, k)]
        def clear(e, s, args, kw): s.ghost["found"] = z3.BoolVal(False); s.ghost["looked"] = ABSENT; return [(s, NONE)]
        def once(e, s, args, kw):
            x = e.toV(s, args[0]); g = s.ghost; h = sel(s, self.x, "_debughook")
            e.oblige(s, "step.of-this-expander", e.toV(s, walker_of(e)) == self.x); e.oblige(s, "step.on-the-current-tree", x == g["cur"]); e.oblige(s, "step.only-when-something-to-expand", z3.And(g["found"], g["looked"] == x))
            e.oblige(s, "step.earlier-ones-reported", z3.And(g["reported"] == g["cur"], g["reports"] == g["steps"] + 1))
            e.oblige(s, "step.hook", z3.If(self.opt("detailed"), h != self.hook, h == self.hook))
            self.run_hook(e, s, x); self.user(s); f = s.clone(); s.ghost["steps"] = g["steps"] + 1; y = fresh("stepped"); s.assume(y != ABSENT, z3.Implies(V.is_obj(y), V.ov(y) < s.alloc)); o = e.alloc(s, Done); e.setH(s, o, "body", y); s.ghost["cur"] = y; s.ghost["reported"] = ABSENT
            return [(s, o), (f, Exc(exc_any(f)))]
        col = lambda e, s, a, k: [(s, V.str(fresh("colour", z3.StringSort())))]
        def seta(e, s, o, name, v):
            if name == "_debughook" and isinstance(v, (Fn, Part)): s.meta["hookfn"] = v
        return {"setattr": seta, "unknown_call": self.fmt, "attr": attr, "globals": {("mcpyrate.debug", "_step_expansion_level"): lambda e, s: self.lv}, "construct": {MacroCollector: mk},
                "ext": {"mcpyrate.unparser:unparse_with_fallbacks": (unp, "contract of unparse_with_fallbacks (C01, C06): text, nothing changed"), "mcpyrate.astdumper:dump": (dmp, "contract of dump (C19)"), "textwrap.indent": (ind, "the text, indented"), "mcpyrate.colorizer:setcolor": (col, "text"), "builtins.print": (prn, "prints"), "builtins.repr": (lambda e, s, a, k: [(s, V.str(shown(e.toV(s, a[0]))))], "text"),
                        "mcpyrate.expander.MacroCollector": (mk, "constructor: an empty collector of this expander's invocations (C05)"), "mcpyrate.expander:MacroCollector.visit": (look, "contract of MacroCollector (C05): collects the invocations in the tree"), "mcpyrate.expander:MacroCollector.clear": (clear, "contract of clear (C05)"), ONCE: (once, "contract of visit_once (C04): one layer of expansion, as Done(body)")}}
    def run_hook(self, e, s, x):
        """The installed hook, called by the expander on anything: it only prints."""
        f = s.meta.get("hookfn")
        if f is None: return
        t = s.clone(); t.meta = dict(s.meta, in_hook=True); a = [V.int(fresh("id", z3.IntSort())), fresh("before"), fresh("after"), V.str(fresh("name", z3.StringSort())), fresh("macro")]; t.assume(*[v != ABSENT for v in a]); n = 0
        for u, r in e.call(t, f, a, {}):
            if isinstance(r, Exc): e.oblige(u, "hook.does-not-fail", z3.BoolVal(False)); continue
            n += 1; e.oblige(u, "hook.only-prints", z3.And(u.H == s.H, u.D == s.D, u.DK == s.DK, u.SS == s.SS, z3.Select(u.L, V.ov(self.st)) == z3.Select(s.L, V.ov(self.st)))); tr = u.meta.get("told", ()); e.oblige(u, "hook.reports-the-expansion", z3.Or([z3.And(z3.Or(tr[i] == shown(a[1]), tr[i] == dumped(a[1])), z3.Or(tr[j] == shown(a[2]), tr[j] == dumped(a[2]))) for i in range(len(tr)) for j in range(i + 1, len(tr))] + [z3.BoolVal(False)]))
        if not n: raise SpecMismatch("the hook does not return")
    def fmt(self, e, s, f, args, kw):
        if not self.anyargs: raise SpecMismatch("unknown call")
        return [(s, V.str(shown(e.toV(s, args[0]))))]
    def report(self, e, s, txt):
        if s.meta.get("in_hook"): s.meta["told"] = s.meta.get("told", ()) + (txt,); return
        g = s.ghost; c = g["cur"]; e.oblige(s, "report.shows-the-current-tree", z3.If(self.opt("dump"), z3.Or(txt == dumped(c), txt == shown(c)), txt == shown(c)))
        e.oblige(s, "report.once-per-step", z3.And(g["reported"] != c, g["reports"] == g["steps"])); g["reported"] = c; g["reports"] = g["reports"] + 1
    def inv(self, c):
        g = c.s.ghost; x = c.var("tree")
        out = [("tree", z3.And(x == g["cur"], x != ABSENT, z3.Implies(V.is_obj(x), V.ov(x) < c.s.alloc))), ("looked", g["looked"] == x), ("reported", g["reported"] == x), ("reports", z3.And(g["reports"] == g["steps"] + 1, g["steps"] >= 0)), ("step", c.var("step") == V.int(g["steps"])),
               ("level-kept", z3.And(sel(c.s, self.lv, "stack") == self.st, z3.Select(c.s.L, V.ov(self.st)) == z3.Select(c.pre.L, V.ov(self.st)))), ("hook", sel(c.s, self.x, "_debughook") == sel(c.pre, self.x, "_debughook"))]
        return out
    @property
    def loops(self):
        if not self.anyargs: return (LoopSpec(self.inv),)
        def inv(c):
            f = c.var("formatter"); return [("known", KNOWN(c.done, self.H0)), ("details", z3.And(V.is_bool(c.var("print_details")), V.bv(c.var("print_details")) == GIVEN(c.done, self.H0, z3.StringVal("detailed")))), ("nothing-yet", z3.And(c.s.ghost["steps"] == 0, c.s.ghost["reports"] == 0, c.s.ghost["reported"] == ABSENT)), ("tree", z3.And(c.s.ghost["cur"] == self.t, c.var("tree") == self.t)), ("heap", z3.And(c.s.H == self.H0, c.s.L == c.pre.L))]
        return (LoopSpec(inv, lambda c: KNOWN.axioms(self.A, c.i, self.H0) + GIVEN.axioms(self.A, c.i, self.H0, z3.StringVal("detailed")) + [c.done == z3.Extract(self.A, 0, c.i)]), LoopSpec(self.inv))
    def post(self, p):
        g = p.s.ghost; end = [("level-restored", z3.And(sel(p.s, self.lv, "stack") == self.st, z3.Select(p.s.L, V.ov(self.st)) == self.S0)), ("hook-restored", sel(p.s, self.x, "_debughook") == self.hook)]
        if self.syntax not in ("expr", "block"): return [("refused", z3.And(z3.BoolVal(p.raised), p.exc_is(SyntaxError), g["steps"] == 0) if p.raised else False)] + end
        if p.returned: return end + [("result", p.resultV == g["cur"]), ("nothing-left", z3.And(z3.Not(g["found"]), g["looked"] == g["cur"])), ("all-reported", z3.And(g["reported"] == g["cur"], g["reports"] == g["steps"] + 1)), ("options", self.known())]
        return end + [("bad-option-refused", z3.Implies(z3.Not(self.known()), g["steps"] == 0))]
def V_(label, **kw): return type("Stepping_" + label.replace(" ", "_").replace("-", "_"), (Stepping,), dict(kw, label=f"{M}step_expansion[{label}]", __doc__=Stepping.__doc__))
R = ("raise",)
CONTRACTS = [Stepping, V_("block", syntax="block"), V_("name", syntax="name", must_reach=R), V_("decorator", syntax="decorator", must_reach=R), V_("one option", nargs=1), V_("dump and another", nargs=2, first="dump"), V_("detailed and another", nargs=2, first="detailed"), V_("any number of options", anyargs=True), V_("not a constant", bad=True, must_reach=R), V_("option and not a constant", nargs=1, bad=True, must_reach=R)]

# ---------------------------------------------------------------- bindings reports
import io
from contracts.c12 import colored, COLORIZE
macro_name = z3.Function("macro_function_text", V, z3.StringSort())
def sv(x): return z3.StringVal(x)
def line(k, v, col): return z3.Concat(sv("    "), colored(V.sv(k), col) if col is not None else V.sv(k), sv(": "), macro_name(v), sv("\n"))
PAIR = lambda x: V.tv(x)
LINES = {True: Fold("coloured_lines", z3.StringSort(), sv(""), lambda a, x, col: z3.Concat(a, line(PAIR(x)[0], PAIR(x)[1], col)), extra=(V,)), False: Fold("plain_lines", z3.StringSort(), sv(""), lambda a, x: z3.Concat(a, line(PAIR(x)[0], PAIR(x)[1], None)))}
items_of = z3.Function("items_of", V, SeqV); items_sorted = z3.Function("sorted_items", V, SeqV)
class FormatBindings(Contract):
    """One line per binding, in the order of the names: the name and the macro function; the local bindings unless all are asked for; nothing changed."""
    target = M + "format_bindings"; must_reach = ("return",); color = False; glob = None; empty = False
    def pre(self, c):
        self.eng = c.eng; self.x = c.obj("expander", MacroExpander, exact=True); self.fn = c.str("filename"); c.setattr(self.x, "filename", self.fn); self.loc = c.dict("local_bindings"); self.all = c.dict("bindings"); self.d = self.all if self.glob else self.loc; c.s.ghost["out"] = sv(""); c.assume(self.loc != self.all)
        c.setattr(self.x, "local_bindings", self.loc); n = z3.Length(z3.Select(c.s.DK, V.ov(self.d))); c.assume(n == 0 if self.empty else n > 0); self.IT = items_sorted(self.d); c.assume(z3.Length(self.IT) == n)
        return [self.x], dict({} if self.glob is None else {"globals_too": PyObj(self.glob)}, **({"color": PyObj(True)} if self.color else {}))
    def hooks(self):
        def attr(e, s, v, name):
            if name == "bindings" and e.entails(s, v == self.x): return [(s, self.all)]
        def mk(e, s, a, k): o = fresh("stringio"); s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc); s.meta["io"] = z3.simplify(o); s.meta["cls"] = io.StringIO; return [(s, o)]
        def wi(e, s, c, optvars, body, fr):
            if not (is_v(c) and c.eq(s.meta.get("io", NONE))): return None
            out = []
            for t, x in e.assign_target(optvars, c, s, fr): out += e.block(body, t, fr)
            return out
        def at(e, s, v, name):
            if is_v(v) and v.eq(s.meta.get("io", NONE)) and name in ("write", "getvalue"):
                f = fresh(name); s.assume(V.is_obj(f)); s.meta[("io", z3.simplify(f).get_id())] = (name, f); return [(s, f)]
            return attr(e, s, v, name)
        def call(e, s, f, args, kw):
            n = s.meta.get(("io", z3.simplify(e.toV(s, f)).get_id()))
            if n is None: raise SpecMismatch("unknown call")
            if n[0] == "getvalue": return [(s, V.str(s.ghost["out"]))]
            x = V.sv(e.toV(s, args[0])); 
            if "head" not in s.meta: s.meta["head"] = x
            s.ghost["out"] = z3.Concat(s.ghost["out"], x); return [(s, NONE)]
        def items(e, s, v):
            """The items of the dictionary that is to be shown, as a list (opaque, to be sorted)."""
            try: it = e.as_iter(s, v)
            except Unsupported: return None
            if not isinstance(it, SeqIter): return None
            t = s.clone(); j = fresh("j", z3.IntSort()); ks = z3.Select(s.DK, V.ov(self.d)); t.assume(j >= 0, j < z3.Length(ks)); x = e.toV(t, it.elt(t, j))
            if not e.entails(t, z3.And(it.n == z3.Length(ks), x == V.tup(seq(ks[j], z3.Select(z3.Select(s.D, V.ov(self.d)), ks[j]))))): raise SpecMismatch("not the items of these bindings")
            l = e.alloc_list(s, items_of(self.d)); return [(s, l)]
        def srt(e, s, l, kw):
            if kw or not e.entails(s, z3.Select(s.L, V.ov(l)) == items_of(self.d)): raise SpecMismatch("sorted with a key, or not the items")
            r = e.alloc_list(s, self.IT); return [(s, r)]
        def fm(e, s, a, k): return [(s, V.str(macro_name(e.toV(s, a[0]))))]
        col = lambda e, s, a, k: [(s, V.str(z3.Const("colour_code", z3.StringSort())))]
        return {"attr": at, "unknown_call": call, "with": wi, "sorted": srt, "list": items, "ext": dict(COLORIZE, **{"_io.StringIO": (mk, "a text buffer"), "mcpyrate.colorizer:setcolor": (col, "text"), "mcpyrate.utils:format_macrofunction": (fm, "contract of format_macrofunction (C12)")})}
    @property
    def loops(self):
        from mcpyrate.colorizer import ColorScheme
        def lines(c, sq): 
            return LINES[True](sq, c.s.meta["col"]) if self.color else LINES[False](sq)
        ex = self.extra
        return (LoopSpec(lambda c: [("lines", c.s.ghost["out"] == z3.Concat(c.s.meta["head"], LINES[self.color](c.done, *ex(c.s))))], lambda c: LINES[self.color].axioms(self.IT, c.i, *ex(c.s)) + [z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(self.IT)), (lambda x: z3.And(V.is_tup(x), z3.Length(V.tv(x)) == 2, V.is_str(V.tv(x)[0]), V.tv(x)[1] != ABSENT, c.done == z3.Extract(self.IT, 0, c.i)))(self.IT[c.i]))]),)   # items are pairs, names are strings
    def extra(self, s):
        from mcpyrate.colorizer import ColorScheme
        return (self.eng.opaqueV(s, PyObj(ColorScheme.MACRONAME)),) if self.color else ()
    def finish(self, eng, s0, s, o, args): return [(s, o)]
    def post(self, p):
        if p.raised: return [("noraise", False)]
        from contracts.c14 import mentions
        h = p.s.meta.get("head")
        if h is None: return [("written", False)]
        self.eng = p.eng
        out = [("names-the-file", mentions(h, V.sv(self.fn)))] + p.unchanged("H", "D", "DK")
        if self.empty: return out + [("text", z3.PrefixOf(h, V.sv(p.resultV)))]
        return out + [("lines", p.resultV == V.str(z3.Concat(h, LINES[self.color](self.IT, *self.extra(p.s)))))]
FORMAT = [type(f"FormatBindings_{n}", (FormatBindings,), dict(label=f"{M}format_bindings[{n.replace('_', ' ')}]", __doc__=FormatBindings.__doc__, **d)) for n, d in (("default", {}), ("local", dict(glob=False)), ("all", dict(glob=True)), ("colour", dict(color=True)), ("all_colour", dict(glob=True, color=True)), ("none", dict(empty=True)), ("none_at_all", dict(glob=True, empty=True, color=True)))]

class ShowBindings(Contract):
    """Prints the report on the local bindings on stderr; evaluates to None; nothing changed."""
    target = M + "show_bindings"; must_reach = ("return",); syntax = "name"
    def pre(self, c): self.x = c.obj("expander", MacroExpander, exact=True); self.t = c.obj("tree", ast.AST); c.s.ghost["n"] = z3.IntVal(0); return [self.t], dict(syntax=PyObj(self.syntax), expander=self.x, invocation=c.obj("invocation", ast.AST), args=c.list("args"))
    def hooks(self):
        def fb(e, s, a, k):
            b = bound(e, a, k); e.oblige(s, "report.of-this-expander", e.toV(s, b["expander"]) == self.x); e.oblige(s, "report.local", z3.Not(e.truth(s, b.get("globals_too", PyObj(False))) if is_v(b.get("globals_too", 0)) else z3.BoolVal(bool(getattr(b.get("globals_too"), "o", False))))); return [(s, V.str(z3.Const("the_report", z3.StringSort())))]
        def prn(e, s, args, kw):
            import sys
            f = kw.get("file"); e.oblige(s, "printed-on-stderr", z3.And(z3.BoolVal(isinstance(f, PyObj) and f.o is sys.stderr and len(args) == 1), e.toV(s, args[0]) == V.str(z3.Const("the_report", z3.StringSort())))); s.ghost["n"] = s.ghost["n"] + 1; return [(s, NONE)]
        return {"ext": {M + "format_bindings": (fb, "contract of format_bindings"), "builtins.print": (prn, "prints")}}
    def post(self, p):
        if self.syntax != "name": return [("refused", z3.And(p.exc_is(SyntaxError), p.s.ghost["n"] == 0) if p.raised else False)]
        return [("none", p.resultV == NONE), ("once", p.s.ghost["n"] == 1)] + p.unchanged("H", "L", "D") if p.returned else [("noraise", False)]
SHOW = [ShowBindings] + [type("ShowBindings_" + k, (ShowBindings,), dict(syntax=k, must_reach=("raise",), label=f"{M}show_bindings[{k}]", __doc__=ShowBindings.__doc__)) for k in ("expr", "block", "decorator")]
CONTRACTS += FORMAT + SHOW

# ---------------------------------------------------------------- location validator
from mcpyrate.debug import SourceLocationInfoValidator
class Validator(Contract):
    """A node is reported, with exactly the required fields it lacks, iff it lacks one and is not ignored; its children are looked at; the tree is left alone."""
    target = M + "SourceLocationInfoValidator.examine"; must_reach = ("return",); fields = ("lineno", "col_offset"); container = "set"
    def pre(self, c):
        w = self.w = c.obj("self", SourceLocationInfoValidator, exact=True); self.t = c.obj("tree", ast.AST); c.assume(self.t != w); self.coll = c.list("collected"); self.C0 = c.lst(self.coll); self.ig = getattr(c, self.container)("ignore"); self.n = c.int("n")
        self.fs = c.eng.alloc_list(c.s, seq(*[S(f) for f in self.fields])); self.has = [c.attr(self.t, f) != ABSENT for f in self.fields]
        for k, v in (("collected", self.coll), ("ignore", self.ig), ("n", self.n), ("check_fields", self.fs)): c.setattr(w, k, v)
        self.ignored = z3.Select(z3.Select(c.s.SS, V.ov(self.ig)), self.t) if self.container == "set" else z3.Select(z3.Select(c.s.D, V.ov(self.ig)), self.t) != ABSENT; self.txt = V.str(z3.Const("context_text", z3.StringSort())); return [w, self.t], {}
    def hooks(self):
        def fc(e, s, a, k): e.oblige(s, "context.of-the-node", e.toV(s, a[0]) == self.t); return [(s, self.txt)]
        return {"ext_method": generic_visit_hook, "ext": {"mcpyrate.utils:format_context": (fc, "contract of format_context (C12)")}}
    def post(self, p):
        if p.raised: return [("noraise", False)]
        new = z3.Select(p.s.L, V.ov(self.coll)); n = z3.Length(self.C0); item = V.tv(new[n]); miss = z3.Select(p.s.L, V.ov(item[2])); bad = z3.And(z3.Not(self.ignored), z3.Not(z3.And(self.has)))
        want = EMPTY
        for f, h in zip(self.fields, self.has): want = z3.Concat(want, z3.If(h, EMPTY, unit(S(f))))
        return [("reported-" + nm, z3.If(bad, f, new == self.C0)) for nm, f in (("one", z3.And(z3.Length(new) == n + 1, z3.Extract(new, 0, n) == self.C0)), ("item", z3.And(V.is_tup(new[n]), z3.Length(item) == 3, item[0] == self.t, item[1] == self.txt)), ("missing", miss == want))] + [ ("children", p.trace() == seq(V.tup(seq(S("generic_visit"), self.t)))), p.unchanged_except("L", [V.ov(self.coll)])] + p.unchanged("H", "D", "SS")
class ValidatorDefaultIgnore(Validator): label = M + "SourceLocationInfoValidator.examine[ignore as a dictionary]"; container = "dict"
class ValidatorThree(Validator): label = M + "SourceLocationInfoValidator.examine[three fields]"; fields = ("lineno", "end_lineno", "ctx")
class ValidatorNone(Validator): label = M + "SourceLocationInfoValidator.examine[no fields]"; fields = ()
CONTRACTS += [Validator, ValidatorDefaultIgnore, ValidatorThree, ValidatorNone]
