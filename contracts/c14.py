from contracts.base import *
from contracts.c15 import exc_any
from contracts.c09 import is_class
from contracts.c07 import ismac, copy_location, loc_eq
from mcpyrate.dialects import Dialect, DialectExpander, StepExpansion

SRC = "mcpyrate.dialects:DialectExpander."
isdialect = z3.Function("is_dialect_class", V, Bool); made_from = z3.Function("made_from", V, V); values_of = z3.Function("values_of_import", V, SeqV)
def text_hook(e, s, a, k): return [(s, V.str(fresh("text", Str)))]
TEXT = {k: (text_hook, "some text, for display") for k in ("mcpyrate.unparser:unparse_with_fallbacks", "mcpyrate.colorizer:setcolor", "mcpyrate.utils:format_macrofunction")}
def partial(e, s, a, k): o = Ctx(e, s).var("partial"); s.assume(V.is_obj(o)); s.meta[("display", z3.simplify(o).get_id())] = z3.simplify(o); return [(s, o)]

def mentions(t, n):
    """One of the parts of the message t is n."""
    t = z3.simplify(t); k = t.decl().kind()
    if k == z3.Z3_OP_ITE: return z3.If(t.arg(0), mentions(t.arg(1), n), mentions(t.arg(2), n))
    if k == z3.Z3_OP_SEQ_CONCAT: return z3.Or([mentions(x, n) for x in t.children()])
    return t == n

class Stage(Contract):
    """Shared: an expander, user transformers that may do anything but replace the expander's private state."""
    debug = False
    def base(self, c):
        self.w = c.obj("self", DialectExpander, exact=True); self.fn = c.str("filename"); c.setattr(self.w, "filename", self.fn); c.setattr(self.w, "debugmode", V.bool(z3.BoolVal(self.debug))); c.setattr(self.w, "_step", c.int("step"))
        self.X = c.var("content"); c.assume(self.X != ABSENT, z3.Implies(V.is_obj(self.X), V.ov(self.X) < c.s.alloc)); c.s.ghost["cur"] = self.X
    def opaque(self, s, x): return z3.And(V.is_obj(x), truthy_obj(V.ov(x)), *[z3.Not(isa(cls_of(V.ov(x)), cid(K))) for K in (list, dict, set, tuple, ast.AST, str, int)])
    def bad(self, s, why, K=Exception, logit=True):
        b = s.clone(); x = exc_any(b, K); b.ghost["error"] = x; b.meta["failed"] = why; return b, Exc(x, None)
    def user(self, s):
        """The dialect's code runs: the expander's own attributes are kept (A-USERCODE)."""
        st = self.w; keep = [(n, sel(s, st, n)) for n in ("filename", "_step")]
        ls = [(o, z3.Select(s.L, V.ov(o))) for o in self.kept(s)]
        havoc_user(s)
        for n, v in keep: s.assume(sel(s, st, n) == v)
        s.assume(V.is_bool(sel(s, st, "debugmode")))
        for o, v in ls: s.assume(z3.Select(s.L, V.ov(o)) == v)
    def kept(self, s): return []
    def own(self, c): return [("own", z3.And(V.is_int(sel(c.s, self.w, "_step")), V.is_bool(sel(c.s, self.w, "debugmode")), sel(c.s, self.w, "filename") == self.fn))]

class Transform(Stage):
    """Until the search finds no more dialect-imports: every class of the found import, in order, is instantiated, given the import's location, and its transformer called on the full output of the one before; NotImplemented means no change; non-dialects, failing constructors and transformers, missing methods and empty outputs are errors."""
    target = SRC + "transform_ast"; find = SRC + "find_dialectimport_ast"; method = "transform_ast"; must_reach = ("return", "raise")
    def pre(self, c):
        self.base(c); c.s.ghost["ran"] = EMPTY; c.s.ghost["due"] = EMPTY; c.s.ghost["insts"] = EMPTY; c.s.ghost["last"] = NONE; c.s.ghost["line"] = NONE; c.s.ghost["col"] = NONE
        return [self.w, self.X], {}
    def bound_values(self, s, d): return None
    def hooks(self):
        def fnd(e, s, args, kw):
            b = bound(e, args, kw); x = [v for k, v in b.items() if k != "self"][0]
            e.oblige(s, "search.in-the-current-code", e.toV(s, x) == s.ghost["cur"]); e.oblige(s, "search.after-all-dialects-of-the-previous-import", s.ghost["ran"] == s.ghost["due"])
            none = s.clone(); none.meta["finished"] = True; out = [(none, PyObj(None)), self.bad(s, "search")]
            c = Ctx(e, s); d = fresh("bindings"); D = fresh("Dct", DictVal); K = fresh("keys", SeqV)
            self.user(s)                                                             # the search may rewrite the tree, and imports the dialect's module
            s.assume(V.is_obj(d), V.ov(d) >= s.alloc + s.nalloc, cls_of(V.ov(d)) == cid(dict), isa(cls_of(V.ov(d)), cid(dict))); na = fresh("alloc", Int); s.assume(na > V.ov(d)); s.alloc, s.nalloc = na, 0
            s.D, s.DK = z3.Store(s.D, V.ov(d), D), z3.Store(s.DK, V.ov(d), K); s.meta[("cls", z3.simplify(d).get_id())] = dict; s.meta[("keep", z3.simplify(d).get_id())] = z3.simplify(d)
            j = z3.Int("j"); s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.Length(K)), z3.And(V.is_str(K[j]), self.cls_ok(z3.Select(D, K[j]), s)))))
            ln, co = fresh("lineno"), fresh("col"); s.assume(ln != ABSENT, co != ABSENT); s.ghost["line"], s.ghost["col"] = ln, co
            s.ghost["due0"] = s.ghost["due"]; s.ghost["K"], s.ghost["D"] = K, D; s.ghost["due"] = z3.Concat(s.ghost["due"], self.VALS(K, D)); s.ghost["insts0"] = s.ghost["insts"]
            return out + [(s, Tup([V.str(fresh("module", Str)), d, ln, co]))]
        def sub(e, s, args, kw):
            k = e.toV(s, args[0]); e.oblige(s, "dialect-class?", is_class(e, s, args[1], Dialect)); e.oblige(s, "issubclass-of-a-class", type_formula(k, type)); return [(s, V.bool(isdialect(k)))]
        def call(e, s, f, args, kw):
            m = s.meta.get(("method", z3.simplify(f).get_id())) if is_v(f) else None
            if m is not None:                                                        # dialect.transform_…(content)
                inst, _ = m
                e.oblige(s, "transformer.argument", z3.And(z3.BoolVal(len(args) == 1 and not kw), e.toV(s, args[0]) == s.ghost["cur"]))
                e.oblige(s, "transformer.location", z3.And(sel(s, inst, "lineno") == s.ghost["line"], sel(s, inst, "col_offset") == s.ghost["col"]))
                self.user(s); r = fresh("output"); out = [self.bad(s, "transformer"), self.bad(s, "transformer", BaseException)]
                s.assume(r != ABSENT, z3.Implies(V.is_obj(r), z3.And(V.ov(r) < s.alloc + s.nalloc)), z3.Or(r == NONE, V.is_str(r), r == e.toV(s, PyObj(NotImplemented)), self.opaque(s, r)))
                s.ghost["ran"] = z3.Concat(s.ghost["ran"], unit(made_from(inst))); s.ghost["insts"] = z3.Concat(s.ghost["insts"], unit(inst)); s.ghost["last"] = r
                s.ghost["cur"] = z3.If(r == e.toV(s, PyObj(NotImplemented)), s.ghost["cur"], r); return [(s, r)] + out
            if not is_v(f): return None
            if ("display", z3.simplify(f).get_id()) in s.meta: return text_hook(e, s, args, kw)
            k = f; e.oblige(s, "instantiate.dialect", z3.And(type_formula(k, type), isdialect(k))); e.oblige(s, "instantiate.expander", z3.And(z3.BoolVal(not args and set(kw) == {"expander"}), e.toV(s, kw.get("expander", NONE)) == self.w))
            self.user(s); out = [self.bad(s, "constructor")]; o = fresh("dialect")
            s.assume(self.opaque(s, o), V.ov(o) >= s.alloc + s.nalloc, made_from(o) == k); na = fresh("alloc", Int); s.assume(na > V.ov(o)); s.alloc, s.nalloc = na, 0
            s.meta[("inst", z3.simplify(o).get_id())] = z3.simplify(o); return [(s, o)] + out
        def attr(e, s, v, name):
            if is_v(v) and ("inst", z3.simplify(v).get_id()) in s.meta and name not in ("lineno", "col_offset"):
                e.oblige(s, "transformer.kind", z3.BoolVal(name == self.method)); m = fresh("method"); s.assume(V.is_obj(m)); m = z3.simplify(m); s.meta[("method", m.get_id())] = (v, m); return [(s, m), self.bad(s, "missing", AttributeError)]
        return {"attr": attr, "unknown_call": call, "ext": dict(TEXT, **{"functools.partial": (partial, "display function"), "builtins.issubclass": (sub, "is the class a dialect?"), self.find: (fnd, "contract of find_dialectimport_*")})}
    def cls_ok(self, k, s): return z3.And(k != ABSENT, V.is_obj(k), V.ov(k) < s.alloc + s.nalloc)
    @property
    def VALS(self):
        if not hasattr(self, "_V"): self._V = Fold("classes", SeqV, EMPTY, lambda a, x, D: z3.Concat(a, unit(z3.Select(D, x))), extra=(DictVal,))
        return self._V
    def kept(self, s): l = s.meta.get("acc"); return [l] if l is not None else []
    @property
    def loops(self):
        def names(c):
            return c.var("content") == c.s.ghost["cur"], c.lst(c.var("dialect_instances")) == c.s.ghost["insts"]
        def outer(c):
            c.s.meta["acc"] = c.var("dialect_instances"); a, b = names(c); return [("current", a), ("instances", b), ("ran", c.s.ghost["ran"] == c.s.ghost["due"])] + self.own(c)
        def inner(c):
            a, b = names(c); g = c.s.ghost
            return [("current", a), ("instances", b), ("ran", g["ran"] == z3.Concat(g["due0"], self.VALS(z3.Extract(g["K"], 0, c.i), g["D"]))), ("count", z3.Length(g["ran"]) == z3.Length(g["due0"]) + c.i)] + self.own(c)
        return (LoopSpec(outer, None), LoopSpec(inner, lambda c: self.VALS.axioms(c.s.ghost["K"], c.i, c.s.ghost["D"])))
    def post(self, p):
        g = p.s.ghost
        if p.returned:
            return [("nothing-left", z3.BoolVal(p.s.meta.get("finished", False)))] + self.result(p)
        why, x = p.s.meta.get("failed"), p.exc.v; i = z3.Length(g.get("ran", EMPTY)) - z3.Length(g.get("due0", EMPTY))
        if why == "search": return [("search-error-passed-on", x == g["error"])]
        def named(i):
            a = sel(p.s, x, "args"); m = V.tv(a)[0]; n = g["K"][i]; return z3.And(V.is_tup(a), V.is_str(m), mentions(V.sv(m), V.sv(n)))
        wrapped = [("ImportError", p.exc_is(ImportError)), ("cause", sel(p.s, x, "__cause__") == g["error"]), ("names-the-dialect", named(i))] if "error" in g else []
        if why == "transformer": ex = type_formula(g["error"], Exception); return [("others-pass", z3.Implies(z3.Not(ex), x == g["error"]))] + [(n, z3.Implies(ex, f)) for n, f in wrapped]
        if why: return wrapped
        k = z3.Select(g["D"], g["K"][i])
        if p.exc.cls is TypeError: return [("only-non-dialects", z3.Not(z3.And(type_formula(k, type), isdialect(k)))), ("names-the-dialect", named(i))]
        return [("ImportError", p.exc_is(ImportError)), ("only-empty-output", z3.And(g["last"] != p.eng.toV(p.s, PyObj(NotImplemented)), z3.Or(g["last"] == NONE, g["last"] == S("")), z3.Length(g["ran"]) > z3.Length(g["due0"]))), ("names-the-dialect", named(i - 1))]
    def result(self, p):
        r = V.tv(p.resultV); return [("code", r[0] == p.s.ghost["cur"]), ("instances", z3.Select(p.s.L, V.ov(r[1])) == p.s.ghost["insts"])]

class TransformSource(Transform):
    target = SRC + "transform_source"; find = SRC + "find_dialectimport_source"; method = "transform_source"
    def result(self, p): return [("text", p.resultV == p.s.ghost["cur"])]

class Postprocess(Stage):
    """Every given dialect's postprocessor, once, in order, on that very instance, with the full output of the one before; NotImplemented means no change; failures and empty output are errors naming the dialect."""
    target = SRC + "postprocess_ast"; must_reach = ("return", "raise")
    def pre(self, c):
        self.base(c); self.ds = c.list("dialect_instances", "any"); self.S0 = c.lst(self.ds); c.s.ghost["ran"] = EMPTY; c.s.ghost["last"] = NONE
        j = z3.Int("j"); c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.Length(self.S0)), z3.And(self.opaque(c.s, self.S0[j]), V.ov(self.S0[j]) < c.s.alloc)))); return [self.w, self.X, self.ds], {}
    def kept(self, s): return [self.ds]
    def hooks(self):
        def attr(e, s, v, name):
            if is_v(v) and e.entails(s, z3.Contains(self.S0, unit(v))) and name not in ("__class__", "__name__", "__qualname__", "__module__"):
                e.oblige(s, "transformer.kind", z3.BoolVal(name == "postprocess_ast")); m = fresh("method"); s.assume(V.is_obj(m)); m = z3.simplify(m); s.meta[("method", m.get_id())] = (v, m); return [(s, m), self.bad(s, "missing", AttributeError)]
        def call(e, s, f, args, kw):
            m = s.meta.get(("method", z3.simplify(f).get_id())) if is_v(f) else None
            if m is None: return text_hook(e, s, args, kw) if is_v(f) and ("display", z3.simplify(f).get_id()) in s.meta else None
            e.oblige(s, "transformer.argument", z3.And(z3.BoolVal(len(args) == 1 and not kw), e.toV(s, args[0]) == s.ghost["cur"]))
            self.user(s); r = fresh("output"); out = [self.bad(s, "transformer"), self.bad(s, "transformer", BaseException)]
            s.assume(r != ABSENT, z3.Implies(V.is_obj(r), z3.And(V.ov(r) < s.alloc + s.nalloc)), z3.Or(r == NONE, V.is_str(r), r == e.toV(s, PyObj(NotImplemented)), self.opaque(s, r)))
            s.ghost["ran"] = z3.Concat(s.ghost["ran"], unit(m[0])); s.ghost["last"] = r; s.ghost["cur"] = z3.If(r == e.toV(s, PyObj(NotImplemented)), s.ghost["cur"], r); return [(s, r)] + out
        def nm(e, s, a, k):
            x = e.toV(s, a[0]); return [(s, V.str(dname(x)))]
        return {"attr": attr, "unknown_call": call, "ext": dict(TEXT, **{"functools.partial": (partial, "display function"), "mcpyrate.utils:format_macrofunction": (nm, "text naming its argument")})}
    @property
    def loops(self):
        def inv(c): g = c.s.ghost; return [("current", c.var("content") == g["cur"]), ("list", c.lst(self.ds) == self.S0), ("ran", g["ran"] == z3.Extract(self.S0, 0, c.i)), ("count", z3.Length(g["ran"]) == c.i)] + self.own(c)
        return (LoopSpec(inv, lambda c: [z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(self.S0)), z3.Contains(self.S0, unit(self.S0[c.i])))]),)
    def post(self, p):
        g = p.s.ghost
        if p.returned: return [("all-in-order", g["ran"] == self.S0), ("result", p.resultV == g["cur"])]
        why, x = p.s.meta.get("failed"), p.exc.v; i = z3.Length(g["ran"])
        def named(i): m = V.tv(sel(p.s, x, "args"))[0]; return z3.And(V.is_tup(sel(p.s, x, "args")), V.is_str(m), mentions(V.sv(m), dname(self.S0[i])))
        w = [("ImportError", p.exc_is(ImportError)), ("cause", sel(p.s, x, "__cause__") == g["error"]), ("names-the-dialect", named(i))] if "error" in g else []
        if why == "transformer": ex = type_formula(g["error"], Exception); return [("others-pass", z3.Implies(z3.Not(ex), x == g["error"]))] + [(n, z3.Implies(ex, f)) for n, f in w]
        if why: return w
        return [("ImportError", p.exc_is(ImportError)), ("only-empty-output", z3.And(i > 0, z3.Or(g["last"] == NONE, g["last"] == S("")))), ("names-the-dialect", named(i - 1))]
dname = z3.Function("name_of_dialect", V, Str)

# ---------------------------------------------------------------- the searches
def got_of(e, s, args, kw): return bound(e, args, kw)
class FindSource(Contract):
    """The first match of the dialect-import pattern whose text was not seen before is remembered, parsed, and its classes looked up; its line number counts the newlines before it. None when every match was seen."""
    target = SRC + "find_dialectimport_source"; must_reach = ("return", "raise")
    def pre(self, c):
        self.w = c.obj("self", DialectExpander, exact=True); self.fn = c.str("filename"); self.seen = c.set("_seen"); c.setattr(self.w, "filename", self.fn); c.setattr(self.w, "_seen", self.seen); self.S0 = c.sset(self.seen)
        self.x = c.str("text"); self.M = z3.Const("in_matches", SeqV); self.n = z3.Length(self.M); self.f = z3.Const("first_new", Int); j = z3.Int("j"); c.s.ghost["k"] = z3.IntVal(0)
        old = lambda j: z3.Select(self.S0, V.str(str_strip(mtext(self.M[j]))))
        c.assume(self.f >= 0, self.f <= self.n, z3.Implies(self.f < self.n, z3.Not(old(self.f))), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.f), old(j))), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(mstart(self.M[j]) >= 0, mstart(self.M[j]) <= z3.Length(V.sv(self.x)), self.fact(c, self.M[j])))))
        self.old = old; return [self.w, self.x], {}
    def fact(self, c, m): return z3.And(V.is_obj(m), V.ov(m) >= 0, V.ov(m) < c.s.alloc, truthy_obj(V.ov(m)), *[z3.Not(isa(cls_of(V.ov(m)), cid(K))) for K in (list, dict, set, tuple, ast.AST, str, int)])
    def hooks(self):
        self.pat = z3.Const("in_pattern", V); self.it = z3.Const("in_iterator", V)
        def attr(e, s, v, name):
            if not is_v(v) or name not in ("finditer", "group", "start"): return None
            if not (e.entails(s, v == self.pat) if name == "finditer" else e.entails(s, z3.Contains(self.M, unit(v)))): return None
            m = fresh("bound_method"); s.assume(V.is_obj(m)); m = z3.simplify(m); s.meta[("bm", m.get_id())] = (v, name, m); return [(s, m)]
        def call(e, s, f, args, kw):
            if not is_v(f) or ("bm", z3.simplify(f).get_id()) not in s.meta: return None
            v, name, _ = s.meta[("bm", z3.simplify(f).get_id())]
            if name == "finditer": e.oblige(s, "search.text", z3.And(z3.BoolVal(len(args) == 1 and not kw), e.toV(s, args[0]) == self.x)); return [(s, self.it)]
            e.oblige(s, "match.whole", z3.And(z3.BoolVal(len(args) <= 1 and not kw), e.toV(s, args[0] if args else PyObj(0)) == I(0))); return [(s, V.str(mtext(v)) if name == "group" else V.int(mstart(v)))]
        def nxt(e, s, args, kw):
            if not e.entails(s, e.toV(s, args[0]) == self.it): return None
            k = s.ghost["k"]; out = []; m = self.M[k]
            for b, more in e.branch(s, k < self.n):
                if more: b.ghost["k"] = k + 1; b.assume(z3.Contains(self.M, unit(m)), self.fact(Ctx(e, b), m), z3.Implies(k < self.f, self.old(k))); out.append((b, m))
                elif len(args) > 1: out.append((b, args[1]))
                else: out.append((b, e.raise_(b, StopIteration)))
            return out
        def par(e, s, args, kw):
            b = dict(zip(("source", "filename", "mode"), args), **kw)
            e.oblige(s, "parse.statement", z3.And(e.toV(s, b["source"]) == self.stmt, e.toV(s, b["filename"]) == self.fn, e.toV(s, b.get("mode", PyObj("exec"))) == S("exec"), self.f < self.n))
            t = s.clone(); c = Ctx(e, s); m = e.alloc(s, ast.Module); st = e.alloc(s, ast.ImportFrom); e.setH(s, m, "body", e.alloc_list(s, unit(st))); s.ghost["parsed"] = st; s.meta["parsed"] = True
            r = exc_any(t, SyntaxError); t.ghost["error"] = r; return [(s, m), (t, Exc(r, None))]
        return {"globals": {("mcpyrate.dialects", "_dialectimport"): lambda e, s: self.pat}, "attr": attr, "unknown_call": call, "iter": lambda e, s, it: SeqIter(self.n, lambda s, i: self.M[i]) if is_v(it) and e.entails(s, it == self.it) else None,
                "ext": {"builtins.next": (nxt, "the next match of the pattern"), "ast.parse": (par, "Python's parser"), "mcpyrate.coreutils:get_macros": (self.macros, "contract of get_macros (C07)")}}
    @property
    def stmt(self): return V.str(str_strip(mtext(self.M[self.f])))
    def the(self, e, s): return s.ghost["parsed"] if "parsed" in s.ghost else NONE
    def macros(self, e, s, args, kw):
        b = bound(e, args, kw); x = e.toV(s, b["macroimport"])
        e.oblige(s, "classes.of-this-import", x == self.the(e, s)); e.oblige(s, "classes.options", z3.And(e.toV(s, b["filename"]) == self.fn, z3.BoolVal(e.conc(b.get("reload", PyObj(False))) == (True, False) and e.conc(b.get("allow_asname", PyObj(True))) == (True, False)), e.toV(s, b.get("self_module", PyObj(None))) == NONE))
        t = s.clone(); r = exc_any(t); t.ghost["error"] = r; a = V.str(fresh("absname", Str)); d = fresh("bindings"); s.ghost["abs"], s.ghost["bindings"] = a, d; s.meta["looked"] = True; s.assume(d != ABSENT)
        return [(s, Tup([a, d])), (t, Exc(r, None))]
    @property
    def loops(self):
        def inv(c): i = c.s.ghost["k"] if c.si is None else c.i; return [("all-seen-so-far", z3.And(i >= 0, i <= self.f)), ("seen", z3.Select(c.s.SS, V.ov(self.seen)) == self.S0)]
        return (LoopSpec(inv, lambda c: [z3.Implies(z3.And(c.s.ghost["k"] >= 0, c.s.ghost["k"] < self.n), z3.Contains(self.M, unit(self.M[c.s.ghost["k"]])))]),)
    def post(self, p):
        new = self.f < self.n
        if p.raised: return [("passed-on", p.exc.v == p.s.ghost["error"] if "error" in p.s.ghost else z3.BoolVal(False))]
        seen = ("remembered", z3.Select(p.s.SS, V.ov(self.seen)) == z3.If(new, z3.Store(self.S0, self.stmt, z3.BoolVal(True)), self.S0))
        if not p.s.meta.get("looked"): return [("none", z3.And(p.resultV == NONE, z3.Not(new))), seen] + p.unchanged("H", "D", "L")
        r = V.tv(p.resultV); text = z3.SubString(V.sv(self.x), 0, mstart(self.M[self.f]))
        return [("module", r[0] == p.s.ghost["abs"]), ("classes", r[1] == p.s.ghost["bindings"]), ("line", r[2] == V.int(1 + str_count(text, z3.StringVal("\n")))), ("first-column", r[3] == I(0)), seen] + p.unchanged("H", "D", "L")
mtext = z3.Function("match_text", V, Str); mstart = z3.Function("match_start", V, Int)

class FindAst(Contract):
    """The first dialect-import of the body becomes an import of the absolute module name, in the same place and with its location; all other statements stay. None when there is none."""
    target = SRC + "find_dialectimport_ast"; must_reach = ("return", "raise")
    def pre(self, c):
        self.w = c.obj("self", DialectExpander, exact=True); self.fn = c.str("filename"); c.setattr(self.w, "filename", self.fn)
        self.t = c.obj("tree", ast.AST); self.body = c.list("body", "stmt"); c.setattr(self.t, "body", self.body); self.B0 = c.lst(self.body); self.n = z3.Length(self.B0); self.a0 = c.s.alloc
        self.f = z3.Const("first_import", Int); self.isd = lambda j: ismac(self.B0[j], S("dialects")); j = z3.Int("j"); self.st = self.B0[self.f]
        c.assume(self.f >= 0, self.f <= self.n, z3.Implies(self.f < self.n, z3.And(self.isd(self.f), type_formula(self.st, ast.ImportFrom), V.ov(self.st) < c.s.alloc)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.f), z3.Not(self.isd(j))))); self.s0 = c.s.clone()
        return [self.w, self.t], {}
    def the(self, e, s): return self.st
    def hooks(self):
        def ismi(e, s, args, kw): b = bound(e, args, kw); m = e.toV(s, b["magicname"]) if "magicname" in b else S("macros"); return [(s, V.bool(ismac(e.toV(s, b["statement"]), m)))]
        return {"ext": {"mcpyrate.coreutils:ismacroimport": (ismi, "contract of ismacroimport (C07)"), "mcpyrate.coreutils:get_macros": (lambda e, s, a, k: FindSource.macros(self, e, s, a, k), "contract of get_macros (C07)"), "ast.copy_location": (copy_location, "copies the location attributes")}}
    @property
    def loops(self):
        return (LoopSpec(lambda c: [("none-so-far", z3.And(c.i <= self.f)), ("body", z3.And(c.lst(self.body) == self.B0))], lambda c: [old_elem(self.B0, c.i, self.a0)]),)
    def post(self, p):
        new = self.f < self.n; L = z3.Select(p.s.L, V.ov(self.body))
        if p.raised: return [("passed-on", p.exc.v == p.s.ghost["error"] if "error" in p.s.ghost else z3.BoolVal(False))] + p.unchanged("H", "L", "D")
        if not p.s.meta.get("looked"): return [("none", z3.And(p.resultV == NONE, z3.Not(new)))] + p.unchanged("H", "L", "D")
        r = V.tv(p.resultV); y = L[self.f]; nm = z3.Select(p.s.L, V.ov(sel(p.s, y, "names"))); at = lambda n: sel(p.s0, self.st, n); loc = lambda n: z3.If(at(n) == ABSENT, NONE, at(n))
        return [("module", r[0] == p.s.ghost["abs"]), ("classes", r[1] == p.s.ghost["bindings"]), ("line", r[2] == loc("lineno")), ("column", r[3] == loc("col_offset")),
                ("only-this-statement", L == z3.Concat(z3.Extract(self.B0, 0, self.f), unit(y), z3.Extract(self.B0, self.f + 1, self.n - self.f - 1))), ("import", z3.And(V.ov(y) >= self.a0, cls_of(V.ov(y)) == cid(ast.Import))), ("one-name", z3.And(z3.Length(nm) == 1, cls_of(V.ov(nm[0])) == cid(ast.alias))),
                ("absolute", z3.And(sel(p.s, nm[0], "name") == p.s.ghost["abs"], sel(p.s, nm[0], "asname") == NONE)), ("location", loc_eq(p.s, y, p.s0, self.st)), p.unchanged_except("L", [V.ov(self.body)])] + p.unchanged("H", "D")

class BaseDialect(Contract):
    """A dialect remembers its expander, starts without a location, and declines all three transforms unless it overrides them."""
    target = "mcpyrate.dialects:Dialect.__init__"
    def pre(self, c): self.w = c.obj("self", Dialect, exact=True); self.e = c.var("expander"); c.assume(self.e != ABSENT); return [self.w, self.e], {}
    def post(self, p): return [("expander", sel(p.s, self.w, "expander") == self.e if p.returned else z3.BoolVal(False)), ("no-location", z3.And(sel(p.s, self.w, "lineno") == NONE, sel(p.s, self.w, "col_offset") == NONE))]
def declines(n):
    def pre(self, c): self.w = c.obj("self", Dialect, exact=True); return [self.w, c.var("x")], {}
    def post(self, p): return [("declines", p.resultV == p.eng.toV(p.s, PyObj(NotImplemented)) if p.returned else z3.BoolVal(False))] + p.unchanged("H", "L", "D")
    return type("Declines_" + n, (Contract,), dict(target="mcpyrate.dialects:Dialect." + n, pre=pre, post=post, __doc__="The default: no transform."))
DECLINE = [declines(n) for n in ("transform_source", "transform_ast", "postprocess_ast")]
class StepSource(Contract):
    """Showing the steps only switches the expander's display on: the text is given back unchanged, nothing else is touched."""
    target = "mcpyrate.dialects:StepExpansion.transform_source"
    def pre(self, c):
        self.w = c.obj("self", StepExpansion, exact=True); self.x = c.obj("expander", DialectExpander, exact=True); c.setattr(self.w, "expander", self.x); c.setattr(self.x, "filename", c.str("filename")); c.setattr(self.x, "_step", c.int("step")); self.d = V.bool(z3.Const("in_debugmode", Bool)); c.setattr(self.x, "debugmode", self.d)
        self.t = c.str("text"); return [self.w, self.t], {}
    def hooks(self): return {"ext": TEXT}
    def post(self, p): return [("unchanged", p.resultV == self.t if p.returned else z3.BoolVal(False)), ("display-on", sel(p.s, self.x, "debugmode") == TRUE), p.unchanged_except("H", None, [(V.ov(self.x), "debugmode")])] + p.unchanged("L", "D")
class StepAst(StepSource):
    target = "mcpyrate.dialects:StepExpansion.transform_ast"
    def post(self, p): return [("unchanged", p.resultV == z3.If(self.d == TRUE, p.eng.toV(p.s, PyObj(NotImplemented)), self.t) if p.returned else z3.BoolVal(False))] + super().post(p)[1:]
class NewExpander(Contract):
    """A fresh expander has seen no dialect-import and takes no steps yet."""
    target = "mcpyrate.dialects:DialectExpander.__init__"
    def pre(self, c): self.w = c.obj("self", DialectExpander, exact=True); self.fn = c.str("filename"); return [self.w, self.fn], {}
    def post(self, p): return [("filename", sel(p.s, self.w, "filename") == self.fn if p.returned else z3.BoolVal(False)), ("display-off", sel(p.s, self.w, "debugmode") == FALSE), ("none-seen", z3.Select(p.s.SS, V.ov(sel(p.s, self.w, "_seen"))) == z3.K(V, z3.BoolVal(False))), ("own-set", V.ov(sel(p.s, self.w, "_seen")) >= p.s0.alloc)] + p.unchanged("L", "D")

CONTRACTS = [BaseDialect, StepSource, StepAst, NewExpander] + DECLINE + [FindAst, FindSource, Postprocess, Transform, TransformSource]
