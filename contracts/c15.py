from contracts.base import *
from mcpyrate.dialects import DialectExpander
import types

def exc_any(b, K=BaseException):
    """An arbitrary exception raised by a callee."""
    e = fresh("exc"); b.assume(type_formula(e, K), sel(b, e, "__traceback__") != ABSENT); return e
def stage(tag, ok=None, result=None, raises=True, user=True, keep=()):
    """A callee that does arbitrary work: checks its arguments, then returns a fresh result or raises anything; both are logged."""
    def f(eng, s, args, kw):
        b = bound(eng, args, kw) if isinstance(getattr(eng.reg, 'cur_fn', None), Fn) else None
        for nm, g in (ok(eng, s, args, kw, b) if ok else []): eng.oblige(s, f"{tag}.{nm}", g)
        out = []
        for bad in ((0, 1) if raises else (0,)):
            t = s.clone() if raises else s
            if user: havoc_user(t, keep)
            if bad: r = exc_any(t); log(t, S(tag + "!"), r); out.append((t, Exc(r, None)))
            else:
                r = result(eng, t, args, kw, b) if result else fresh(tag)
                if is_v(r): t.assume(r != ABSENT)
                log(t, S(tag), eng.toV(t, r)); out.append((t, r))
        return out
    return f
def tags(p):
    """Names of the logged events of this path (the trace is concrete in shape)."""
    t = z3.simplify(p.trace()); out = []
    def w(x):
        k = x.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            for ch in x.children(): w(ch)
        elif k == z3.Z3_OP_SEQ_UNIT: out.append(z3.simplify(V.sv(V.tv(x.arg(0))[0])).as_string())
    w(t); return out
def ev(p, i, k=1): return V.tv(p.trace()[i])[k]
def is_(a, b): return ("arguments", a == b)
def fail_passed(p, t): return [("error-passed-on", p.exc.v == ev(p, len(t) - 1))]

class SinglephaseExpand(Contract):
    """Dialect AST transforms, macro-imports, expansion, dialect postprocessing, leftover-marker check: in this order, each on the result of the one before."""
    target = "mcpyrate.compiler:singlephase_expand"; must_reach = ("return", "raise"); dialects = True
    def pre(self, c):
        self.t, self.fn, self.me = c.var("tree"), c.str("filename"), c.var("self_module"); c.assume(self.t != ABSENT, self.me != ABSENT)
        self.d = c.obj("dexpander", DialectExpander, exact=True) if self.dialects else NONE; return [self.t], {"filename": self.fn, "self_module": self.me, "dexpander": self.d}
    def prev(self, s, k=1): tr = s.ghost["trace"]; return V.tv(tr[z3.Length(tr) - k])[1]
    def hooks(self):
        ta = stage("transform", lambda e, s, a, k, b: [is_(e.toV(s, b["tree"]), self.t)], lambda e, s, a, k, b: Tup([fresh("tree1", V), fresh("instances", V)]))
        tree = lambda s: V.tv(self.prev(s))[0] if self.dialects else self.t
        def fm(e, s, a, k, b): return [("tree", e.toV(s, b["tree"]) == tree(s)), ("filename", e.toV(s, b["filename"]) == self.fn), ("self_module", e.toV(s, b["self_module"]) == self.me)]
        def em(e, s, a, k, b): return [("tree", e.toV(s, b["tree"]) == (V.tv(self.prev(s, 2))[0] if self.dialects else self.t)), ("bindings", e.toV(s, b["bindings"]) == self.prev(s)), ("filename", e.toV(s, b["filename"]) == self.fn)]
        def pp(e, s, a, k, b): v = list(b.values()); return [("tree", e.toV(s, b["tree"]) == self.prev(s)), ("instances", e.toV(s, v[1]) == V.tv(self.prev(s, 3))[1])]
        def ck(e, s, a, k, b): return [("tree", e.toV(s, b["tree"]) == self.prev(s)), ("filename", e.toV(s, b["filename"]) == self.fn)]
        return {"ext": {"mcpyrate.dialects:DialectExpander.transform_ast": (ta, "contract of transform_ast (C14): the tree and the dialect instances"), "mcpyrate.expander:find_macros": (stage("find", fm), "contract of find_macros (C07)"),
                        "mcpyrate.expander:expand_macros": (stage("expand", em), "macro expansion (C04-C06)"), "mcpyrate.dialects:DialectExpander.postprocess_ast": (stage("post", pp), "contract of postprocess_ast (C14)"),
                        "mcpyrate.markers:check_no_markers_remaining": (stage("check", ck, user=False), "contract of check_no_markers_remaining (C09)")}}
    def post(self, p):
        t = tags(p); full = (["transform"] if self.dialects else []) + ["find", "expand"] + (["post"] if self.dialects else []) + ["check"]
        if p.returned: return [("every-step-once-in-order", z3.BoolVal(t == full)), ("result", p.resultV == ev(p, len(full) - 2))]
        return [("stops-at-the-failing-step", z3.BoolVal(t == full[:len(t) - 1] + [full[len(t) - 1] + "!"]))] + fail_passed(p, t)
class SinglephaseExpandPlain(SinglephaseExpand): label = "mcpyrate.compiler:singlephase_expand[no dialects]"; dialects = False

class Expand(Contract):
    """Source text: dialect source transforms, parse (a parse failure becomes ImportError caused by it), then single- or multi-phase expansion as the module asks."""
    target = "mcpyrate.compiler:expand"; must_reach = ("return", "raise"); kind = "str"
    def pre(self, c):
        self.src = self.source(c); self.fn, self.opt, self.me = c.str("filename"), c.var("optimize"), c.var("self_module"); c.assume(z3.Or(self.me == NONE, V.is_str(self.me)), self.opt != ABSENT)
        self.d = c.obj("dexpander", DialectExpander, exact=True); self.mp = z3.Const("requests_multiphase", Bool)
        return [self.src, self.fn], {"self_module": self.me, "optimize": self.opt}
    def source(self, c): return c.str("source")
    def treeok(self, s, x): return x == (self.src if self.kind != "text" else None)
    def tree(self, s): return s.ghost["tree"]
    def hooks(self):
        def mk(e, s, args, kw):
            e.oblige(s, "dialects.filename", e.toV(s, kw["filename"] if kw else args[0]) == self.fn); return [(s, self.d)]
        def dec(e, s, args, kw): e.oblige(s, "decode.source", e.toV(s, args[0]) == self.src); r = V.str(fresh("text", Str)); s.ghost["text"] = r; log(s, S("decode"), r); return [(s, r)]
        def ts(e, s, a, k, b): return [("text", e.toV(s, b["text"]) == (s.ghost["text"] if self.kind == "bytes" else self.src))]
        def tsr(e, s, a, k, b): r = V.str(fresh("newtext", Str)); s.ghost["new"] = r; return r
        def pa(e, s, a, k, b): return [("text", e.toV(s, a[0]) == s.ghost["new"]), ("filename", e.toV(s, k["filename"] if "filename" in k else a[1]) == self.fn), ("mode", e.toV(s, k.get("mode", PyObj("exec"))) == S("exec"))]
        def par(e, s, a, k, b): r = Ctx(e, s).obj("parsed", ast.Module, exact=True); s.ghost["tree"] = r; return r
        def mp(e, s, args, kw): e.oblige(s, "multiphase?.tree", e.toV(s, args[0]) == self.tree(s)); return [(s, V.bool(self.mp))]
        def ex(multi):
            def f(e, s, a, k, b):
                out = [("tree", e.toV(s, b["tree"]) == self.tree(s)), ("filename", e.toV(s, b["filename"]) == self.fn), ("self_module", e.toV(s, b["self_module"]) == self.me), ("dialects", e.toV(s, b["dexpander"]) == self.d), ("as-requested", self.mp == z3.BoolVal(multi))]
                return out + ([("optimize", e.toV(s, b["_optimize"]) == self.opt)] if multi else [])
            return f
        return {"ext": {"mcpyrate.dialects.DialectExpander": (mk, "constructor: a new dialect expander"), "_frozen_importlib_external.decode_source": (dec, "decodes as Python does"),
                        "mcpyrate.dialects:DialectExpander.transform_source": (stage("transform", ts, tsr), "contract of transform_source (C14)"), "ast.parse": (stage("parse", pa, par, user=False), "Python's parser"),
                        "mcpyrate.multiphase:ismultiphase": (mp, "contract of ismultiphase (C13)"), "mcpyrate.compiler:singlephase_expand": (stage("expand", ex(False)), "contract of singlephase_expand"),
                        "mcpyrate.multiphase:multiphase_expand": (stage("expand", ex(True)), "contract of multiphase_expand (C13)")}}
    head = ["transform", "parse"]
    def post(self, p):
        t = tags(p); full = self.head + ["expand"]; needs = z3.And(self.mp, z3.Or(self.me == NONE, self.me == S("")))
        if p.returned: return [("every-step-once-in-order", z3.BoolVal(t == full)), ("result", p.resultV == ev(p, len(t) - 1)), ("multiphase-needs-a-name", z3.Not(needs))]
        if t and t[-1] == "parse!":
            e = ev(p, len(t) - 1); ex = type_formula(e, Exception)
            return [("ImportError", z3.Implies(ex, z3.And(p.exc_is(ImportError), sel(p.s, p.exc.v, "__cause__") == e))), ("others-pass", z3.Implies(z3.Not(ex), p.exc.v == e))]
        if t and t[-1].endswith("!"): return [("stops-at-the-failing-step", z3.BoolVal(t == full[:len(t) - 1] + [full[len(t) - 1] + "!"]))] + fail_passed(p, t)
        return self.rejected(p, t, needs)
    def rejected(self, p, t, needs): return [("ValueError", z3.And(p.exc_is(ValueError), needs)), ("before-expansion", z3.BoolVal(t == self.head))]
class ExpandBytes(Expand):
    label = "mcpyrate.compiler:expand[bytes]"; kind = "bytes"; head = ["decode", "transform", "parse"]
    def source(self, c): x = c.var("source"); c.assume(type_formula(x, bytes)); return x
class ExpandModule(Expand):
    """A tree is used as it is (its body must consist of statements); dialect source transforms do not apply."""
    label = "mcpyrate.compiler:expand[module]"; kind = "tree"; head = []
    def source(self, c):
        t = c.obj("source", ast.Module, exact=True); self.body = c.list("body", "any"); c.setattr(t, "body", self.body); self.B = c.lst(self.body); c.s.ghost["tree"] = t; return t
    def valid(self): j = z3.Int("j"); return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.Length(self.B)), type_formula(self.B[j], ast.stmt)))
    @property
    def loops(self): return (LoopSpec(lambda c: [], None),)
    def post(self, p): return super().post(p) + ([("only-statements", self.valid())] if p.returned else [])
    def rejected(self, p, t, needs): return [("kind", z3.If(self.valid(), z3.And(p.exc_is(ValueError), needs), p.exc_is(TypeError))), ("before-expansion", z3.BoolVal(t == []))]
class ExpandList(ExpandModule):
    """A statement list is the body of a new module."""
    label = "mcpyrate.compiler:expand[list]"; kind = "list"
    def source(self, c): self.body = c.list("source", "any"); self.B = c.lst(self.body); self.own = None; return self.body
    def hooks(self):
        h = super().hooks(); old = h["ext"]["mcpyrate.multiphase:ismultiphase"][0]
        def mp(e, s, args, kw):
            t = e.toV(s, args[0]); s.ghost["tree"] = t
            e.oblige(s, "wrapped.module", z3.And(V.is_obj(t), cls_of(V.ov(t)) == cid(ast.Module), V.ov(t) >= e.current.a0)); e.oblige(s, "wrapped.body", z3.Select(s.L, V.ov(sel(s, t, "body"))) == self.B); return [(s, V.bool(self.mp))]
        h["ext"]["mcpyrate.multiphase:ismultiphase"] = (mp, "contract of ismultiphase (C13)"); return h
    def pre(self, c): r = super().pre(c); self.a0 = c.s.alloc; return r
class ExpandBad(Contract):
    """Anything else is rejected before anything happens."""
    target = "mcpyrate.compiler:expand"; label = "mcpyrate.compiler:expand[bad source]"; must_reach = ("raise",)
    def pre(self, c):
        self.x = c.var("source"); c.assume(self.x != ABSENT, *[z3.Not(type_formula(self.x, K)) for K in (str, bytes, ast.Module, list)]); return [self.x, c.str("filename")], {}
    def post(self, p): return [("TypeError", p.exc_is(TypeError) if p.raised else z3.BoolVal(False))] + p.unchanged("H", "L", "D")

class CompileImpl(Contract):
    """Unparse first iff the source is a tree without a .py file; expand with the caller's arguments; the docstring and the code object both come from the expansion."""
    target = "mcpyrate.compiler:_compile"; must_reach = ("return", "raise")
    def pre(self, c):
        self.src, self.fn, self.opt, self.me = c.var("source"), self.filename(c), c.var("optimize"), c.var("self_module"); c.assume(self.src != ABSENT, self.opt != ABSENT, self.me != ABSENT)
        return [self.src, self.fn, self.opt, self.me], {}
    def filename(self, c): return c.str("filename")
    def fromtree(self):
        py = z3.SuffixOf(z3.StringVal(".py"), V.sv(self.fn)) if self.fn is not NONE else z3.BoolVal(False)
        return z3.And(z3.Or(type_formula(self.src, ast.AST), type_formula(self.src, list)), z3.Not(py))
    def hooks(self):
        def un(e, s, a, k, b): return [("source", e.toV(s, b["tree"]) == self.src), ("only-without-a-file", self.fromtree()), ("no-options", z3.BoolVal(set(b) == {"tree"}))]
        def unr(e, s, a, k, b): r = V.str(fresh("unparsed", Str)); s.ghost["u"] = r; return r
        def ex(e, s, a, k, b):
            x = e.toV(s, b["source"])
            return [("source", x == (s.ghost["u"] if "u" in s.ghost else self.src)), ("unparsed-without-a-file", z3.BoolVal(True) if "u" in s.ghost else z3.Not(self.fromtree())), ("filename", e.toV(s, b["filename"]) == self.fn), ("self_module", e.toV(s, b["self_module"]) == self.me), ("optimize", e.toV(s, b["optimize"]) == self.opt)]
        def exr(e, s, a, k, b): c = Ctx(e, s); t = c.obj("expansion", ast.Module, exact=True); l = c.list("body", "stmt"); c.setattr(t, "body", l); s.ghost["x"] = t; return t
        def gd(e, s, a, k, b): return [("body", e.toV(s, b["body"]) == sel(s, s.ghost["x"], "body"))]
        def co(e, s, args, kw):
            kw = dict(kw, **dict(zip(("source", "filename", "mode", "flags", "dont_inherit", "optimize"), args)))
            for nm, g in (("tree", e.toV(s, kw["source"]) == s.ghost["x"]), ("filename", e.toV(s, kw["filename"]) == self.fn), ("mode", e.toV(s, kw["mode"]) == S("exec")), ("dont_inherit", e.toV(s, kw.get("dont_inherit", FALSE)) == TRUE), ("optimize", e.toV(s, kw.get("optimize", I(-1))) == self.opt), ("no-flags", z3.BoolVal("flags" not in kw))): e.oblige(s, "compile." + nm, g)
            return stage("compile", user=False)(e, s, args, kw)
        return {"ext": {"mcpyrate.unparser:unparse": (stage("unparse", un, unr, user=False), "contract of unparse (C01)"), "mcpyrate.compiler:expand": (stage("expand", ex, exr), "contract of expand"),
                        "mcpyrate.utils:getdocstring": (stage("docstring", gd, raises=False, user=False), "contract of getdocstring (C12)"), "builtins.compile": (co, "Python's compiler")}}
    def post(self, p):
        t = tags(p); u = ["unparse"] if t[:1] == ["unparse"] else []; core = [x for x in t if x not in ("unparse", "docstring")]
        if p.returned:
            r = V.tv(p.resultV); at = {x: i for i, x in enumerate(t)}
            return [("steps", z3.BoolVal(core == ["expand", "compile"] and t.count("docstring") == 1)), ("code", z3.And(V.is_tup(p.resultV), z3.Length(r) == 2, r[0] == ev(p, at["compile"]))), ("docstring", r[1] == ev(p, at["docstring"]))]
        return fail_passed(p, t) + [("a-step-failed", z3.BoolVal(bool(t) and t[-1].endswith("!")))]
class CompileImplNoName(CompileImpl):
    label = "mcpyrate.compiler:_compile[no filename]"
    def filename(self, c): return NONE
class Compile(Contract):
    target = "mcpyrate.compiler:compile"; must_reach = ("return", "raise")
    def pre(self, c): self.a = [c.var(n) for n in ("source", "filename", "optimize", "self_module")]; c.assume(*[x != ABSENT for x in self.a]); return self.a, {}
    def hooks(self):
        def ok(e, s, a, k, b): return [(n, e.toV(s, b[n]) == x) for n, x in zip(("source", "filename", "optimize", "self_module"), self.a)]
        return {"ext": {"mcpyrate.compiler:_compile": (stage("compile", ok, lambda e, s, a, k, b: Tup([fresh("code"), fresh("doc")])), "contract of _compile")}}
    def post(self, p):
        t = tags(p)
        if p.returned: return [("once", z3.BoolVal(t == ["compile"])), ("code", p.resultV == V.tv(ev(p, 0))[0])]
        return fail_passed(p, t)

class Table(Contract):
    """Contracts that see `sys.modules` as a dictionary of (truthy) module objects."""
    def table(self, c): self.tab = c.dict("sys_modules"); return self.tab
    def tab_hook(self): return {("sys", "modules"): lambda eng, s: self.tab}
class Run(Table):
    """Executed in the namespace of the given module, with the docstring set first; the module is the result; any failure passes on."""
    target = "mcpyrate.compiler:run"; must_reach = ("return", "raise"); how = "module"; code = False
    def pre(self, c):
        self.table(c); self.m = c.obj("the_module", types.ModuleType); self.file, self.nm = c.var("file"), c.str("modname"); c.assume(self.file != ABSENT); self.ns = c.dict("namespace"); c.assume(V.ov(self.ns) != V.ov(self.tab))
        c.setattr(self.m, "__file__", self.file); c.setattr(self.m, "__name__", self.nm); self.src, self.opt = c.var("source"), c.var("optimize"); c.assume(self.src != ABSENT, self.opt != ABSENT)
        c.assume(type_formula(self.src, types.CodeType) if self.code else z3.Not(type_formula(self.src, types.CodeType)))
        return [self.src, self.given(c)], {"optimize": self.opt}
    def given(self, c):
        if self.how == "module": return self.m
        if self.how == "none": return NONE
        self.key_ = c.str("dotted_name"); self.entry = z3.Select(c.dct(self.tab), self.key_); c.assume(z3.Or(self.entry == self.m, self.entry == ABSENT)); return self.key_
    def attr(self, eng, s, v, name):
        if name == "__dict__" and eng.entails(s, v == self.m): return [(s, self.ns)]
    def hooks(self):
        def mk(e, s, a, k, b): return [("no-arguments", z3.BoolVal(not a and not k)), ("asked", z3.BoolVal(self.how == "none"))]
        def co(e, s, a, k, b): return [("source", e.toV(s, b["source"]) == self.src), ("filename", e.toV(s, b["filename"]) == self.file), ("self_module", e.toV(s, b["self_module"]) == self.nm), ("optimize", e.toV(s, b["optimize"]) == self.opt)]
        def cr(e, s, a, k, b): s.ghost["code"], s.ghost["doc"] = fresh("code"), fresh("doc"); s.assume(s.ghost["doc"] != ABSENT, s.ghost["code"] != ABSENT); return Tup([s.ghost["code"], s.ghost["doc"]])
        def ex(e, s, args, kw):
            e.oblige(s, "exec.code", e.toV(s, args[0]) == (self.src if self.code else s.ghost["code"])); e.oblige(s, "exec.namespace", e.toV(s, args[1]) == self.ns)
            e.oblige(s, "exec.docstring-set-before", sel(s, self.m, "__doc__") == (NONE if self.code else s.ghost["doc"])); e.oblige(s, "exec.earlier-definitions-kept", z3.And(z3.BoolVal(len(args) == 2 and not kw), z3.Select(s.D, V.ov(self.ns)) == s.ghost["nsD"]))
            return stage("exec")(e, s, args, kw)
        def keepns(f):
            def g(e, s, args, kw):
                out = f(e, s, args, kw)
                for t, r in out: t.ghost["nsD"] = z3.Select(t.D, V.ov(self.ns))
                return out
            return g
        return {"module_attr": self.tab_hook(), "attr": self.attr, "ext": {"mcpyrate.compiler:create_module": (stage("create", mk, lambda *a: self.m, user=False), "contract of create_module"),
                "mcpyrate.compiler:_compile": (keepns(stage("compile", co, cr)), "contract of _compile; macros may run arbitrary code"), "builtins.exec": (ex, "runs the code with the dictionary as its namespace")}}
    @property
    def full(self): return (["create"] if self.how == "none" else []) + ([] if self.code else ["compile"]) + ["exec"]
    def post(self, p):
        t = tags(p); full = self.full
        if p.returned: return [("every-step-once-in-order", z3.BoolVal(t == full)), ("the-module", p.resultV == self.m)] + ([("found", self.entry == self.m)] if self.how == "name" else [])
        if t: return [("stops-at-the-failing-step", z3.BoolVal(t == full[:len(t) - 1] + [full[len(t) - 1] + "!"]))] + fail_passed(p, t)
        if self.how == "name": return [("unknown-module", z3.And(self.entry == ABSENT, p.exc_is(ModuleNotFoundError)))] + p.unchanged("H", "L", "D")
        return [("no-other-error", False)]
class RunNew(Run): label = "mcpyrate.compiler:run[new module]"; how = "none"
class RunName(Run): label = "mcpyrate.compiler:run[by name]"; how = "name"
class RunCode(Run):
    label = "mcpyrate.compiler:run[code object]"; code = True
    def pre(self, c): r = super().pre(c); c.s.ghost["nsD"] = c.dct(self.ns); return r
class RunBad(Table):
    target = "mcpyrate.compiler:run"; label = "mcpyrate.compiler:run[bad module]"; must_reach = ("raise",)
    def pre(self, c):
        self.x, self.m = c.var("source"), c.var("module"); c.assume(self.x != ABSENT, self.m != ABSENT, self.m != NONE, z3.Not(V.is_str(self.m)), z3.Not(type_formula(self.m, types.ModuleType))); return [self.x, self.m], {}
    def post(self, p): return [("TypeError", p.exc_is(TypeError) if p.raised else z3.BoolVal(False))] + p.unchanged("H", "L", "D")

def module_new(eng, s, args, kw):
    """types.ModuleType(name): a new module object."""
    o = eng.alloc(s, types.ModuleType); eng.setH(s, o, "__name__", args[0]); eng.setH(s, o, "__doc__", PyObj(None)); eng.setH(s, o, "__package__", PyObj(None)); s.meta["new"] = o; return [(s, o)]
def gensym_h(eng, s, args, kw):
    r = fresh("uuid", Str); s.assume(z3.Not(z3.Contains(r, z3.StringVal("."))), z3.Length(r) > 0); s.ghost["uuid"] = r; return [(s, V.str(r))]
MODS = {"builtins.module": (module_new, "a new, empty module object"), "mcpyrate.utils:gensym": (gensym_h, "contract of gensym (C12): a new identifier")}
def split_last(x):
    i = z3.LastIndexOf(x, z3.StringVal(".")); return i, z3.SubString(x, 0, i), z3.SubString(x, i + 1, z3.Length(x) - i - 1)
class CreateModule(Table):
    """Registered under its name - and bound in its parent iff asked -, nothing else in the module table changed; invalid names and missing parents are rejected with nothing changed."""
    target = "mcpyrate.compiler:create_module"; must_reach = ("return", "raise"); named = True; up = True
    def pre(self, c):
        self.table(c); self.D0 = c.dct(self.tab); self.fn = c.var("filename"); c.assume(z3.Or(self.fn == NONE, V.is_str(self.fn))); self.nm = c.str("dotted_name") if self.named else NONE
        if self.named: c.assume(z3.Length(V.sv(self.nm)) > 0)
        self.parts = str_split(V.sv(self.nm), z3.StringVal("."))
        if self.named:
            _, pk, _ = split_last(V.sv(self.nm)); e = z3.Select(self.D0, V.str(pk)); c.assume(z3.Implies(e != ABSENT, z3.And(type_formula(e, types.ModuleType), V.ov(e) < c.s.alloc, truthy_obj(V.ov(e)), *[z3.Not(isa(cls_of(V.ov(e)), cid(K))) for K in (list, dict, set, tuple, ast.AST)])))
        return [self.nm, self.fn], ({} if self.up else {"update_parent": FALSE})
    def hooks(self): return {"module_attr": self.tab_hook(), "ext": MODS}
    def validat(self, j): return z3.Implies(z3.And(j >= 0, j < z3.Length(self.parts)), is_identifier(V.sv(self.parts[j])))
    def valid(self): j = z3.Int("j"); return z3.ForAll([j], self.validat(j))
    def post(self, p):
        D = z3.Select(p.s.D, V.ov(self.tab)); fnbad = z3.And(p.eng.truth(p.s0, self.fn), z3.Not(V.is_str(self.fn)))
        if p.raised:
            out = p.unchanged("H", "L", "D")
            if not self.named: return out + [("bad-filename", z3.And(p.exc_is(TypeError), fnbad))]
            i, pk, _ = split_last(V.sv(self.nm))
            return out + [("kind", z3.If(z3.Or(z3.Not(self.valid()), fnbad), p.exc_is(TypeError), z3.And(p.exc_is(ModuleNotFoundError), i >= 0, z3.Select(self.D0, V.str(pk)) == ABSENT)))]
        m = p.resultV; nm = sel(p.s, m, "__name__"); out = [("new", z3.And(V.is_obj(m), cls_of(V.ov(m)) == cid(types.ModuleType), V.ov(m) >= p.s0.alloc)), ("registered", D == z3.Store(self.D0, nm, m)), ("docless", sel(p.s, m, "__doc__") == NONE), ("filename-ok", z3.Not(fnbad)),
               ("file", z3.If(p.eng.truth(p.s0, self.fn), sel(p.s, m, "__file__") == self.fn, z3.And(V.is_str(sel(p.s, m, "__file__")), z3.Length(V.sv(sel(p.s, m, "__file__"))) > 0)))]
        if not self.named: return out + [("generated-name", z3.And(V.is_str(nm), z3.Contains(V.sv(nm), p.s.ghost["uuid"]))), ("top-level", sel(p.s, m, "__package__") == NONE)] + p.unchanged("H", "L")
        i, pk, last = split_last(V.sv(self.nm)); pv = z3.Select(self.D0, V.str(pk)); out += [("name", nm == self.nm), ("valid-name", self.validat(z3.Int("some_component"))), ("package", sel(p.s, m, "__package__") == z3.If(i >= 0, V.str(pk), NONE)), ("parent-exists", z3.Implies(i >= 0, pv != ABSENT))]
        r, f = fresh("r", Int), fresh("a", Str); bind = z3.And(i >= 0, z3.BoolVal(self.up), r == V.ov(pv), f == last)
        out += [("bound-in-parent-iff-asked", z3.Implies(r < p.s0.alloc, z3.Select(p.s.H, r, f) == z3.If(bind, m, z3.Select(p.s0.H, r, f))))]
        return out + p.unchanged("L")
class CreateModuleNoUpdate(CreateModule): label = "mcpyrate.compiler:create_module[update_parent=False]"; up = False
class CreateModuleUnnamed(CreateModule): label = "mcpyrate.compiler:create_module[no name]"; named = False; must_reach = ("return",)
class CreateModuleBad(CreateModule):
    label = "mcpyrate.compiler:create_module[bad name]"; must_reach = ("raise",)
    def pre(self, c): self.table(c); self.x = c.var("dotted_name"); self.fn = c.var("filename"); c.assume(self.x != ABSENT, z3.Not(V.is_str(self.x)), self.fn != ABSENT, c.eng.truth(c.s, self.x)); return [self.x, self.fn], {}
    def post(self, p): return [("TypeError", p.exc_is(TypeError) if p.raised else z3.BoolVal(False))] + p.unchanged("H", "L", "D")
class CreateModuleBadFile(CreateModuleBad):
    label = "mcpyrate.compiler:create_module[bad filename]"
    def pre(self, c): self.table(c); self.x = c.var("filename"); self.nm = c.var("dotted_name"); c.assume(self.x != ABSENT, z3.Not(V.is_str(self.x)), z3.Implies(V.is_obj(self.x), V.ov(self.x) < c.s.alloc), z3.Or(self.nm == NONE, V.is_str(self.nm)), c.eng.truth(c.s, self.x)); return [self.nm, self.x], {}

class TemporaryModule(Table):
    """The body sees the created module; after it, however it ended, the table has no entry of that name, all other entries are as the body left them, and - if asked - the parent no longer has the module."""
    target = "mcpyrate.compiler:temporary_module"; must_reach = ("return", "raise"); up = True
    def pre(self, c):
        self.table(c); self.nm, self.fn = c.var("dotted_name"), c.var("filename"); c.assume(self.nm != ABSENT, self.fn != ABSENT); return [self.nm, self.fn], ({} if self.up else {"update_parent": FALSE})
    def hooks(self):
        def ok(e, s, a, k, b): return [("name", e.toV(s, b["dotted_name"]) == self.nm), ("filename", e.toV(s, b["filename"]) == self.fn), ("update_parent", e.toV(s, b.get("update_parent", TRUE)) == B(self.up))]
        def mk(e, s, a, k, b):
            m = Ctx(e, s).obj("the_module", types.ModuleType, exact=True); n = V.str(fresh("itsname", Str)); Ctx(e, s).setattr(m, "__name__", n); o = V.ov(self.tab); s.D = z3.Store(s.D, o, z3.Store(z3.Select(s.D, o), n, m)); s.ghost["m"], s.ghost["n"] = m, n; return m
        return {"module_attr": self.tab_hook(), "ext": {"mcpyrate.compiler:create_module": (stage("create", ok, mk, user=False), "contract of create_module")}}
    def finish(self, eng, s0, s, o, args):
        def body(s2, val):
            eng.oblige(s2, "body-sees-the-module", eng.toV(s2, val) == s2.ghost["m"]); eng.oblige(s2, "registered-in-the-body", z3.Select(z3.Select(s2.D, V.ov(self.tab)), s2.ghost["n"]) == s2.ghost["m"])
            out = []
            for bad in (0, 1):
                b = s2.clone(); havoc_user(b); b.ghost["end"] = z3.Select(b.D, V.ov(self.tab)); b.ghost["H"] = b.H; b.ghost["a"] = b.alloc + b.nalloc
                if bad: e = exc_any(b); b.ghost["e"] = e; out.append((b, ("raise", Exc(e, None))))
                else: out.append((b, ("next",)))
            return out
        return eng.run_cm(s, o[1], body)
    def post(self, p):
        g = p.s.ghost; t = tags(p)
        if t == ["create!"]: return [("creation-failure-passes", z3.BoolVal(p.raised) if not p.raised else p.exc.v == ev(p, 0))]
        i, pk, last = split_last(V.sv(g["n"])); pv = z3.Select(g["end"], V.str(pk)); r, f = fresh("r", Int), fresh("a", Str)
        gone = z3.And(z3.BoolVal(self.up), i >= 0, r == V.ov(pv), V.is_obj(pv), f == last)
        out = [("entry-gone-others-kept", z3.Select(p.s.D, V.ov(self.tab)) == z3.Store(g["end"], g["n"], ABSENT)), ("parent", z3.Implies(r < g["a"], z3.Select(p.s.H, r, f) == z3.If(gone, ABSENT, z3.Select(g["H"], r, f))))]
        return out + ([("outcome", p.exc.v == g["e"])] if p.raised else [("no-error-hidden", z3.BoolVal("e" not in g))])
class TemporaryModuleNoUpdate(TemporaryModule): label = "mcpyrate.compiler:temporary_module[update_parent=False]"; up = False

CONTRACTS = [SinglephaseExpand, SinglephaseExpandPlain, Expand, ExpandBytes, ExpandModule, ExpandList, ExpandBad, CompileImpl, CompileImplNoName, Compile, Run, RunNew, RunName, RunCode, RunBad, CreateModule, CreateModuleNoUpdate, CreateModuleUnnamed, CreateModuleBad, CreateModuleBadFile, TemporaryModule, TemporaryModuleNoUpdate]
