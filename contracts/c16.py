from contracts.base import *
from contracts.c15 import stage, exc_any, tags, ev, fail_passed
from contracts.c07 import ismac
from importlib.machinery import SourceFileLoader
from mcpyrate import importer as IM
import types

# ---------------------------------------------------------------- the switch
def isfn(eng, v, name):
    """The value is that function of the importer module."""
    f = eng.fromV(z3.simplify(v)); return z3.BoolVal(isinstance(f, Fn) and (f.mod, f.qual) == ("mcpyrate.importer", name))
class Switch(Contract):
    """The loader class as an object with two attributes."""
    def loader(self, c):
        self.cls = c.eng.toV(c.s, PyObj(SourceFileLoader)); self.code0, self.stats0 = c.var("source_to_code"), c.var("path_stats"); c.assume(self.code0 != ABSENT, self.stats0 != ABSENT)
        c.setattr(self.cls, "source_to_code", self.code0); c.setattr(self.cls, "path_stats", self.stats0)
    def at(self, n): return (SourceFileLoader, n), lambda e, s: e.fromV(sel(s, self.cls, n))
    def hooks(self): return {"class_attr": dict([self.at("source_to_code"), self.at("path_stats")])}
    def now(self, s): return sel(s, self.cls, "source_to_code"), sel(s, self.cls, "path_stats")
    def only(self, p): return [p.unchanged_except("H", None, [(V.ov(self.cls), "source_to_code"), (V.ov(self.cls), "path_stats")])] + p.unchanged("L", "D")
class Activate(Switch):
    target = "mcpyrate.activate:activate"
    def pre(self, c): self.loader(c); return [], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        a, b = self.now(p.s); return [("compiles-with-macros", isfn(p.eng, a, "source_to_xcode")), ("dependency-aware-times", isfn(p.eng, b, "path_xstats"))] + self.only(p)
class Deactivate(Switch):
    target = "mcpyrate.activate:deactivate"
    def pre(self, c): self.loader(c); self.o1, self.o2 = c.var("saved_code"), c.var("saved_stats"); c.assume(self.o1 != ABSENT, self.o2 != ABSENT); return [], {}
    def hooks(self): return dict(super().hooks(), globals={("mcpyrate.activate", "stdlib_source_to_code"): lambda e, s: self.o1, ("mcpyrate.activate", "stdlib_path_stats"): lambda e, s: self.o2})
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        a, b = self.now(p.s); return [("saved-compiler", a == self.o1), ("saved-times", b == self.o2)] + self.only(p)
class ActivateModule(Switch):
    """The module's own code (run as a function body): importing it saves what was installed before, then activates; deactivating gives back exactly that, and activating again reinstalls the hooks."""
    target = "mcpyrate.activate:activate"; label = "mcpyrate.activate:<module>"
    def resolve(self, eng):
        t = eng.src.tree("mcpyrate.activate"); body = [x for x in t.body if not (isinstance(x, ast.Assign) and getattr(x.targets[0], "id", "") == "__all__") and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        f = ast.FunctionDef(name="module", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[], type_params=[]); ast.copy_location(f, t.body[0]); ast.fix_missing_locations(f)
        return Fn(f, None, "mcpyrate.activate", "module")
    def pre(self, c): self.loader(c); return [], {}
    def finish(self, eng, s0, s, o, args):
        if o[0] == "raise": return [(s, o)]
        on = lambda s: z3.And(isfn(eng, self.now(s)[0], "source_to_xcode"), isfn(eng, self.now(s)[1], "path_xstats")); fr = next((d for d in s.frames.values() if "deactivate" in d), None)
        if fr is None: raise SpecMismatch("no function deactivate")
        eng.oblige(s, "import.activates", on(s)); out = []
        for s1, r in eng.call(s, fr["deactivate"], [], {}):
            if isinstance(r, Exc): out.append((s1, ("raise", r))); continue
            eng.oblige(s1, "deactivate.restores", z3.And(self.now(s1)[0] == self.code0, self.now(s1)[1] == self.stats0))
            for s2, r2 in eng.call(s1, fr["activate"], [], {}):
                if isinstance(r2, Exc): out.append((s2, ("raise", r2))); continue
                eng.oblige(s2, "reactivate", on(s2))
                for s3, r3 in eng.call(s2, fr["deactivate"], [], {}):
                    eng.oblige(s3, "deactivate-again.restores", z3.And(self.now(s3)[0] == self.code0, self.now(s3)[1] == self.stats0)); out.append((s3, ("return", PyObj(None))))
        return out
    def post(self, p): return [("noraise", z3.BoolVal(p.returned))] + self.only(p)

class SourceToXcode(Contract):
    """The hook compiles the data with this path and the loader's own module name."""
    target = "mcpyrate.importer:source_to_xcode"; must_reach = ("return", "raise")
    def pre(self, c):
        self.w = c.obj("self", SourceFileLoader); self.nm = c.str("name_"); c.setattr(self.w, "name", self.nm); self.data, self.p = c.var("data"), c.str("path"); c.assume(self.data != ABSENT); return [self.w, self.data, self.p], {}
    def hooks(self):
        def ok(e, s, a, k, b): return [("source", e.toV(s, b["source"]) == self.data), ("filename", e.toV(s, b["filename"]) == self.p), ("self_module", e.toV(s, b["self_module"]) == self.nm)]
        return {"ext": {"mcpyrate.compiler:compile": (stage("compile", ok), "contract of compile (C15)")}}
    def post(self, p):
        t = tags(p)
        return [("once", z3.BoolVal(t == ["compile"])), ("code", p.resultV == ev(p, 0))] if p.returned else fail_passed(p, t)

class PathXstats(Contract):
    """Standard library files and files that are not Python source go to the standard implementation; everything else to path_stats."""
    target = "mcpyrate.importer:path_xstats"; must_reach = ("return", "raise")
    def pre(self, c):
        self.w = c.obj("self", SourceFileLoader); self.p = c.str("path"); self.std = c.set("stdlib_files"); self.f = c.var("standard_path_stats"); c.assume(V.is_obj(self.f)); return [self.w, self.p], {}
    def hooks(self):
        def st(e, s, f, args, kw):
            if not e.entails(s, e.toV(s, f) == self.f): return None
            e.oblige(s, "standard.arguments", z3.And(z3.BoolVal(len(args) == 2 and not kw), e.toV(s, args[0]) == self.w, e.toV(s, args[1]) == self.p)); return stage("standard")(e, s, args, kw)
        return {"globals": {("mcpyrate.importer", "_stdlib_sourcefile_paths"): lambda e, s: self.std, ("mcpyrate.importer", "_stdlib_path_stats"): lambda e, s: self.f}, "unknown_call": st,
                "ext": {"mcpyrate.importer:path_stats": (stage("ours", lambda e, s, a, k, b: [("path", e.toV(s, b["path"]) == self.p), ("no-cache", z3.BoolVal("_stats_cache" not in b))]), "contract of path_stats")}}
    def post(self, p):
        t = tags(p); std = z3.Or(p.old(lambda c: z3.Select(c.sset(self.std), self.p)), z3.Not(z3.SuffixOf(z3.StringVal(".py"), V.sv(self.p))))
        out = [("delegation", z3.And(z3.BoolVal(len(t) == 1), std == z3.BoolVal(t[0].startswith("standard"))))]
        return out + ([("result", p.resultV == ev(p, 0))] if p.returned else fail_passed(p, t))

# ---------------------------------------------------------------- the times
stat_ns = z3.Function("mtime_ns", V, Int); scaled = z3.Function("seconds", Int, V); latest = z3.Function("latest", SeqV, V)
rname = z3.Function("absolute_name", V, V, V); spec_of = z3.Function("spec_found", V, V); origin_of = z3.Function("origin", V, V); located = z3.Function("has_location", V, Bool); dep_time = z3.Function("dependency_time", V, V); asked = z3.Function("then_looked_up", V, V, V)
class Stats(Contract):
    def base(self, c):
        self.p = c.str("path"); self.own = scaled(stat_ns(self.p)); self.H, self.a0 = c.s.H, c.s.alloc; c.s.ghost["pkg"] = NONE; self.cache = c.dict("_stats_cache"); self.C0 = c.dct(self.cache)
        self.MT = Fold("dependency_times", SeqV, EMPTY, lambda acc, x, pkg: self.one(acc, x, pkg), extra=(V,)); self.DATA = Fold
        c.assume(z3.Select(self.C0, self.p) == ABSENT)
    def one(self, acc, x, pkg):
        sp = spec_of(rname(x, pkg)); o = origin_of(sp)
        return z3.If(z3.And(sp != NONE, located(sp)), z3.Concat(acc, unit(z3.If(z3.SuffixOf(z3.StringVal(".py"), V.sv(o)), dep_time(o), scaled(stat_ns(o))))), acc)
    def attr(self, eng, s, v, name):
        if name in ("module", "level"): s.meta["import"] = v; return None             # the import being looked at
        if name == "st_mtime_ns" and s.meta.get(("stat", z3.simplify(v).get_id())) is not None: return [(s, V.int(stat_ns(s.meta[("stat", z3.simplify(v).get_id())])))]
        if name in ("has_location", "origin") and s.meta.get(("spec", z3.simplify(v).get_id())) is not None:
            return [(s, V.bool(located(v)) if name == "has_location" else origin_of(v))]
    def binop(self, eng, s, op, a, b):
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                ok, o = eng.conc(y)
                if ok and isinstance(o, float) and is_v(x) and eng.entails(s, V.is_int(x)):
                    eng.oblige(s, "seconds.scale", z3.BoolVal(o == 1e-9)); return [(s, scaled(V.iv(x)))]
    def common(self):
        def st(e, s, args, kw):
            p = e.toV(s, args[0]); o = fresh("stat"); s.assume(V.is_obj(o), V.ov(o) >= 0, V.ov(o) < s.alloc + s.nalloc); k = z3.simplify(o).get_id(); s.meta[("stat", k)] = p; s.meta[("keep", k)] = z3.simplify(o)
            b = s.clone(); x = exc_any(b, OSError); b.ghost["e"] = x; return [(s, o), (b, Exc(x, None))]
        def cfs(e, s, args, kw): e.oblige(s, "cache-file.source", e.toV(s, args[0]) == self.p); r = z3.Concat(fresh("pyc", Str), z3.StringVal(".pyc")); return [(s, V.str(r))]
        def pkg(e, s, args, kw):
            e.oblige(s, "package.path", e.toV(s, args[0]) == self.p); r = V.str(fresh("package", Str)); out = []
            for K in (ValueError, ImportError):
                b = s.clone(); x = exc_any(b, K); b.ghost["perr"] = x; out.append((b, Exc(x, None)))
            s.ghost["pkg"] = r; return [(s, r)] + out
        def res(e, s, args, kw):
            full, pk = e.toV(s, args[0]), e.toV(s, args[1]); x = s.meta["import"]; e.oblige(s, "name.package", pk == s.ghost["pkg"])
            lv, m = sel(s, x, "level"), sel(s, x, "module"); dots = E_strmul(z3.StringVal("."), V.iv(lv)); e.oblige(s, "name.text", full == V.str(z3.Concat(dots, V.sv(m))))
            r = rname(x, s.ghost["pkg"]); s.assume(V.is_str(r)); b = s.clone(); y = exc_any(b, Exception); b.ghost["e"] = y; self.looked(s, x); return [(s, r), (b, Exc(y, None))]
        def find(e, s, args, kw):
            n = e.toV(s, args[0]); sp = spec_of(n); out = []
            b = s.clone(); b.assume(sp == NONE); x = exc_any(b, ValueError); out.append((b, Exc(x, None)))              # created dynamically: no spec
            b = s.clone(); x = exc_any(b, Exception); b.assume(z3.Not(type_formula(x, ValueError))); b.ghost["e"] = x; out.append((b, Exc(x, None)))
            self.found(s, sp); k = z3.simplify(sp).get_id(); s.meta[("spec", k)] = True; s.meta[("keep", k)] = z3.simplify(sp)
            s.assume(z3.Or(sp == NONE, z3.And(V.is_obj(sp), truthy_obj(V.ov(sp)), *[z3.Not(isa(cls_of(V.ov(sp)), cid(K))) for K in (list, dict, set, tuple, ast.AST)])), V.is_str(origin_of(sp))); return [(s, sp)] + out
        def rec(e, s, args, kw):
            b = bound(e, args, kw); o = e.toV(s, b["path"]); s.assume(dep_time(o) != ABSENT); d = z3.Select(s.D, V.ov(self.cachev(s))); e.oblige(s, "dependency.same-cache", e.toV(s, b.get("_stats_cache", NONE)) == self.cachev(s))
            prov = z3.Select(d, self.p); e.oblige(s, "dependency.own-time-known-meanwhile", z3.And(V.is_obj(prov), z3.Select(z3.Select(s.D, V.ov(prov)), S("mtime")) == self.own))
            n = fresh("cache_after", DictVal); s.assume(z3.Select(n, self.p) == prov); s.D = z3.Store(s.D, V.ov(self.cachev(s)), n)
            r = e.alloc_dict(s, [(PyObj("mtime"), dep_time(o)), (PyObj("size"), PyObj(None))]); b = s.clone(); x = exc_any(b, Exception); b.ghost["e"] = x; return [(s, r), (b, Exc(x, None))]
        text = lambda e, s, a, k: [(s, V.str(fresh("text", Str)))]
        return {"attr": self.attr, "binop": self.binop, "max": lambda e, s, a, k: [(s, latest(z3.simplify(z3.Select(s.L, V.ov(e.toV(s, a[0]))))))],
                "ext": {"posix.stat": (st, "os.stat"), "_frozen_importlib_external.cache_from_source": (cfs, "the place of the bytecode cache (ends with .pyc)"), "mcpyrate.coreutils:resolve_package": (pkg, "contract of resolve_package (C17)"),
                        "importlib.util.resolve_name": (res, "absolute module name"), "importlib.util.find_spec": (find, "the module's spec, or None; ValueError for a module created dynamically"), "mcpyrate.importer:path_stats": (rec, "recursive call: this contract; may add other files to the cache"),
                        "mcpyrate.unparser:unparse_with_fallbacks": (text, "some text"), "mcpyrate.utils:format_location": (text, "some text")}}
    def cachev(self, s): return self.cache
    def looked(self, s, x): pass
    def found(self, s, sp): pass
from pyvc.engine import strmul as E_strmul

class StatsRemembered(Stats):
    """With a remembered list made from this version of the file: the latest of the file's own time and its dependencies' times, stored and returned; the list is not made anew."""
    target = "mcpyrate.importer:path_stats"; label = "mcpyrate.importer:path_stats[remembered imports]"; must_reach = ("return", "raise"); rlimit = 60_000_000
    def pre(self, c):
        self.base(c); self.M, self.Dl = c.list("macroimports", ast.ImportFrom), c.list("dialectimports", ast.ImportFrom); self.rel = c.bool("has_relative"); self.X = z3.Concat(c.lst(self.M), c.lst(self.Dl)); return [self.p, self.cache], {}
    def hooks(self):
        h = self.common()
        def op(e, s, args, kw): f = fresh("file"); s.assume(V.is_obj(f)); s.meta["file"] = f; return [(s, f)]
        def wi(e, s, c, ov, body, fr):
            out = []
            for s1, x in (e.assign_target(ov, c, s, fr) if ov is not None else [(s, None)]): out += e.block(body, s1, fr)
            return out
        def load(e, s, args, kw): return [(s, e.alloc_dict(s, [(PyObj("st_mtime_ns"), V.int(stat_ns(self.p))), (PyObj("macroimports"), self.M), (PyObj("dialectimports"), self.Dl), (PyObj("has_relative_macroimports"), self.rel)]))]
        def no(e, s, args, kw): e.oblige(s, "remembered-list-is-used", z3.BoolVal(False)); raise SpecMismatch("source read although the list is remembered")
        h["with"] = wi; h["ext"].update({"_io.open": (op, "opens the file"), "_pickle.load": (load, "the remembered data"), "tokenize.open": (no, "never called here")}); return h
    @property
    def loops(self):
        def inv(c):
            prov = z3.Select(c.dct(self.cache), self.p)
            return [("times-so-far", c.lst(c.var("mtimes")) == self.MT(c.done, c.s.ghost["pkg"])), ("own-time-known", z3.And(V.is_obj(prov), V.ov(prov) >= self.a0, V.ov(prov) < c.s.alloc + c.s.nalloc, z3.Select(c.dct(prov), S("mtime")) == self.own))]
        def ax(c):
            x = z3.simplify(self.X[c.i])
            return self.MT.axioms(self.X, c.i, c.s.ghost["pkg"]) + [z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(self.X)), z3.And(type_formula(x, ast.ImportFrom), V.is_int(sel(c.s, x, "level")), V.ov(x) < self.a0, V.ov(x) >= 0))]
        return (LoopSpec(inv, ax),)
    def post(self, p):
        g = p.s.ghost
        if p.raised:
            e = p.exc
            if e.cls is SyntaxError or "e" not in g and "perr" not in g: return [("missing-module-name", p.exc_is(SyntaxError))]
            if "e" in g: return [("error-passed-on", e.v == g["e"])]
            return [("ImportError", p.exc_is(ImportError)), ("cause", sel(p.s, e.v, "__cause__") == g["perr"])]
        r = p.resultV; D = z3.Select(p.s.D, V.ov(r)); C = z3.Select(p.s.D, V.ov(self.cache))
        return [("latest", z3.Select(D, S("mtime")) == latest(z3.Concat(self.MT(self.X, g["pkg"]), unit(self.own)))), ("size-unknown", z3.Select(D, S("size")) == NONE), ("remembered-for-this-run", z3.Select(C, self.p) == r), ("package-iff-relative", (g["pkg"] != NONE) == V.bv(self.rel))]
class StatsCached(Stats):
    """A file whose time is known in this run: that time, nothing else happens."""
    target = "mcpyrate.importer:path_stats"; label = "mcpyrate.importer:path_stats[known]"
    def pre(self, c): self.p = c.str("path"); self.cache = c.dict("_stats_cache"); self.e = z3.Select(c.dct(self.cache), self.p); c.assume(self.e != ABSENT); return [self.p, self.cache], {}
    def post(self, p): return [("known", p.resultV == self.e if p.returned else z3.BoolVal(False))] + p.unchanged("H", "L", "D")

CONTRACTS = [Activate, Deactivate, ActivateModule, SourceToXcode, PathXstats, StatsCached, StatsRemembered]
