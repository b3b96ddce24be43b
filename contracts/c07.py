from contracts.base import *
import sys, importlib, importlib.util
from mcpyrate import expander as EXP

# ---------------------------------------------------------------- ismacroimport
def f_ismac(s, x, magic):
    """x is a from-import whose first name is the un-renamed magic name (spec)."""
    nm = z3.Select(s.L, V.ov(sel(s, x, "names")))[0]
    return z3.And(type_formula(x, ast.ImportFrom), sel(s, nm, "name") == magic, sel(s, nm, "asname") == NONE)
class IsMacroImport(Contract):
    target = "mcpyrate.coreutils:ismacroimport"
    def pre(self, c):
        self.x = c.obj("statement", ast.AST); self.m = c.str("magicname")
        nm = c.attr(self.x, "names"); sq = c.lst(nm); al = sq[0]
        c.assume(z3.Implies(type_formula(self.x, ast.ImportFrom), z3.And(cls_of(V.ov(self.x)) == cid(ast.ImportFrom), type_formula(nm, list), cls_of(V.ov(nm)) == cid(list), z3.Length(sq) >= 1,
                 V.is_obj(al), cls_of(V.ov(al)) == cid(ast.alias), V.is_str(c.attr(al, "name")), z3.Or(V.is_none(c.attr(al, "asname")), V.is_str(c.attr(al, "asname"))))))
        return [self.x, self.m], {}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        return [("iff", p.resultV == V.bool(f_ismac(p.s0, self.x, self.m)))] + p.unchanged("H", "L", "D")
class IsMacroImportDefault(IsMacroImport):
    label = "mcpyrate.coreutils:ismacroimport[default magic name]"
    def pre(self, c): a = super().pre(c); self.m = S("macros"); return [self.x], {}

# ---------------------------------------------------------------- get_macros
resolved_package = z3.Function("resolved_package", V, V)
resolved_name = z3.Function("resolved_name", V, V, V)
module_named = z3.Function("module_named", V, V)
reloaded = z3.Function("reloaded", V, V)
module_attr_of = lambda s, m, n: z3.Select(s.H, V.ov(m), V.sv(n))
def al_name(h, a): return z3.Select(h, V.ov(a), z3.StringVal("name"))
def al_as(h, a): return z3.Select(h, V.ov(a), z3.StringVal("asname"))
def bound_as(h, a): return z3.If(z3.Or(V.is_none(al_as(h, a)), al_as(h, a) == S("")), al_name(h, a), al_as(h, a))
BIND = Fold("macros_bound", DictVal, z3.K(V, ABSENT),
            lambda acc, a, h, m: z3.Store(acc, bound_as(h, a), z3.Select(h, V.ov(m), V.sv(al_name(h, a)))), extra=(HeapSort, V))
def alias_ok(h, a, m):
    o = z3.Select(h, V.ov(m), V.sv(al_name(h, a))); return z3.And(o != ABSENT, callable_p(o))
class GetMacros(Contract):
    """Absolute module name; exactly the listed names under their as-names, to that module's objects; every failure is an
    import error (or, if there is no module name, a syntax error) carrying the statement's location."""
    target = "mcpyrate.coreutils:get_macros"; must_reach = ("return", "raise")
    self_import = False; opts = (False, False)          # (reload, allow_asname)
    def pre(self, c):
        self.x = c.obj("macroimport", ast.ImportFrom, exact=True); self.fn = c.str("filename"); self.rl, self.aa = (B(b) for b in self.opts)
        self.sm = c.str("self_module"); self.names = c.list("names", "alias"); c.setattr(self.x, "names", self.names)
        self.module_, self.lv = c.attr(self.x, "module"), c.attr(self.x, "level")
        c.assume(z3.Length(c.lst(self.names)) >= 1, V.is_int(self.lv), V.iv(self.lv) >= 0, z3.Or(V.is_none(self.module_), V.is_str(self.module_)))
        c.assume((self.module_ == S("__self__")) if self.self_import else (self.module_ != S("__self__")))
        self.facts(c)
        self.NS = c.lst(self.names)
        c.s.ghost["H0"] = c.s.H; self.a0 = c.s.alloc
        # a well-formed alias at every index the proof looks at is supplied by the list's element kind
        return [self.x], {"filename": self.fn, "reload": self.rl, "allow_asname": self.aa, "self_module": self.sm}
    def facts(self, c): pass
    def hooks(self):
        def rp(eng, s, args, kw):
            log(s, S("resolve_package"), eng.toV(s, args[0]))
            r = resolved_package(eng.toV(s, args[0])); s1, s2, s3 = s, s.clone(), s.clone()
            s1.assume(V.is_str(r)); s1.meta["pkg"] = r
            s2.meta["pkgfail"] = s3.meta["pkgfail"] = True
            return [(s1, r), (s2, eng.raise_(s2, ValueError)), (s3, eng.raise_(s3, ImportError))]
        def unp(eng, s, args, kw):
            r = fresh("code"); s.assume(V.is_str(r)); log(s, S("unparse"), eng.toV(s, args[0]), r); return [(s, r)]
        def floc(eng, s, args, kw):
            r = fresh("loc"); s.assume(V.is_str(r)); s.meta["loc"] = r
            tr = s.ghost["trace"]; ev = V.tv(tr[z3.Length(tr) - 1])
            eng.oblige(s, "error-location", z3.And(eng.toV(s, args[0]) == self.fn, eng.toV(s, args[1]) == self.x, ev[0] == S("unparse"), ev[1] == self.x, eng.toV(s, args[2]) == ev[2]))
            return [(s, r)]
        def rn(eng, s, args, kw):
            n, pk = eng.toV(s, args[0]), eng.toV(s, args[1]) if len(args) > 1 else eng.toV(s, kw["package"])
            r = resolved_name(n, pk); s.meta["rn"] = (n, pk)
            s2 = s.clone(); s2.meta["rnfail"] = True; s.assume(V.is_str(r)); return [(s, r), (s2, eng.raise_(s2, ImportError))]
        def im(eng, s, args, kw):
            n = eng.toV(s, args[0]); r = module_named(n); s.assume(V.is_obj(r), V.ov(r) < s.alloc); log(s, S("import"), n)
            s2, s3 = s.clone(), s.clone(); s3.meta["otherfail"] = True
            return [(s, r), (s2, eng.raise_(s2, ModuleNotFoundError)), (s3, eng.raise_(s3, ZeroDivisionError))]
        def rl(eng, s, args, kw):
            m = eng.toV(s, args[0]); r = reloaded(m); s.assume(V.is_obj(r), V.ov(r) < s.alloc); log(s, S("reload"), m); return [(s, r)]
        def mods(eng, s):
            v = fresh("sysmodules"); s.assume(V.is_obj(v), V.ov(v) >= 0, V.ov(v) < s.alloc, cls_of(V.ov(v)) == cid(dict), isa(cls_of(V.ov(v)), cid(dict))); s.meta["sysmodules"] = v
            m = z3.Select(z3.Select(s.D, V.ov(v)), self.sm); s.assume(z3.Or(m == ABSENT, z3.And(V.is_obj(m), V.ov(m) < s.alloc)))
            return v
        M = "mcpyrate."
        return {"ext": {M + "coreutils:resolve_package": (rp, "contract of resolve_package (C17)"), M + "unparser:unparse_with_fallbacks": (unp, "returns a string for any tree (C01)"),
                        M + "utils:format_location": (floc, "contract of format_location (C12)"), "importlib.util.resolve_name": (rn, "a function of its two strings, or ImportError"), "importlib._bootstrap._resolve_name": (rn, "same"),
                        "importlib.import_module": (im, "a function of the absolute name, or an exception; does not touch the AST being expanded"), "importlib.reload": (rl, "returns the reloaded module; does not touch the AST")},
                "module_attr": {("sys", "modules"): lambda eng, s: mods(eng, s)}}
    def modv(self, p):
        """The module the names are looked up in."""
        if self.self_import: return z3.Select(z3.Select(p.s0.D, V.ov(p.s.meta["sysmodules"])), self.sm) if "sysmodules" in p.s.meta else None
        n, pk = p.s.meta.get("rn", (None, None))
        if n is None: return None
        m = module_named(resolved_name(n, pk)); return z3.If(V.bv(self.rl), reloaded(m), m)
    @property
    def loops(self):
        def inv(c):
            m = c.var("module"); b = c.var("bindings")
            return [("bound-so-far", c.dct(b) == BIND(c.done, c.s.ghost["H0"], m))]
        return (LoopSpec(inv, lambda c: BIND.axioms(c.seq, c.i, c.s.ghost["H0"], c.var("module")) + [old_elem(c.seq, c.i, self.a0)]),)
    def post(self, p):
        tr, s0 = p.trace(), p.s0
        rel = V.iv(self.lv) != 0
        out = p.unchanged("H", "L", "D")
        if p.raised:
            loc = p.s.meta.get("loc"); msg = V.tv(sel(p.s, p.exc.v, "args"))[0]
            if p.s.meta.get("otherfail"): return [("propagated", p.exc_is(ZeroDivisionError))]
            if p.s.meta.get("rnfail"): return [("kind", p.exc_is(ImportError))]
            if p.s.meta.get("pkgfail"): return [("kind", p.exc_is(ImportError)), ("relative-only", rel)] + out
            if loc is None: return [("located", False)]
            nomod = V.is_none(self.module_); selfrel = z3.BoolVal(False) if not self.self_import else rel
            return [("kind", z3.If(z3.Or(nomod, selfrel), p.exc_is(SyntaxError), p.exc_is(ImportError))), ("located", z3.And(V.is_str(msg), z3.PrefixOf(V.sv(loc), V.sv(msg))))] + out
        r = V.tv(p.resultV); m = self.modv(p)
        if m is None: return [("module", False)]
        rest = z3.Extract(self.NS, 1, z3.Length(self.NS) - 1)
        out += [("pair", z3.And(V.is_tup(p.resultV), z3.Length(r) == 2)), ("bindings", z3.Select(p.s.D, V.ov(r[1])) == BIND(rest, s0.H, m)), ("has-module", z3.Not(V.is_none(self.module_)))]
        if self.self_import: return out + [("absname", r[0] == self.sm), ("absolute-only", z3.Not(rel))]
        n, pk = p.s.meta["rn"]
        out += [("absname", r[0] == resolved_name(n, pk)), ("package", z3.If(z3.And(rel, z3.SuffixOf(z3.StringVal(".py"), V.sv(self.fn))), pk == resolved_package(self.fn), pk == NONE)),
                ("relative-name", n == V.str(z3.Concat(strmul(z3.StringVal("."), V.iv(self.lv)), V.sv(self.module_))))]
        return out
def gm_variant(rl, aa, me):
    return type(f"GetMacros{'R' if rl else ''}{'A' if aa else ''}{'Self' if me else ''}", (GetMacros,), dict(opts=(rl, aa), self_import=me, __doc__=GetMacros.__doc__,
                label=f"mcpyrate.coreutils:get_macros[{'from __self__, ' if me else ''}reload={rl}, allow_asname={aa}]"))
GETMACROS = [gm_variant(rl, aa, me) for me in (False, True) for rl in (False, True) for aa in (False, True)]

# ---------------------------------------------------------------- find_macros
ismac = z3.Function("ismacroimport_", V, V, Bool)
absname_of = z3.Function("absname_of", V, V); macros_of = z3.Function("macros_of", V, DictVal); dummy_of = z3.Function("dummy_of", V, V)
from pyvc.engine import dict_merge
ALL = Fold("bindings_of_body", DictVal, z3.K(V, ABSENT), lambda acc, x: z3.If(ismac(x, S("macros")), dict_merge(acc, macros_of(x)), acc))
LOCATTRS = ("lineno", "col_offset", "end_lineno", "end_col_offset")
def copy_location(eng, s, args, kw):
    new, old = eng.toV(s, args[0]), eng.toV(s, args[1])
    for a in LOCATTRS: eng.setH(s, new, a, sel(s, old, a))
    return [(s, args[0])]
def loc_eq(s, new, s0, old): return z3.And([sel(s, new, a) == sel(s0, old, a) for a in LOCATTRS])
class FindMacros(Contract):
    """All bindings, later imports overriding; an arbitrary statement (index j) is kept unless it is a macro-import, which
    becomes an import of the absolute module name with no names, or (self-import) a coverage marker."""
    target = "mcpyrate.expander:find_macros"; must_reach = ("return", "raise")
    transform, selfm = True, False
    def pre(self, c):
        self.t = c.obj("tree", ast.Module, exact=True); self.body = c.list("body", "stmt"); c.setattr(self.t, "body", self.body)
        self.fn = c.str("filename"); self.rl = c.bool("reload"); self.sm = c.str("self_module") if self.selfm else NONE
        self.B0 = c.lst(self.body); self.a0 = c.s.alloc; self.j = fresh("j", Int); x = self.x = self.B0[self.j]
        c.assume(self.j >= 0, self.j < z3.Length(self.B0), V.is_obj(x), V.ov(x) >= 0, V.ov(x) < c.s.alloc)
        self.watch = [self.j]; self.r = fresh("r", Int); self.rL = z3.Select(c.s.L, self.r)
        c.assume(*self.facts(c)); c.s.meta["s0"] = c.s.clone()
        return [self.t], {"filename": self.fn, "reload": self.rl, "self_module": self.sm, "transform": PyObj(self.transform)}
    def facts(self, c): return []
    def hooks(self):
        def ismi(eng, s, args, kw):
            m = eng.toV(s, kw.get("magicname", args[1] if len(args) > 1 else PyObj("macros"))); x = eng.toV(s, args[0])
            s.assume(z3.Implies(ismac(x, m), cls_of(V.ov(x)) == cid(ast.ImportFrom)))
            return [(s, V.bool(ismac(x, m)))]
        def gm(eng, s, args, kw):
            x = eng.toV(s, args[0])
            eng.oblige(s, "get_macros-args", z3.And(eng.toV(s, kw["filename"]) == self.fn, eng.toV(s, kw.get("reload", PyObj(False))) == self.rl, eng.toV(s, kw.get("self_module", PyObj(None))) == self.sm, z3.BoolVal("allow_asname" not in kw)))
            d = eng.alloc(s, dict); s.D = z3.Store(s.D, V.ov(d), macros_of(x)); ks = fresh("keys", SeqV); s.DK = z3.Store(s.DK, V.ov(d), ks)
            a = absname_of(x); s.assume(V.is_str(a)); s2 = s.clone()
            return [(s, Tup([a, d])), (s2, eng.raise_(s2, ImportError))]
        def dummy(eng, s, args, kw):
            x = eng.toV(s, args[1]); eng.oblige(s, "dummy-args", z3.And(eng.toV(s, args[0]) == NONE, eng.toV(s, args[3]) == self.fn))
            out = []
            for s1, b in eng.branch(s, z3.Or(sel(s, x, "lineno") != ABSENT, sel(s, x, "col_offset") != ABSENT)):
                out.append((s1, eng.alloc_list(s1, unit(dummy_of(x))) if b else PyObj(None)))
            return out
        M = "mcpyrate."
        return {"ext": {M + "coreutils:ismacroimport": (ismi, "contract of ismacroimport (this property)"), M + "coreutils:get_macros": (gm, "contract of get_macros (this property)"),
                        M + "expander:_insert_coverage_dummy_stmt": (dummy, "contract of _insert_coverage_dummy_stmt (this property)"), "ast.copy_location": (copy_location, "copies the location attributes")}}
    def at(self, s, s0, L, done=True):
        """what the statement at index j must have become."""
        y = L[self.j]; x = self.x; nm = sel(s, y, "names"); sq = z3.Select(s.L, V.ov(nm)); al = sq[0]
        self_import = z3.And(self.sm != NONE, V.is_str(self.sm), z3.Length(V.sv(self.sm)) > 0, sel(s0, x, "module") == S("__self__")) if self.selfm else z3.BoolVal(False)
        imp = dict(isimport=z3.And(V.is_obj(y), cls_of(V.ov(y)) == cid(ast.Import)), one=z3.And(V.is_obj(nm), z3.Length(sq) == 1), alias=z3.And(V.is_obj(al), cls_of(V.ov(al)) == cid(ast.alias)), name=sel(s, al, "name") == absname_of(x), noas=sel(s, al, "asname") == NONE,
                   loc=loc_eq(s, y, s0, x), aloc=loc_eq(s, al, s0, x), fresh=z3.And(V.ov(y) >= self.a0, V.ov(nm) >= self.a0, V.ov(al) >= self.a0), older=z3.And([V.ov(v) < s.alloc + s.nalloc for v in (y, nm, al)]))
        sel_ = z3.And(self.transform, ismac(x, S("macros")))
        dn = (lambda f: f) if done is True else (lambda f: z3.Implies(done, f))
        return [("j-import-" + k, dn(z3.Implies(z3.And(sel_, z3.Not(self_import)), f))) for k, f in imp.items()] + [("j-self-import", dn(z3.Implies(z3.And(sel_, self_import), y == dummy_of(x)))), ("j-kept", dn(z3.Implies(z3.Not(sel_), y == x)))]
    def hasloc(self, s0, x): return z3.Or(sel(s0, x, "lineno") != ABSENT, sel(s0, x, "col_offset") != ABSENT)
    @property
    def loops(self):
        def inv(c):
            L = c.lst(self.body); n = z3.Length(self.B0); d = c.var("bindings"); sd = c.var("stmts_to_delete"); s0 = c.s.meta["s0"]
            young = []
            return [("bindings", c.dct(d) == ALL(z3.Extract(self.B0, 0, c.i))), ("length", z3.Length(L) == n), ("none-deleted", c.lst(sd) == EMPTY),
                    ("rest", z3.Extract(L, c.i, n - c.i) == z3.Extract(self.B0, c.i, n - c.i)), ("j-later", z3.Implies(self.j >= c.i, L[self.j] == self.x)), ("frame", self.framed(c.s))] + self.at(c.s, s0, L, self.j < c.i)
        def ax(c):
            L = c.lst(self.body); n = z3.Length(self.B0); i = c.i
            return ALL.axioms(self.B0, i) + [old_elem(self.B0, i, self.a0), z3.Implies(z3.And(i >= 0, i < n, z3.Length(L) == n, z3.Extract(L, i, n - i) == z3.Extract(self.B0, i, n - i)), z3.And(L[i] == self.B0[i], z3.Extract(L, i + 1, n - i - 1) == z3.Extract(self.B0, i + 1, n - i - 1)))]
        return (LoopSpec(inv, ax), LoopSpec(lambda c: [("nothing-left", c.lst(self.body) == c.lst(self.body, c.pre) if c.pre is not None else z3.BoolVal(True))]))
    def post(self, p):
        if p.raised: return [("kind", p.exc_is(ImportError))]
        L = z3.Select(p.s.L, V.ov(self.body))
        out = [("bindings", z3.Select(p.s.D, V.ov(p.resultV)) == ALL(self.B0)), ("length", z3.Length(L) == z3.Length(self.B0)), ("frame.L", self.framed(p.s))] + self.at(p.s, p.s0, L) + p.unchanged("H", "D")
        return out
    def framed(self, s): return z3.Implies(z3.And(self.r < self.a0, self.r != V.ov(self.body)), z3.Select(s.L, self.r) == self.rL)

class FindMacrosKeep(FindMacros):
    label = "mcpyrate.expander:find_macros[transform off]"; transform = False
class FindMacrosSelf(FindMacros):
    """With a self module; every statement has a location (the location-less self-import, which is deleted, is bounded)."""
    label = "mcpyrate.expander:find_macros[self module]"; selfm = True
    @property
    def loops(self):
        l = super().loops; ax = l[0]._ax
        def with_loc(c): x = self.B0[c.i]; return z3.Implies(z3.And(c.i >= 0, c.i < z3.Length(self.B0)), sel(c.s.meta["s0"], x, "lineno") != ABSENT)
        return (LoopSpec(l[0]._inv, lambda c: ax(c) + [with_loc(c)]), l[1])
class FindMacrosSelfKeep(FindMacrosSelf):
    label = "mcpyrate.expander:find_macros[self module, transform off]"; transform = False

class InsertCoverageDummy(Contract):
    """None without a location; else the statements with a located, Done-wrapped marker assignment in front."""
    target = "mcpyrate.expander:_insert_coverage_dummy_stmt"
    def pre(self, c):
        self.x = c.obj("macronode", ast.AST); self.fn = c.str("filename"); self.nm = c.str("macroname"); self.t = self.tree(c)
        for a in ("lineno", "col_offset"): c.assume(z3.Or(c.attr(self.x, a) == ABSENT, V.is_int(c.attr(self.x, a))))
        c.assume((c.attr(self.x, "lineno") == ABSENT) == (c.attr(self.x, "col_offset") == ABSENT))
        return [self.t, self.x, self.nm, self.fn], {}
    def tree(self, c): return NONE
    def before(self, p): return EMPTY
    def frameL(self, p): return p.unchanged("L")
    def hooks(self): return {"ext": {"ast.copy_location": (copy_location, "copies the location attributes")}}
    def post(self, p):
        if not p.returned: return [("noraise", False)]
        s = p.s; ln = p.old(lambda c: c.attr(self.x, "lineno")); noloc = ln == ABSENT
        r = z3.Select(s.L, V.ov(p.resultV)); d = r[0]; b = sel(s, d, "body"); tg = z3.Select(s.L, V.ov(sel(s, b, "targets"))); n = tg[0]; v = sel(s, b, "value")
        text = V.str(z3.Concat(V.sv(self.fn), z3.StringVal(":"), to_str_int(ln), z3.StringVal(" invoked macro '"), V.sv(self.nm), z3.StringVal("'")))
        W = lambda f: z3.Implies(z3.Not(noloc), f)
        is_ = lambda o, C: z3.And(V.is_obj(o), cls_of(V.ov(o)) == cid(C))
        return [("without-location", z3.Implies(noloc, p.resultV == self.t)), ("prepended", W(r == z3.Concat(unit(d), self.before(p)))), ("done", W(is_(d, EXP.Done))), ("assign", W(is_(b, ast.Assign))),
                ("target", W(z3.And(z3.Length(tg) == 1, is_(n, ast.Name), sel(s, n, "id") == S("_mcpyrate_coverage"), is_(sel(s, n, "ctx"), ast.Store)))),
                ("value", W(z3.And(is_(v, ast.Constant), sel(s, v, "value") == text))), ("located", W(z3.And([loc_eq(s, o, p.s0, self.x) for o in (b, n, v)])))] + p.unchanged("H", "D") + self.frameL(p)
def to_str_int(v): return z3.If(V.is_str(v), V.sv(v), to_str(v))
class InsertCoverageDummyOne(InsertCoverageDummy):
    label = "mcpyrate.expander:_insert_coverage_dummy_stmt[one statement]"
    def tree(self, c): t = c.obj("tree", ast.stmt); return t
    def before(self, p): return unit(self.t)
class InsertCoverageDummyList(InsertCoverageDummy):
    label = "mcpyrate.expander:_insert_coverage_dummy_stmt[list]"
    def tree(self, c): t = c.list("tree", "stmt"); return t
    def before(self, p): return z3.Select(p.s0.L, V.ov(self.t))
    def frameL(self, p): return [p.unchanged_except("L", [V.ov(self.t)])]

CONTRACTS = [IsMacroImport, IsMacroImportDefault, *GETMACROS, FindMacros, FindMacrosKeep, FindMacrosSelf, FindMacrosSelfKeep, InsertCoverageDummy, InsertCoverageDummyOne, InsertCoverageDummyList]
