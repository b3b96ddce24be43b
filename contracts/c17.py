from contracts.base import *
from contracts.c15 import exc_any
from pyvc import engine as E
# A path is the tuple of its parts. Trusted pathlib facts (POSIX): equality of paths is equality of parts; parents are the non-empty proper prefixes of the parts.
raw = z3.Function("path_from", V, SeqV); expand = z3.Function("expanduser", SeqV, SeqV); resolve = z3.Function("resolve", SeqV, SeqV); parents = z3.Function("parents_of", SeqV, SeqV)
def abs_(x): return resolve(expand(raw(x)))
def pstr(parts): return E.to_str(V.tup(parts))
def within(r, p): return z3.PrefixOf(r, p)                        # the directory r is p, or contains p
def parents_fact(r, p): return z3.And(z3.Contains(parents(p), unit(V.tup(r))) == z3.And(z3.Length(r) > 0, z3.Length(r) < z3.Length(p), z3.PrefixOf(r, p)), z3.Implies(z3.And(z3.PrefixOf(r, p), z3.Length(r) == z3.Length(p)), r == p))
PATH = {"pathlib.Path": (lambda e, s, a, k: [(s, V.tup(raw(e.toV(s, a[0]))))], "pathlib.Path: a path is its parts; equality, parents, parent and depth are those of the parts")}
class P(Contract):
    def attr(self, eng, s, v, name):
        if not eng.entails(s, V.is_tup(v)): return None
        if name == "parts": return [(s, v)]
        if name == "parents": return [(s, eng.alloc_list(s, parents(V.tv(v))))]
        if name == "parent": return [(s, V.tup(z3.Extract(V.tv(v), 0, z3.Length(V.tv(v)) - 1)))]
    def method(self, eng, s, v, name, args, kw):
        if not is_v(v) or args or kw or not eng.entails(s, V.is_tup(v)): return None
        if name == "expanduser": return [(s, V.tup(expand(V.tv(v))))]
        if name == "resolve": return [(s, V.tup(resolve(V.tv(v))))]
    def base_hooks(self): return {"attr": self.attr, "method": self.method, "ext": dict(PATH)}

class MatchSyspath(P):
    """The deepest entry of the import path that is the file or really contains it; ValueError iff there is none."""
    target = "mcpyrate.coreutils:match_syspath"; must_reach = ("return", "raise")
    def pre(self, c):
        self.f = c.str("filename"); self.A = abs_(self.f); self.path = c.list("sys_path", "string"); self.SP = c.lst(self.path); c.assume(z3.Length(self.A) > 0)
        self.k = z3.Int("an_entry"); c.assume(self.k >= 0, self.k < z3.Length(self.SP)); self.ent = abs_(self.SP[self.k]); c.assume(z3.Length(self.ent) > 0); self.m = z3.Int("its_rank"); self.R = z3.Const("by_depth", SeqV)
        self.ALL = Fold("resolved_entries", SeqV, EMPTY, lambda a, x: z3.Concat(a, unit(V.tup(abs_(x))))); self.src = z3.Function("which_entry", Int, Int)
        return [self.f], {}
    def hooks(self):
        def srt(eng, s, l, kw):
            """sorted(): a permutation in which no element has a key below an earlier one's."""
            sq = z3.simplify(z3.Select(s.L, V.ov(l))); eng.oblige(s, "candidates.are-the-resolved-entries", sq == self.ALL(self.SP)); R = self.R
            if "reverse" in kw: raise SpecMismatch("reverse order")
            # the key orders by depth, deepest first: on any two paths
            a, b = V.tup(z3.Const("path_a", SeqV)), V.tup(z3.Const("path_b", SeqV)); st = s.clone(); n = 0
            for s1, ka in (eng.call(st, kw["key"], [a], {}) if "key" in kw else [(st, a)]):
                for s2, kb in (eng.call(s1, kw["key"], [b], {}) if "key" in kw else [(s1, b)]):
                    if isinstance(ka, Exc) or isinstance(kb, Exc): raise SpecMismatch("sort key raises")
                    x, y = eng.toV(s2, ka), eng.toV(s2, kb); n += 1
                    fx, fy = (z3.If(V.is_tup(v), V.tv(v)[0], v) for v in (x, y))
                    eng.oblige(s2, "order.deepest-first", z3.Implies(z3.Length(V.tv(a)) > z3.Length(V.tv(b)), z3.And(V.is_int(fx), V.is_int(fy), V.iv(fx) < V.iv(fy))))
            if not n: raise SpecMismatch("no path through the sort key")
            s.assume(z3.Length(R) == z3.Length(self.SP), self.m >= 0, self.m < z3.Length(R), R[self.m] == V.tup(self.ent))
            return [(s, eng.alloc_list(s, R))]
        return dict(self.base_hooks(), sorted=srt, module_attr={("sys", "path"): lambda e, s: self.path})
    def rank(self, i):
        """What sortedness, the permutation, and pathlib say about the i-th candidate."""
        r = V.tv(self.R[i]); inr = z3.And(i >= 0, i < z3.Length(self.R)); j = self.src(i)
        return [z3.Implies(inr, z3.And(V.is_tup(self.R[i]), z3.Length(r) > 0, j >= 0, j < z3.Length(self.SP), self.R[i] == V.tup(abs_(self.SP[j])))), z3.Implies(z3.And(inr, i <= self.m), z3.Length(r) >= z3.Length(self.ent)), parents_fact(r, self.A), self.R[self.m] == V.tup(self.ent)]
    @property
    def loops(self):
        return (LoopSpec(lambda c: [("resolved", z3.Select(c.s.L, V.ov(c.var("$acc"))) == self.ALL(c.done))], lambda c: self.ALL.axioms(self.SP, c.i)),
                LoopSpec(lambda c: [("entry-not-yet-passed-over", z3.Implies(self.m < c.i, z3.Not(within(self.ent, self.A))))], lambda c: self.rank(c.i) + self.rank(z3.simplify(c.i - 1))))
    def post(self, p):
        hit = within(self.ent, self.A)
        if p.raised: return [("no-entry-contains-it", z3.Not(hit)), ("ValueError", p.exc_is(ValueError))] + p.unchanged("H", "L", "D")
        r = V.tv(p.resultV); i = z3.Int("i_res")
        return [("a-path", V.is_tup(p.resultV)), ("contains-it", within(r, self.A)), ("deepest", z3.Implies(hit, z3.Length(self.ent) <= z3.Length(r)))] + p.unchanged("H", "L", "D")
class MatchSyspathEmpty(MatchSyspath):
    """With an empty import path nothing matches."""
    label = "mcpyrate.coreutils:match_syspath[empty path]"; must_reach = ("raise",)
    def pre(self, c):
        self.f = c.str("filename"); self.A = abs_(self.f); self.path = c.list("sys_path", "string"); c.assume(c.lst(self.path) == EMPTY); return [self.f], {}
    loops = (LoopSpec(lambda c: [("none", z3.Length(c.s.L[V.ov(c.var("$acc"))]) == 0)]), LoopSpec(lambda c: []))
    def hooks(self):
        def srt(eng, s, l, kw): s.assume(z3.Select(s.L, V.ov(l)) == EMPTY); return [(s, eng.alloc_list(s, EMPTY))]
        return dict(self.base_hooks(), sorted=srt, module_attr={("sys", "path"): lambda e, s: self.path})
    def post(self, p): return [("ValueError", p.exc_is(ValueError) if p.raised else z3.BoolVal(False))] + p.unchanged("H", "L", "D")

SEP = z3.StringVal("/"); rel = z3.Function("relative_path", SeqV, SeqV, Str)       # the rest of the path as text, without a leading separator
def rel_fact(root, p):
    """POSIX: the text of a path is that of a directory that contains it, a separator unless that ends with one (the root directory), and the rest; the rest does not start with a separator and is empty iff they are the same."""
    a, r = pstr(root), rel(root, p)
    return z3.Implies(z3.PrefixOf(root, p), z3.And(z3.If(z3.Length(root) == z3.Length(p), z3.And(r == z3.StringVal(""), root == p), z3.And(z3.Length(r) > 0, pstr(p) == z3.If(z3.SuffixOf(SEP, a), z3.Concat(a, r), z3.Concat(a, SEP, r)))), z3.Not(z3.PrefixOf(SEP, r)), z3.Length(a) > 0))
class Relativize(P):
    """(the matching entry, the rest of the path as text)."""
    target = "mcpyrate.coreutils:relativize"; must_reach = ("return", "raise")
    def pre(self, c):
        self.f = c.var("filename"); c.assume(self.f != ABSENT, z3.Or(V.is_str(self.f), V.is_tup(self.f))); self.A = abs_(self.f)
        c.assume(abs_(V.str(pstr(self.A))) == self.A)       # resolving the text of a resolved path gives it back
        return [self.f], {}
    def hooks(self):
        def ms(e, s, args, kw):
            x = e.toV(s, args[0]); e.oblige(s, "match.file", abs_(x) == self.A); r = z3.Const("root_parts", SeqV); s.assume(within(r, self.A), rel_fact(r, self.A), z3.Length(r) > 0); s.ghost["root"] = V.tup(r)
            b = s.clone(); x = exc_any(b, ValueError); b.ghost["e"] = x; return [(s, V.tup(r)), (b, Exc(x, None))]
        h = self.base_hooks(); h["ext"]["mcpyrate.coreutils:match_syspath"] = (ms, "contract of match_syspath"); return h
    def post(self, p):
        if p.raised: return [("ValueError-passed-on", p.exc.v == p.s.ghost["e"])]
        r = V.tv(p.resultV); root = V.tv(p.s.ghost["root"])
        return [("pair", z3.And(V.is_tup(p.resultV), z3.Length(r) == 2)), ("entry", r[0] == p.s.ghost["root"]), ("rest", r[1] == V.str(rel(root, self.A)))] + p.unchanged("H", "L", "D")



class ResolvePackage(P):
    """The dotted form of the containing directory under its entry; ImportError at the top level of an entry; ValueError outside every entry."""
    target = "mcpyrate.coreutils:resolve_package"; must_reach = ("return", "raise")
    def pre(self, c): self.f = c.str("filename"); self.A = abs_(self.f); c.assume(z3.Length(self.A) > 0); self.dir = z3.Extract(self.A, 0, z3.Length(self.A) - 1); return [self.f], {}
    def hooks(self):
        def rl(e, s, args, kw):
            x = e.toV(s, args[0]); s.assume(z3.Implies(V.is_tup(x), raw(x) == V.tv(x)), resolve(expand(self.dir)) == self.dir)      # Path(path) is that path; a resolved path stays as it is
            e.oblige(s, "relativize.containing-directory", abs_(x) == self.dir); r = z3.Const("rest", Str); s.ghost["r"] = r
            b = s.clone(); y = exc_any(b, ValueError); b.ghost["e"] = y; return [(s, Tup([V.tup(z3.Const("root_parts", SeqV)), V.str(r)])), (b, Exc(y, None))]
        h = self.base_hooks(); h["ext"]["mcpyrate.coreutils:relativize"] = (rl, "contract of relativize"); return h
    def post(self, p):
        if "e" in p.s.ghost: return [("ValueError-passed-on", p.exc.v == p.s.ghost["e"] if p.raised else z3.BoolVal(False))]
        r = p.s.ghost["r"]; top = r == z3.StringVal("")
        if p.raised: return [("at-the-top-level", top), ("ImportError", p.exc_is(ImportError))] + p.unchanged("H", "L", "D")
        return [("dotted", p.resultV == V.str(str_replace_all(r, SEP, z3.StringVal(".")))), ("inside-a-package", z3.Not(top))] + p.unchanged("H", "L", "D")
CONTRACTS = [MatchSyspath, MatchSyspathEmpty, Relativize, ResolvePackage]
