from contracts.base import *
from contracts.c15 import stage, exc_any
join = z3.Function("path_join", Str, Str, Str); islink = z3.Function("is_symlink", Str, Bool); isdir = z3.Function("is_directory", Str, Bool)
w_root = z3.Function("walk_root", V, Str); w_dirs = z3.Function("walk_dirs", V, V); w_files = z3.Function("walk_files", V, V)
walked = z3.Function("directories_under", Str, Bool, SeqV)       # (path, top-down?) -> one entry per directory, links not followed
op = z3.Function("then_removed", V, Bool, V, V)                   # history of attempted removals: (history, by rmdir?, path)
pure = lambda f, desc: (lambda e, s, a, k: [(s, f(e, s, a))], desc)
PATHS = {"posixpath.join": pure(lambda e, s, a: V.str(join(V.sv(e.toV(s, a[0])), V.sv(e.toV(s, a[1])))), "os.path.join"), "genericpath.islink": pure(lambda e, s, a: V.bool(islink(V.sv(e.toV(s, a[0])))), "os.path.islink"),
         "genericpath.isdir": pure(lambda e, s, a: V.bool(isdir(V.sv(e.toV(s, a[0])))), "os.path.isdir")}
def walk(e, s, args, kw):
    """os.walk: one (directory, its subdirectories, its other entries) per directory under the path; never through symbolic links unless asked."""
    kw = dict(kw, **dict(zip(("top", "topdown", "onerror", "followlinks"), args))); td, fl = e.toV(s, kw.get("topdown", TRUE)), e.toV(s, kw.get("followlinks", FALSE))
    e.oblige(s, "walk.links-not-followed", z3.Not(e.truth(s, fl))); W = walked(V.sv(e.toV(s, kw["top"])), e.truth(s, td))
    def elt(s2, i):
        w = z3.simplify(W[i]); d, f = w_dirs(w), w_files(w)
        s2.assume(*[z3.And(type_formula(x, list), cls_of(V.ov(x)) == cid(list), V.ov(x) >= 0, V.ov(x) < e.current.a0) for x in (d, f)], d != f)
        for x in (d, f): k = z3.simplify(x); s2.meta[("elem", k.get_id())] = "string"; s2.meta[("keep2", k.get_id())] = k
        return Tup([V.str(w_root(w)), d, f])
    r = SeqIter(z3.Length(W), elt); r.seq = W; return [(s, r)]
WALK = {"os.walk": (walk, walk.__doc__)}
PYC = S("__pycache__")

class GetDirs(Contract):
    """Exactly the real (not linked) directories named as bytecode caches, in walk order; a path that is no directory is rejected; nothing is touched."""
    target = "mcpyrate.pycachecleaner:getpycachedirs"; must_reach = ("return", "raise")
    def pre(self, c):
        self.p = c.str("path"); self.a0 = c.s.alloc; self.L = c.s.L; self.W = walked(V.sv(self.p), z3.BoolVal(True))
        def hit(w): return z3.And(z3.Contains(z3.Select(self.L, V.ov(w_dirs(w))), unit(PYC)), z3.Not(islink(join(w_root(w), V.sv(PYC)))))
        self.OUT = Fold("cache_dirs", SeqV, EMPTY, lambda acc, w: z3.If(hit(w), z3.Concat(acc, unit(V.str(join(w_root(w), V.sv(PYC))))), acc)); return [self.p], {}
    def hooks(self): return {"ext": dict(PATHS, **WALK)}
    @property
    def loops(self): return (LoopSpec(lambda c: [("so-far", c.lst(c.var("paths")) == self.OUT(c.done))], lambda c: self.OUT.axioms(self.W, c.i)),)
    def post(self, p):
        d = isdir(V.sv(self.p))
        if p.raised: return [("only-if-no-directory", z3.Not(d)), ("OSError", p.exc_is(OSError))] + p.unchanged("H", "L", "D")
        return [("a-directory", d), ("exactly-the-caches", z3.Select(p.s.L, V.ov(p.resultV)) == self.OUT(self.W))] + p.unchanged("H", "L", "D")

class DeleteAll(Contract):
    """Every listed cache directory, once, and nothing else; the first error stops it and passes on."""
    target = "mcpyrate.pycachecleaner:deletepycachedirs"; must_reach = ("return", "raise")
    def pre(self, c): self.p = c.str("path"); self.X = z3.Const("listed", SeqV); self.h0 = z3.Const("hist0", V); c.s.ghost["hist"] = self.h0; self.H_ = Fold("each_removed", V, self.h0, lambda h, x: op(h, z3.BoolVal(True), x)); return [self.p], {}
    def hooks(self):
        def get(e, s, args, kw):
            e.oblige(s, "list.path", e.toV(s, args[0]) == self.p); b = s.clone(); x = exc_any(b); b.ghost["e"] = x; return [(s, e.alloc_list(s, self.X)), (b, Exc(x, None))]
        def rm(e, s, args, kw):
            s.ghost["hist"] = op(s.ghost["hist"], z3.BoolVal(True), e.toV(s, args[0])); b = s.clone(); x = exc_any(b); b.ghost["e"] = x; return [(s, PyObj(None)), (b, Exc(x, None))]
        return {"ext": {"mcpyrate.pycachecleaner:getpycachedirs": (get, "contract of getpycachedirs"), "mcpyrate.pycachecleaner:_delete_directory_recursively": (rm, "contract of _delete_directory_recursively")}}
    @property
    def loops(self): return (LoopSpec(lambda c: [("each-once-in-order", c.s.ghost["hist"] == self.H_(c.done))], lambda c: self.H_.axioms(c.seq, c.i)),)
    def post(self, p):
        if p.raised: return [("error-passed-on", p.exc.v == p.s.ghost["e"])]
        return [("every-listed-directory", p.s.ghost["hist"] == self.H_(self.X))] + p.unchanged("H", "L", "D")

class DeleteTree(Contract):
    """Bottom-up: in every directory under the path each other entry is unlinked, each subdirectory removed - a link to a directory is unlinked instead -, at last the path itself; nothing else; only a vanished file is ignored."""
    target = "mcpyrate.pycachecleaner:_delete_directory_recursively"; must_reach = ("return", "raise"); rlimit = 60_000_000
    def pre(self, c):
        self.p = c.str("path"); self.a0 = c.s.alloc; self.L = c.s.L; self.W = walked(V.sv(self.p), z3.BoolVal(False)); self.h0 = z3.Const("hist0", V); c.s.ghost["hist"] = self.h0; T = z3.BoolVal(True); F = z3.BoolVal(False)
        self.FS = Fold("files_removed", V, lambda root, h: h, lambda h, x, root, h0: op(h, F, V.str(join(root, V.sv(x)))), extra=(Str, V))
        self.DS = Fold("dirs_removed", V, lambda root, h: h, lambda h, x, root, h0: op(h, z3.Not(islink(join(root, V.sv(x)))), V.str(join(root, V.sv(x)))), extra=(Str, V))
        self.WS = Fold("walk_removed", V, self.h0, lambda h, w: self.entry(h, w)); return [self.p], {}
    def entry(self, h, w): l = lambda o: z3.Select(self.L, V.ov(o)); return self.DS(l(w_dirs(w)), w_root(w), self.FS(l(w_files(w)), w_root(w), h))
    def hooks(self):
        def rm(isrmdir):
            def f(e, s, args, kw):
                if len(args) != 1 or kw: raise SpecMismatch("removal with options")
                s.ghost["hist"] = op(s.ghost["hist"], z3.BoolVal(isrmdir), e.toV(s, args[0])); b = s.clone(); x = exc_any(b, OSError); b.ghost["e"] = x; b.assume(V.ov(x) < b.alloc + b.nalloc)
                return [(s, PyObj(None)), (b, Exc(x, None))]
            return f
        return {"ext": dict(PATHS, **WALK, **{"posix.unlink": (rm(False), "removes a file or a link (not what it points to)"), "posix.remove": (rm(False), "the same as unlink"), "posix.rmdir": (rm(True), "removes an empty directory")})}
    @property
    def loops(self):
        def w(c): return c.pre.ghost["hist"]
        def path(c): return V.sv(c.var("root"))
        def outer(c): return [("whole-directories", c.s.ghost["hist"] == self.WS(c.done))]
        def inner(F):
            return LoopSpec(lambda c: [("each-once", c.s.ghost["hist"] == F(c.done, path(c), w(c)))], lambda c: F.axioms(c.seq, c.i, path(c), w(c)))
        return (LoopSpec(outer, lambda c: self.WS.axioms(self.W, c.i)), inner(self.FS), inner(self.DS))
    def post(self, p):
        if p.raised: return [("error-passed-on", p.exc.v == p.s.ghost["e"]), ("vanished-files-ignored", z3.Not(p.exc_is(FileNotFoundError)))]
        return [("exactly", p.s.ghost["hist"] == op(self.WS(self.W), z3.BoolVal(True), self.p))] + p.unchanged("H", "L", "D")
CONTRACTS = [GetDirs, DeleteAll, DeleteTree]
