"""Forward symbolic execution / VC generation over real Python source."""
import ast
import builtins as _bi
import contextlib
import copy as _copymod
import functools
import importlib
import inspect
import os
import sys
import types
import itertools
import z3
from .terms import *
from . import terms as T


class Unsupported(Exception):
    """The construct is outside the verifier's subset."""

# ------------------------------------------------------------------ values
class PyObj:
    """A concrete Python object known at verification time (module, class, function, constant)."""
    __slots__ = ("o",)
    def __init__(self, o): self.o = o
    def __repr__(self): return f"PyObj({self.o!r})"
class Tup:
    __slots__ = ("els",)
    def __init__(self, els): self.els = list(els)
    def __repr__(self): return f"Tup({self.els})"
class Fn:
    """A function in source: AST + defining frame + module."""
    def __init__(self, node, fid, mod, qual, self_=None, cls=None, cm=False, defaults=None, kwdefaults=None):
        self.node, self.fid, self.mod, self.qual, self.self_, self.cls, self.cm = node, fid, mod, qual, self_, cls, cm
        self.defaults, self.kwdefaults = defaults, kwdefaults
    def bind(self, s):
        return Fn(self.node, self.fid, self.mod, self.qual, s, self.cls, self.cm, self.defaults, self.kwdefaults)
    def __repr__(self): return f"Fn({self.qual})"
class Cls:
    """A class defined in source (module-level or local)."""
    def __init__(self, node, fid, mod, qual, bases, attrs, pyobj=None):
        self.node, self.fid, self.mod, self.qual, self.bases, self.attrs, self.pyobj = node, fid, mod, qual, bases, attrs, pyobj
        self.cid = T.static_id(pyobj if pyobj is not None else self)
    def __repr__(self): return f"Cls({self.qual})"
class ConstDict(dict):
    """A table that nothing changes: its actual contents are used."""
class Part:
    """functools.partial(f, *args, **kw)"""
    def __init__(self, f, args, kw): self.f, self.args, self.kw = f, list(args), dict(kw)
class Meth:
    """A builtin method bound to a symbolic value."""
    def __init__(self, recv, name, kind): self.recv, self.name, self.kind = recv, name, kind
class TypeOf:
    def __init__(self, v): self.v = v
class SeqIter:
    """A (lazy) sequence value: z3 Seq term; `elt(seqterm, i)` gives element as Val."""
    def __init__(self, n, elt, live=None, hint=None): self.n, self.elt, self.live, self.hint = n, elt, live, hint
    def dynamic(self, eng, o):
        """The same iteration, but reading the list's current contents."""
        inner = getattr(self, "inner", None)
        live = self.live
        def el(s, i):
            x = z3.simplify(z3.Select(s.L, o)[i])
            eng.elem_fact(s, live, x)
            return eng.fromV(x)
        r = SeqIter(self.n, el if inner is None else (lambda s, i: Tup([V.int(i), el(s, i)])), live=live, hint=self.hint)
        for a in ("seq", "seq_inner"):
            if hasattr(self, a): setattr(r, a, getattr(self, a))
        return r
class GenVal:
    def __init__(self, node, fid, fr): self.node, self.fid, self.fr = node, fid, fr
class CM:
    def __init__(self, fn, args, kwargs): self.fn, self.args, self.kwargs = fn, args, kwargs
class Super:
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_
class Star:
    def __init__(self, v): self.v = v
class Exc:
    """A raised exception as an evaluation outcome."""
    def __init__(self, v, cls=None): self.v, self.cls = v, cls   # v: V term (obj); cls: python class or None
    def __repr__(self): return f"Exc({self.cls.__name__ if self.cls else self.v})"

NEXT = ("next",)
def is_v(x): return isinstance(x, z3.ExprRef) and x.sort() == V

# ------------------------------------------------------------------ state
class State:
    __slots__ = ("pc", "frames", "H", "L", "D", "DK", "SS", "alloc", "nalloc", "ghost", "yh", "notes", "hbase", "meta")
    def clone(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.H, s.L, s.D, s.DK, s.SS = self.H, self.L, self.D, self.DK, self.SS
        s.alloc, s.nalloc = self.alloc, self.nalloc
        s.ghost = dict(self.ghost)
        s.yh = self.yh
        s.notes = list(self.notes)
        s.meta = dict(self.meta)
        return s
    def assume(self, *fs):
        for f in fs:
            if isinstance(f, bool): f = z3.BoolVal(f)
            if z3.is_true(f): continue
            self.pc.append(f)

def new_state():
    s = State.__new__(State)
    s.pc, s.frames = [], {}
    s.H = fresh("H", HeapSort); s.L = fresh("L", ListSort); s.D = fresh("D", DictSort)
    s.DK = fresh("DK", ListSort); s.SS = fresh("SS", SetSort)
    s.alloc = fresh("alloc", Int); s.nalloc = 0
    s.ghost = {"trace": EMPTY}
    s.yh = None
    s.notes = []
    s.meta = {}
    s.assume(s.alloc > 0)
    return s

# ------------------------------------------------------------------ source registry
class Source:
    """Parsed modules of the tree under verification."""
    def __init__(self, root):
        self.root = root
        self.trees, self.mods, self.defs = {}, {}, {}
    def module(self, name):
        if name not in self.mods:
            self.mods[name] = importlib.import_module(name)
        return self.mods[name]
    def tree(self, name):
        if name not in self.trees:
            f = self.module(name).__file__
            with open(f, encoding="utf-8") as fh: src = fh.read()
            t = ast.parse(src, filename=f); mangle(t)
            self.trees[name] = t
            for n in t.body: self._index(name, n, "")
        return self.trees[name]
    def _index(self, mod, n, prefix):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = prefix + n.name
            self.defs[(mod, q)] = n
            if isinstance(n, ast.ClassDef):
                for m in n.body: self._index(mod, m, q + ".")
        elif isinstance(n, (ast.If, ast.Try)):
            for f in ("body", "orelse", "finalbody"):
                for m in getattr(n, f, []): self._index(mod, m, prefix)
    def get(self, mod, qual):
        self.tree(mod)
        return self.defs.get((mod, qual))

def mangle(tree, cls=None):
    """Private names inside a class get its name in front, as Python does when compiling."""
    for n in ast.iter_child_nodes(tree):
        if cls and isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__"): n.attr = f"_{cls.lstrip('_')}{n.attr}"
        mangle(n, n.name if isinstance(n, ast.ClassDef) else cls)
def local_names(node):
    """Names local to a function (params, assigned names minus nonlocal/global)."""
    names, non = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        names.add(x.arg)
    def w(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name); 
            return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return
        if isinstance(n, (ast.Nonlocal, ast.Global)): non.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names: names.add((al.asname or al.name).split(".")[0])
        for c in ast.iter_child_nodes(n): w(c)
    body = node.body if isinstance(node.body, list) else []
    for st in body: w(st)
    return names - non

def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
    return False


class Engine:
    def __init__(self, source, registry, stats):
        self.src = source
        self.reg = registry          # contracts: {(mod, qual): Contract}
        self.stats = stats
        self.nextfid = 0
        self.current = None          # contract being verified
        self.obligations = []        # (name, pc, goal, info)
        self.depth = 0
        self.assumptions = set()
        self.used_contracts = set()
        self.inlined = set()
        self.loop_ord = {}
        self.loop_keep = []
        self.pathbudget = 6000
        self.localcls = {}
        self.suppress = 0
        self.solver_cache = {}
        self.models = []

    # ---------------- solver helpers
    def feasible(self, st):
        self.stats["feas"] = self.stats.get("feas", 0) + 1
        return not self.unsat(st.pc, [], 400000)
    def unsat(self, pc, goal, rl):
        """Is pc & goal unsatisfiable (as far as the solver can tell within rl)?  False is always the safe answer."""
        g, full, any_q = ground(pc, goal)
        g = list(g); ax = lattice_axioms(g + list(goal))
        for i, m in enumerate(self.models):          # an earlier model may already be a witness
            if all(z3.is_true(m.eval(f, model_completion=True)) for f in itertools.chain(goal, reversed(g), ax)):
                self.models.insert(0, self.models.pop(i)); self.stats["model_hits"] = self.stats.get("model_hits", 0) + 1
                if full: return False
                break
        else:
            s = z3.Solver(); s.set("rlimit", rl)
            fast_add(s, g); fast_add(s, goal); fast_add(s, ax)
            r = s.check()
            if r == z3.unsat: return True
            if r == z3.sat:
                self.models.insert(0, s.model()); del self.models[6:]
            if full: return False
        s = z3.Solver(); s.set("rlimit", rl)
        fast_add(s, pc); fast_add(s, goal); fast_add(s, lattice_axioms(list(pc) + list(goal)))
        return s.check() == z3.unsat
    def entails(self, st, f, rl=400000):
        if z3.is_true(f): return True
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f) : pass
        self.stats["ent"] = self.stats.get("ent", 0) + 1
        return self.unsat(st.pc, [z3.Not(f)], rl)
    def branch(self, st, f):
        """Split on formula f: list of (state, bool)."""
        f = z3.simplify(f)
        if z3.is_true(f): return [(st, True)]
        if z3.is_false(f): return [(st, False)]
        out = []
        a = st.clone(); a.assume(f)
        b = st.clone(); b.assume(z3.Not(f))
        fa, fb = self.feasible(a), self.feasible(b)
        if fa: out.append((a, True))
        if fb: out.append((b, False))
        self.stats["paths"] = self.stats.get("paths", 0) + (1 if fa and fb else 0)
        if self.stats.get("paths", 0) > self.pathbudget: raise Unsupported("path budget exceeded")
        return out

    def oblige(self, st, name, goal, info=None):
        if self.suppress: return
        self.obligations.append((name, list(st.pc), goal, info))

    # ---------------- allocation
    def alloc(self, st, cls):
        o = st.alloc + st.nalloc
        st.nalloc += 1
        o = z3.simplify(o)
        c = cid(cls) if isinstance(cls, type) else (z3.IntVal(cls.cid) if isinstance(cls, Cls) else cls)
        st.assume(cls_of(o) == c)
        return V.obj(o)
    def alloc_list(self, st, seqterm, cls=list):
        v = self.alloc(st, cls)
        st.L = z3.Store(st.L, z3.simplify(V.ov(v)), seqterm)
        return v
    def alloc_dict(self, st, items=()):
        v = self.alloc(st, dict)
        o = z3.simplify(V.ov(v))
        d = z3.K(V, ABSENT); keys = EMPTY
        for k, x in items:
            k = self.toV(st, k)
            keys = z3.simplify(z3.If(z3.Select(d, k) == ABSENT, z3.Concat(keys, unit(k)) if True else keys, keys))
            d = z3.Store(d, k, self.toV(st, x))
        st.D = z3.Store(st.D, o, d); st.DK = z3.Store(st.DK, o, keys)
        return v
    def alloc_set(self, st, els=()):
        v = self.alloc(st, set)
        s = z3.K(V, z3.BoolVal(False))
        for e in els: s = z3.Store(s, self.toV(st, e), z3.BoolVal(True))
        st.SS = z3.Store(st.SS, z3.simplify(V.ov(v)), s)
        return v
    def oid(self, v): return z3.simplify(V.ov(v))

    # ---------------- conversions
    def toV(self, st, x):
        if is_v(x): return x
        if isinstance(x, PyObj):
            o = x.o
            if o is None: return NONE
            if isinstance(o, bool): return TRUE if o else FALSE
            if type(o) is int: return I(o)
            if type(o) is str: return S(o)
            if type(o) is tuple: return V.tup(seq(*[self.toV(st, PyObj(e)) for e in o]))
            if isinstance(o, (float, complex, bytes)) or o is Ellipsis:
                n = T.static_id(_interned(o))
                st.assume(atom_kind(z3.IntVal(n)) == cid(type(o)))
                return V.atom(z3.IntVal(n))
            n = T.static_id(o)
            st.assume(cls_of(z3.IntVal(n)) == cid(type(o)))
            return V.obj(z3.IntVal(n))
        if isinstance(x, Tup): return V.tup(seq(*[self.toV(st, e) for e in x.els]))
        if isinstance(x, (Fn, Cls, Meth, CM, GenVal, TypeOf, Part)):
            n = x.cid if isinstance(x, Cls) else T.static_id(x)
            v = V.obj(z3.IntVal(n))
            return v
        if isinstance(x, SeqIter):
            raise Unsupported("iterator escapes")
        raise Unsupported(f"cannot convert {x!r} to V")
    def fromV(self, v):
        """Recover an engine-level value from a V term where its identity is static."""
        v = z3.simplify(v)
        if z3.is_app(v):
            n = v.decl().name()
            if n == "obj" and z3.is_int_value(v.arg(0)) and v.arg(0).as_long() < 0:
                o = static_obj(v.arg(0).as_long())
                if isinstance(o, (Fn, Cls, Meth, CM, GenVal, TypeOf, Part)): return o
                if not isinstance(o, (dict, list, set)) and type(o).__name__ != "ChainMap": return PyObj(o)
            if n == "none": return PyObj(None)
        return v
    def conc(self, x):
        """(True, obj) if x is a concrete immutable python value."""
        if isinstance(x, PyObj): return True, x.o
        if isinstance(x, Tup):
            r = [self.conc(e) for e in x.els]
            if all(a for a, _ in r): return True, tuple(b for _, b in r)
            return False, None
        if is_v(x):
            x = z3.simplify(x)
            n = x.decl().name() if z3.is_app(x) else ""
            if n == "none": return True, None
            if n == "bool" and (z3.is_true(x.arg(0)) or z3.is_false(x.arg(0))): return True, z3.is_true(x.arg(0))
            if n == "int" and z3.is_int_value(x.arg(0)): return True, x.arg(0).as_long()
            if n == "str" and z3.is_string_value(x.arg(0)): return True, x.arg(0).as_string()
            if n == "obj" and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() < 0:
                o = static_obj(x.arg(0).as_long())
                if not isinstance(o, (Fn, Cls, Meth, CM, GenVal, dict, list, set)): return True, o
        return False, None

    def concrete_seq(self, term):
        t = z3.simplify(term)
        def go(t):
            n = t.decl().kind() if z3.is_app(t) else None
            if n == z3.Z3_OP_SEQ_EMPTY: return []
            if n == z3.Z3_OP_SEQ_UNIT: return [t.arg(0)]
            if n == z3.Z3_OP_SEQ_CONCAT:
                out = []
                for c in t.children():
                    r = go(c)
                    if r is None: return None
                    out += r
                return out
            return None
        return go(t)

    # ---------------- truthiness
    def truth(self, st, x):
        if isinstance(x, PyObj): return z3.BoolVal(bool(x.o)) if not isinstance(x.o, (dict, list, set)) else self.truth(st, self.toV(st, x))
        if isinstance(x, Tup): return z3.BoolVal(bool(x.els))
        if isinstance(x, (Fn, Cls, Meth, CM, GenVal, TypeOf, Part)): return z3.BoolVal(True)
        v = x
        o = V.ov(v)
        c = cls_of(o)
        f = z3.If(V.is_none(v), False,
            z3.If(V.is_bool(v), V.bv(v),
            z3.If(V.is_int(v), V.iv(v) != 0,
            z3.If(V.is_str(v), z3.Length(V.sv(v)) != 0,
            z3.If(V.is_tup(v), z3.Length(V.tv(v)) != 0,
            z3.If(V.is_obj(v),
                  z3.If(isa(c, cid(list)), z3.Length(z3.Select(st.L, o)) != 0,
                  z3.If(isa(c, cid(ast.AST)), True,
                  z3.If(isa(c, cid(dict)), z3.Length(z3.Select(st.DK, o)) != 0,
                        self.truthy_other(st, v)))),
                  truthy_obj(V.av(v) * 2 + 1)))))))
        return z3.simplify(f)
    def truthy_other(self, st, v):
        return truthy_obj(V.ov(v))

    # ---------------- attribute heap
    def getH(self, st, v, name):
        nm = z3.StringVal(name) if isinstance(name, str) else name
        o = z3.simplify(V.ov(v))
        return z3.simplify(z3.Select(st.H, o, nm))
    def setH(self, st, v, name, x):
        nm = z3.StringVal(name) if isinstance(name, str) else name
        st.H = z3.Store(st.H, z3.simplify(V.ov(v)), nm, self.toV(st, x))

    def static_class(self, st, v):
        """Engine class of v if known on this path: ('list'|'dict'|..., python class or Cls)."""
        if isinstance(v, PyObj): return type(v.o)
        key = z3.simplify(v).get_id()
        k = st.meta.get(("cls", key))
        if k is not None: return k
        vs = z3.simplify(v)
        if z3.is_app(vs):
            n = vs.decl().name()
            if n in ("str", "int", "bool", "none", "tup"):
                return {"str": str, "int": int, "bool": bool, "none": type(None), "tup": tuple}[n]
            if n == "obj":
                o = vs.arg(0)
                for f in reversed(st.pc):
                    if z3.is_eq(f) and f.arg(0).decl().name() == "cls_of" and z3.is_int_value(f.arg(1)) and f.arg(0).arg(0).get_id() == o.get_id():
                        so = static_obj(f.arg(1).as_long())
                        st.meta[("cls", key)] = so; st.meta[("keep", key)] = vs
                        return so
        for C in (list, str, dict, set, tuple, int):
            if self.entails(st, type_formula(v, C)):
                st.meta[("cls", key)] = C; st.meta[("keep", key)] = vs
                return C
        if self.entails(st, V.is_obj(v)):
            for C in self.candidate_classes(st):
                c = cid(C) if isinstance(C, type) else z3.IntVal(C.cid)
                if self.entails(st, cls_of(V.ov(v)) == c):
                    st.meta[("cls", key)] = C; st.meta[("keep", key)] = vs
                    return C
                if self.entails(st, isa(cls_of(V.ov(v)), c)):
                    st.meta[("cls", key)] = C; st.meta[("keep", key)] = vs
                    return C
        return None
    def candidate_classes(self, st):
        out = []
        ids = set()
        for f in st.pc:
            if f.get_id() in _cand_cache: ids |= _cand_cache[f.get_id()][1]; continue
            _, s = scan([f]); _cand_cache[f.get_id()] = (f, s); ids |= s
        for i in sorted(ids):
            o = static_obj(i)
            if isinstance(o, Cls): out.append(o)
            elif isinstance(o, type) and o not in (list, str, dict, set, tuple, int, object): out.append(o)
        out.sort(key=lambda c: -len(c.__mro__) if isinstance(c, type) else -100)
        return out

    def typed_read(self, st, v, name, val):
        """Well-formedness facts (assumption A-AST) for a field read of an AST node."""
        base = val
        while z3.is_app(base) and base.decl().kind() == z3.Z3_OP_ITE: return
        C = self.static_class(st, v)
        if isinstance(C, type) and issubclass(C, ast.AST):
            k = asdl_fields(C).get(name)
            if k is None and C.__subclasses__() and name not in ("lineno", "col_offset"):      # learnt more about the class since
                for D in self.candidate_classes(st):
                    if isinstance(D, type) and D is not C and issubclass(D, C) and name in asdl_fields(D):
                        if self.entails(st, cls_of(V.ov(v)) == cid(D)) or self.entails(st, isa(cls_of(V.ov(v)), cid(D))):
                            ky = z3.simplify(v).get_id(); st.meta[("cls", ky)] = D; st.meta[("keep", ky)] = z3.simplify(v)
                            k = asdl_fields(D)[name]; break
            if k is None:
                if name in ("lineno", "col_offset"):
                    st.assume(z3.Or(V.is_absent(val), V.is_int(val)))
                return
            kind, q = k
            facts = []
            if q == "*":
                facts = [type_formula(val, list), cls_of(V.ov(val)) == cid(list)]
                st.meta[("elem", val.get_id())] = kind; st.meta[("keep2", val.get_id())] = val
            else:
                facts = [self.kind_fact(val, kind)]
                if q == "?": facts = [z3.Or(V.is_none(val), *facts)]
            # only for unmodified slots: the fact is about the read value; stores keep it by A-AST
            st.assume(*facts)
            st.assume(z3.Implies(V.is_obj(val), V.ov(val) < st.alloc + st.nalloc))
            self.assumptions.add("A-AST: AST nodes given to the code, or produced by external code, have their ASDL fields, with values of the right kind")
    def closed(self, s, v, name):
        """The heap on entry is closed: what an attribute referred to on entry existed on entry (instance)."""
        init = s.meta.get("init")
        if init is None: return
        x = z3.simplify(z3.Select(init[0], z3.simplify(V.ov(v)), z3.StringVal(name)))
        done = s.meta.setdefault("closed", frozenset())
        if x.get_id() in done: return
        s.meta["closed"] = done | {x.get_id()}; s.meta[("keep", x.get_id())] = x
        s.assume(z3.Implies(V.is_obj(x), V.ov(x) < init[1]))
    def kind_fact(self, val, kind):
        if kind == "any": return z3.BoolVal(True)
        if isinstance(kind, type): return type_formula(val, kind)
        if kind in ("identifier", "string"): return V.is_str(val)
        if kind == "int": return V.is_int(val)
        if kind == "constant":
            return z3.Or(V.is_none(val), V.is_bool(val), V.is_int(val), V.is_str(val), V.is_tup(val), V.is_atom(val))
        return type_formula(val, ast.AST)

    # ---------------- name lookup
    def lookup(self, st, fr, name):
        fid = fr["fid"]
        f = fid
        while f is not None:
            d = st.frames[f]
            if name in d: return d[name]
            if f == fid and name in d.get("$locals", ()):
                return Exc(self.mk_exc(st, UnboundLocalError), UnboundLocalError)
            f = d.get("$parent")
        mod = fr["mod"]
        m = self.src.module(mod)
        ov = self.reg.global_override(mod, name) if self.reg else None
        if ov is not None: return ov(self, st)
        if name in vars(m):
            return self.lift(st, vars(m)[name])
        if hasattr(_bi, name): return PyObj(getattr(_bi, name))
        return Exc(self.mk_exc(st, NameError), NameError)
    def lift(self, st, o):
        """Wrap a real Python object found in a module namespace."""
        if isinstance(o, types.FunctionType):
            fn = self.source_fn(o)
            if fn is not None: return fn
            return PyObj(o)
        if isinstance(o, type):
            c = self.source_cls(o)
            if c is not None: return c
            return PyObj(o)
        if isinstance(o, (dict, list, set)) or type(o).__name__ == "ChainMap":
            return self.toV(st, PyObj(o))
        return PyObj(o)
    def source_fn(self, o):
        o = inspect.unwrap(o) if hasattr(o, "__wrapped__") else o
        mod = o.__module__
        if not mod or not mod.startswith("mcpyrate"): return None
        node = self.src.get(mod, o.__qualname__)
        if node is None or not isinstance(node, ast.FunctionDef): return None
        cm = any(isinstance(d, ast.Name) and d.id == "contextmanager" for d in node.decorator_list)
        return Fn(node, None, mod, o.__qualname__, cm=cm)
    def source_cls(self, o):
        mod = getattr(o, "__module__", None)
        if not mod or not mod.startswith("mcpyrate"): return None
        key = (mod, o.__qualname__)
        if key in self.localcls: return self.localcls[key]
        node = self.src.get(mod, o.__qualname__)
        if node is None: return None
        c = Cls(node, None, mod, o.__qualname__, None, None, pyobj=o)
        self.localcls[key] = c
        return c
    def cls_attr(self, st, C, name, start_after=None):
        """Look `name` up along the MRO of a class; returns (value, defining class) or None."""
        if isinstance(C, Cls) and C.pyobj is not None or isinstance(C, type):
            py = C.pyobj if isinstance(C, Cls) else C
            mro = py.__mro__
            if start_after is not None:
                sa = start_after.pyobj if isinstance(start_after, Cls) else start_after
                mro = mro[mro.index(sa) + 1:]
            for K in mro:
                if name in vars(K):
                    a = vars(K)[name]
                    if isinstance(a, property):
                        fn = self.source_fn(a.fget) if isinstance(a.fget, types.FunctionType) else None
                        return ("property", fn if fn is not None else a, K)
                    if isinstance(a, types.FunctionType):
                        fn = self.source_fn(a)
                        if fn is not None:
                            fn.cls = self.source_cls(K) or K
                            return ("method", fn, K)
                        return ("extmethod", a, K)
                    if isinstance(a, (staticmethod,)):
                        return ("static", self.lift(st, a.__func__), K)
                    if isinstance(a, (types.MethodDescriptorType, types.WrapperDescriptorType)): return ("extmethod", a, K)
                    return ("const", a, K)
            return None
        if isinstance(C, Cls):
            if start_after is None and name in C.attrs:
                fn = C.attrs[name]
                return ("method" if isinstance(fn, Fn) else "const", fn, C)
            for b in C.bases:
                r = self.cls_attr(st, b if not isinstance(b, PyObj) else b.o, name)
                if r: return r
        return None

    def mk_exc(self, st, cls, args=()):
        v = self.alloc(st, cls)
        self.setH(st, v, "args", Tup([a for a in args]))
        self.setH(st, v, "__cause__", NONE)
        return v
    def raise_(self, st, cls, msg=None):
        return Exc(self.mk_exc(st, cls, [PyObj(msg)] if msg else []), cls)

    # =================================================================== expressions
    # ev(e, st, fr) -> list of (state, Val | Exc)
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported(f"expression {type(e).__name__} at line {getattr(e,'lineno','?')}")
        return m(e, st, fr)

    def ev_list(self, es, st, fr):
        """Evaluate expressions left to right: list of (state, [vals] | Exc)."""
        outs = [(st, [])]
        for e in es:
            new = []
            for s, vs in outs:
                if isinstance(vs, Exc): new.append((s, vs)); continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fr):
                        new.append((s2, v if isinstance(v, Exc) else vs + [Star(v)]))
                else:
                    for s2, v in self.ev(e, s, fr):
                        new.append((s2, v if isinstance(v, Exc) else vs + [v]))
            outs = new
        return outs

    def e_Constant(self, e, st, fr): return [(st, PyObj(e.value))]
    def e_Name(self, e, st, fr): return [(st, self.lookup(st, fr, e.id))]
    def e_Tuple(self, e, st, fr):
        return [(s, v if isinstance(v, Exc) else self.mk_tuple(s, v)) for s, v in self.ev_list(e.elts, st, fr)]
    def mk_tuple(self, s, vs):
        if any(isinstance(v, Star) for v in vs):
            return V.tup(self.cat(s, vs))
        return Tup(vs)
    def cat(self, s, vs):
        parts = []
        for v in vs:
            if isinstance(v, Star): parts.append(self.seq_of(s, v.v))
            else: parts.append(unit(self.toV(s, v)))
        if not parts: return EMPTY
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)
    def e_List(self, e, st, fr):
        out = []
        for s, v in self.ev_list(e.elts, st, fr):
            out.append((s, v) if isinstance(v, Exc) else (s, self.alloc_list(s, self.cat(s, v))))
        return out
    def e_Set(self, e, st, fr):
        out = []
        for s, v in self.ev_list(e.elts, st, fr):
            out.append((s, v) if isinstance(v, Exc) else (s, self.alloc_set(s, v)))
        return out
    def e_Dict(self, e, st, fr):
        if any(k is None for k in e.keys): raise Unsupported("dict unpacking")
        n = len(e.keys); out = []
        es = [x for kv in zip(e.keys, e.values) for x in kv]
        for s, v in self.ev_list(es, st, fr):
            if isinstance(v, Exc): out.append((s, v)); continue
            out.append((s, self.alloc_dict(s, [(v[2*i], v[2*i+1]) for i in range(n)])))
        return out
    def e_Lambda(self, e, st, fr):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
        return [(st, Fn(node, fr["fid"], fr["mod"], fr["qual"] + ".<lambda>"))]
    def e_IfExp(self, e, st, fr):
        out = []
        for s, b in self.ev_cond(e.test, st, fr):
            if isinstance(b, Exc): out.append((s, b)); continue
            out += self.ev(e.body if b else e.orelse, s, fr)
        return out
    def ev_cond(self, e, st, fr):
        """Evaluate a condition: list of (state, bool | Exc)."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else (not b)) for s, b in self.ev_cond(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            outs, done = [(st, None)], []
            for sub in e.values:
                new = []
                for s, _ in outs:
                    for s2, b in self.ev_cond(sub, s, fr):
                        if isinstance(b, Exc): done.append((s2, b))
                        elif b != isand: done.append((s2, b))
                        else: new.append((s2, b))
                outs = new
            return done + outs
        out = []
        for s, v in self.ev(e, st, fr):
            if isinstance(v, Exc): out.append((s, v)); continue
            out += self.truth_branch(s, v)
        return out
    def truth_branch(self, s, v):
        if is_v(v):
            C = self.static_class(s, v)
            if C is not None and (isinstance(C, Cls) or not issubclass(C, (list, str, dict, set, tuple, int, ast.AST))):
                r = self.cls_attr(s, C, "__len__") or None
                b = self.cls_attr(s, C, "__bool__")
                if r and r[0] == "method" and not b:
                    out = []
                    for s2, n in self.call(s, r[1].bind(v), [], {}):
                        if isinstance(n, Exc): out.append((s2, n))
                        else: out += self.branch(s2, self.truth(s2, n))
                    return out
                if not r and not b and C not in (object,): return [(s, True)]
        return self.branch(s, self.truth(s, v))
    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        outs, done = [(st, None)], []
        for i, sub in enumerate(e.values):
            new = []
            last = i == len(e.values) - 1
            for s, _ in outs:
                for s2, v in self.ev(sub, s, fr):
                    if isinstance(v, Exc) or last: done.append((s2, v)); continue
                    for s3, b in self.truth_branch(s2, v):
                        if isinstance(b, Exc): done.append((s3, b))
                        elif b == isand: new.append((s3, v))
                        else: done.append((s3, v))
            outs = new
        return done
    def e_UnaryOp(self, e, st, fr):
        out = []
        if isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else PyObj(not b)) for s, b in self.ev_cond(e.operand, st, fr)]
        for s, v in self.ev(e.operand, st, fr):
            if isinstance(v, Exc): out.append((s, v)); continue
            c, o = self.conc(v)
            if c:
                out.append((s, PyObj(-o if isinstance(e.op, ast.USub) else +o if isinstance(e.op, ast.UAdd) else ~o)))
            elif isinstance(e.op, ast.USub) and self.entails(s, V.is_int(v)): out.append((s, V.int(-V.iv(v))))
            elif isinstance(e.op, ast.UAdd): out.append((s, v))
            else: raise Unsupported("unary op on symbolic value")
        return out
    def e_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if not isinstance(v, Exc): self.assign_name(s, fr, e.target.id, v)
            out.append((s, v))
        return out
    def e_JoinedStr(self, e, st, fr):
        parts, exprs = [], []
        for p in e.values:
            if isinstance(p, ast.FormattedValue): exprs.append(p.value)
        out = []
        for s, vs in self.ev_list(exprs, st, fr):
            if isinstance(vs, Exc): out.append((s, vs)); continue
            it = iter(vs); terms = []
            for p in e.values:
                if isinstance(p, ast.Constant): terms.append(z3.StringVal(p.value))
                else:
                    v = next(it)
                    if p.conversion == 114: terms.append(self.repr_of(s, v))
                    elif p.format_spec is not None:
                        terms.append(fresh("fmt", Str))
                    else: terms.append(self.str_of(s, v))
            t = z3.StringVal("") if not terms else terms[0] if len(terms) == 1 else z3.Concat(*terms)
            out.append((s, V.str(z3.simplify(t))))
        return out
    def str_of(self, s, v):
        c, o = self.conc(v)
        if c and isinstance(o, (str, int, bool, type(None))): return z3.StringVal(str(o))
        v = self.opaqueV(s, v)
        return z3.simplify(z3.If(V.is_str(v), V.sv(v), to_str(v)))
    def repr_of(self, s, v):
        return to_repr(self.opaqueV(s, v))
    def opaqueV(self, s, v):
        try: return self.toV(s, v)
        except Unsupported: return V.atom(z3.IntVal(T.static_id(v)))

    # ---- attribute access
    def e_Attribute(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if isinstance(v, Exc): out.append((s, v)); continue
            out += self.getattr(s, v, e.attr)
        return out
    def getattr(self, s, v, name, hasattr_mode=False):
        """list of (state, Val|Exc)."""
        if isinstance(v, PyObj) and isinstance(v.o, types.ModuleType):
            h = self.reg.module_attr(v.o, name) if self.reg else None
            if h is not None: return [(s, h(self, s))]
            if hasattr(v.o, name): return [(s, self.lift(s, getattr(v.o, name)))]
            return [(s, self.raise_(s, AttributeError, name))]
        if isinstance(v, PyObj) and isinstance(v.o, type):
            h = self.reg.class_attr(v.o, name) if self.reg else None
            if h is not None: return [(s, h(self, s))]
            if hasattr(v.o, name): return [(s, self.lift(s, getattr(v.o, name)))]
            return [(s, self.raise_(s, AttributeError, name))]
        if isinstance(v, PyObj) and isinstance(v.o, (int, float, complex, bytes, bool, type(None))) and not isinstance(v.o, str):
            if hasattr(v.o, name): return [(s, Meth(v, name, "py"))]
            return [(s, self.raise_(s, AttributeError, name))]
        if isinstance(v, PyObj) and isinstance(v.o, (str, tuple)):
            return [(s, Meth(self.toV(s, v), name, "str" if isinstance(v.o, str) else "tuple"))]
        if isinstance(v, PyObj):
            if hasattr(v.o, name) and not isinstance(v.o, (dict, list, set)):
                return [(s, self.lift(s, getattr(v.o, name)))]
            v = self.toV(s, v)
        if isinstance(v, Tup): return [(s, Meth(v, name, "tuple"))]
        if isinstance(v, Super):
            C = self.static_class(s, v.self_)
            r = self.cls_attr(s, C if C is not None else v.cls, name, start_after=v.cls)
            if r is None: return [(s, self.raise_(s, AttributeError, name))]
            kind, a, K = r
            if kind == "method": return [(s, a.bind(v.self_))]
            if kind == "extmethod": return [(s, Meth(v.self_, (K, name), "ext"))]
            raise Unsupported("super attribute")
        if isinstance(v, Cls):
            if name == "__name__": return [(s, PyObj(v.node.name))]
            r = self.cls_attr(s, v, name)
            if r is None: return [(s, self.raise_(s, AttributeError, name))]
            return [(s, r[1] if not isinstance(r[1], (types.FunctionType,)) else PyObj(r[1]))] if r[0] != "const" else [(s, self.lift(s, r[1]))]
        if isinstance(v, TypeOf):
            return self.typeof_attr(s, v, name)
        if isinstance(v, Fn):
            if name == "__name__": return [(s, PyObj(v.node.name))]
            if name == "__qualname__": return [(s, PyObj(v.qual))]
            if name == "__module__": return [(s, PyObj(v.mod))]
            h = self.getH(s, self.toV(s, v), name)
            return [(s, h)]
        if not is_v(v): raise Unsupported(f"attribute {name} of {v!r}")
        f = self.fromV(v)
        if not is_v(f): return self.getattr(s, f, name)
        h = self.reg.attr_hook(self, s, v, name) if self.reg else None
        if h is not None: return h
        C = self.static_class(s, v)
        if C in (list, dict, set, str, tuple, int): return [(s, Meth(v, name, C.__name__))]
        if C is not None:
            if isinstance(C, type) and self.source_cls(C): C = self.source_cls(C)
            r = self.cls_attr(s, C, name)
            if r is not None:
                kind, a, K = r
                if kind == "method": return [(s, a.bind(v))]
                if kind == "property":
                    if isinstance(a, Fn): return self.call(s, a.bind(v), [], {})
                    if K is ast.Constant and name in ("s", "n"):                   # documented aliases
                        val = self.getH(s, v, "value"); s.assume(val != ABSENT); return [(s, self.fromV(val))]
                    raise Unsupported("builtin property")
                if kind == "static": return [(s, a)]
                if kind == "extmethod":
                    if name == "__class__": return [(s, TypeOf(v))]
                    return [(s, Meth(v, (K, name), "ext"))]
                if kind == "const" and name in ("_fields", "_attributes"):
                    pass
        if name == "__class__": return [(s, TypeOf(v))]
        if name in ("_fields",):
            own = rd(s.H, z3.simplify(V.ov(v)), z3.StringVal(name))               # set on the instance (markers do)
            if z3.is_app(own) and own.decl().eq(V.obj): return [(s, own)]
            return self.typeof_attr(s, TypeOf(v), name)
        if name == "_attributes": return self.typeof_attr(s, TypeOf(v), name)
        val = self.getH(s, v, name)
        self.closed(s, v, name)
        self.typed_read(s, v, name, val)
        out = []
        for s2, b in self.branch(s, z3.Or(z3.Not(V.is_obj(v)), val == ABSENT)):
            if not b: out.append((s2, self.fromV(val)))
            else:
                C2 = C
                g = self.cls_attr(s2, C2, "__getattr__") if C2 is not None else None
                if g and g[0] == "method":
                    out += self.call(s2, g[1].bind(v), [PyObj(name)], {})
                else: out.append((s2, self.raise_(s2, AttributeError, name)))
        return out
    def typeof_attr(self, s, v, name):
        C = self.static_class(s, v.v) if is_v(v.v) else (type(v.v.o) if isinstance(v.v, PyObj) else None)
        if name == "_fields":
            if isinstance(C, type) and self.entails(s, cls_of(V.ov(v.v)) == cid(C)): return [(s, PyObj(C._fields))]
            return [(s, V.tup(fields_of(cls_of(V.ov(v.v)))))]
        if name == "_attributes":
            return [(s, V.tup(attrs_of(cls_of(V.ov(v.v)))))]
        if name == "__name__" or name == "__qualname__":
            return [(s, V.str(cls_name(cls_of(V.ov(v.v)))))]
        raise Unsupported(f"type attribute {name}")

    # ---- subscripts
    def e_Subscript(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if isinstance(v, Exc): out.append((s, v)); continue
            if isinstance(e.slice, ast.Slice):
                out += self.slice_(e.slice, s, fr, v)
            else:
                for s2, k in self.ev(e.slice, s, fr):
                    out.append((s2, k)) if isinstance(k, Exc) else out.extend(self.getitem(s2, v, k))
        return out
    def kindof(self, s, v):
        if isinstance(v, PyObj):
            return type(v.o)
        if isinstance(v, Tup): return tuple
        if is_v(v): return self.static_class(s, v)
        return None
    def seq_of(self, s, v):
        """The Seq V term of a list/tuple value."""
        k = self.kindof(s, v)
        if k is tuple:
            vv = self.toV(s, v); return z3.simplify(V.tv(vv))
        if k is not None and isinstance(k, type) and issubclass(k, list): return z3.simplify(rd(s.L, z3.simplify(self.oid(v))))
        if k is dict: return z3.simplify(rd(s.DK, z3.simplify(self.oid(v))))
        if is_v(v): return iter_seq(v)
        raise Unsupported(f"sequence of {v!r}")
    def getitem(self, s, v, k):
        if isinstance(v, PyObj) and isinstance(v.o, ConstDict):
            out, no, hit = [], s, []
            for key, val in v.o.items():
                f = z3.simplify((cls_of(V.ov(k.v)) == T.static_id(key)) if isinstance(k, TypeOf) and isinstance(key, type) else (self.toV(no, k) == self.toV(no, PyObj(key))))
                for s2, b in self.branch(no.clone(), z3.And(f, *[z3.Not(h) for h in hit])):
                    if b: out.append((s2, PyObj(val)))
                hit.append(f)
            for s2, b in self.branch(no, z3.Or(hit) if hit else z3.BoolVal(False)):
                if not b: out.append((s2, self.raise_(s2, KeyError)))
            return out
        kd = self.kindof(s, v)
        cv, ov = self.conc(v); ck, ok = self.conc(k)
        if isinstance(v, Tup) and ck: 
            try: return [(s, v.els[ok])]
            except IndexError: return [(s, self.raise_(s, IndexError))]
        if cv and ck and isinstance(ov, (tuple, str)):
            try: return [(s, PyObj(ov[ok]))]
            except IndexError: return [(s, self.raise_(s, IndexError))]
        if kd in (list, tuple) or kd is str:
            if kd is str:
                sq = V.sv(self.toV(s, v))
            else: sq = self.seq_of(s, v)
            kv = self.toV(s, k)
            i = V.iv(kv); n = z3.Length(sq)
            idx = z3.simplify(z3.If(i >= 0, i, i + n))
            out = []
            for s2, b in self.branch(s, z3.And(idx >= 0, idx < n)):
                if not b: out.append((s2, self.raise_(s2, IndexError)))
                else:
                    if kd is str: out.append((s2, V.str(z3.SubString(sq, idx, 1))))
                    else:
                        r = z3.simplify(sq[idx])
                        self.elem_fact(s2, v, r)
                        out.append((s2, self.fromV(r)))
            return out
        if kd is dict:
            vv = self.toV(s, v)
            r = z3.simplify(z3.Select(z3.Select(s.D, self.oid(vv)), self.toV(s, k)))
            out = []
            for s2, b in self.branch(s, r == ABSENT):
                if b:
                    ex = self.mk_exc(s2, KeyError, [k]); out.append((s2, Exc(ex, KeyError)))
                else: out.append((s2, self.fromV(r)))
            return out
        if is_v(v):
            h = self.reg.method_hook(self, s, v, "__getitem__", [k], {}) if self.reg else None
            if h is not None: return h
            C = self.static_class(s, v)
            if C is not None:
                r = self.cls_attr(s, C, "__getitem__")
                if r and r[0] == "method": return self.call(s, r[1].bind(v), [k], {})
        raise Unsupported(f"subscript of {v!r} ({kd})")
    def elem_fact(self, s, lv, r):
        if not is_v(lv): return
        k = s.meta.get(("elem", z3.simplify(lv).get_id()))
        if k: 
            f = self.kind_fact(r, k.rstrip("?")); 
            if k in ("expr",): f = z3.Or(f, V.is_none(r)) if s.meta.get(("nullable", z3.simplify(lv).get_id())) else f
            s.assume(f)
            s.assume(z3.Implies(V.is_obj(r), V.ov(r) < s.alloc + s.nalloc))
            if k in ("alias", "arg", "keyword", "withitem", "comprehension", "excepthandler", "match_case"):
                s.assume(cls_of(V.ov(r)) == cid(getattr(ast, k))) if k not in ("excepthandler",) else None
    def slice_(self, sl, s, fr, v):
        if sl.step is not None:
            raise Unsupported("slice step")
        bounds = [b for b in (sl.lower, sl.upper) if b is not None]
        out = []
        for s2, bs in self.ev_list(bounds, s, fr):
            if isinstance(bs, Exc): out.append((s2, bs)); continue
            it = iter(bs)
            lo = next(it) if sl.lower is not None else None
            hi = next(it) if sl.upper is not None else None
            out.append((s2, self.do_slice(s2, v, lo, hi)))
        return out
    def do_slice(self, s, v, lo, hi):
        cv, ov = self.conc(v)
        cl, ol = self.conc(lo) if lo is not None else (True, None)
        ch, oh = self.conc(hi) if hi is not None else (True, None)
        if cv and cl and ch and isinstance(ov, (str, tuple)): return PyObj(ov[ol:oh])
        if isinstance(v, Tup) and cl and ch: return Tup(v.els[ol:oh])
        kd = self.kindof(s, v)
        if kd is str: sq = V.sv(self.toV(s, v))
        elif kd in (list, tuple): sq = self.seq_of(s, v)
        else: raise Unsupported(f"slice of {kd}")
        n = z3.Length(sq)
        def norm(b, dflt):
            if b is None: return dflt
            i = z3.simplify(V.iv(self.toV(s, b)))
            if self.entails(s, z3.And(i >= 0, i <= n)): return i
            i = z3.If(i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i))
            return i
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        ln = b - a if lo is None or hi is None else z3.If(b > a, b - a, 0)      # (a one-sided slice is never reversed: 0 <= a, b <= n)
        sub = z3.simplify(z3.Extract(sq, a, ln)) if kd is not str else z3.simplify(z3.SubString(sq, a, ln))
        if kd is str: return V.str(sub)
        if kd is tuple: return V.tup(sub)
        if hi is None and lo is not None and not cl:      # theorem of sequences
            s.assume(z3.Concat(z3.Extract(sq, 0, a), z3.Extract(sq, a, n - a)) == sq, z3.Implies(z3.And(a >= 0, a < n), sub[0] == sq[a]))
        r = self.alloc_list(s, sub)
        key = z3.simplify(v).get_id() if is_v(v) else None
        if key and ("elem", key) in s.meta:
            rk = z3.simplify(r).get_id(); s.meta[("elem", rk)] = s.meta[("elem", key)]; s.meta[("keep2", rk)] = z3.simplify(r)
        return r

    # ---- operators
    def e_BinOp(self, e, st, fr):
        out = []
        for s, vs in self.ev_list([e.left, e.right], st, fr):
            if isinstance(vs, Exc): out.append((s, vs)); continue
            out += self.binop(s, e.op, vs[0], vs[1])
        return out
    def binop(self, s, op, a, b):
        ca, oa = self.conc(a); cb, ob = self.conc(b)
        if ca and cb and not isinstance(oa, (list, dict, set)) :
            import operator as O
            f = {ast.Add: O.add, ast.Sub: O.sub, ast.Mult: O.mul, ast.Mod: O.mod, ast.FloorDiv: O.floordiv, ast.Pow: O.pow, ast.BitOr: O.or_, ast.BitAnd: O.and_, ast.Div: O.truediv}.get(type(op))
            if f:
                try: return [(s, PyObj(f(oa, ob)))]
                except Exception as ex: return [(s, self.raise_(s, type(ex)))]
        ka, kb = self.kindof(s, a), self.kindof(s, b)
        if isinstance(op, ast.Add):
            if ka is str and kb is str: return [(s, V.str(z3.Concat(V.sv(self.toV(s, a)), V.sv(self.toV(s, b)))))]
            if ka is list and kb is list:
                r = self.alloc_list(s, z3.simplify(z3.Concat(self.seq_of(s, a), self.seq_of(s, b)))); 
                return [(s, r)]
            if ka is tuple and kb is tuple: return [(s, V.tup(z3.Concat(self.seq_of(s, a), self.seq_of(s, b))))]
            if ka in (int, bool) and kb in (int, bool): return [(s, V.int(z3.simplify(self.as_int(s, a) + self.as_int(s, b))))]
        if ka in (int, bool) and kb in (int, bool):
            x, y = self.as_int(s, a), self.as_int(s, b)
            if isinstance(op, ast.Sub): return [(s, V.int(z3.simplify(x - y)))]
            if isinstance(op, ast.Mult): return [(s, V.int(z3.simplify(x * y)))]
        if isinstance(op, ast.Mult) and ka is list and kb in (int, bool) and z3.simplify(z3.Length(self.seq_of(s, a))).eq(z3.IntVal(1)):
            x = z3.simplify(self.seq_of(s, a)[0]); n = self.as_int(s, b); r = repeated(x, n)   # [x] * n; contracts instantiate repeated_at
            s.assume(z3.Length(r) == z3.If(n > 0, n, 0))
            return [(s, self.alloc_list(s, r))]
        if isinstance(op, ast.Mult) and (ka is str or kb is str):
            x, y = (a, b) if ka is str else (b, a)
            if (kb if ka is str else ka) in (int, bool):
                r = strmul(V.sv(self.toV(s, x)), self.as_int(s, y)); s.assume(z3.Implies(self.as_int(s, y) <= 0, r == z3.StringVal("")), z3.Implies(self.as_int(s, y) == 1, r == V.sv(self.toV(s, x))))
                return [(s, V.str(r))]
            return [(s, V.str(fresh("strmul", Str)))]
        h = self.reg.binop_hook(self, s, op, a, b) if self.reg else None
        if h is not None: return h
        raise Unsupported(f"binop {type(op).__name__} on {ka},{kb}")
    def as_int(self, s, a):
        v = self.toV(s, a)
        return z3.simplify(z3.If(V.is_bool(v), z3.If(V.bv(v), 1, 0), V.iv(v)))
    def e_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            # chained: evaluate operands once, and-chain
            out = []
            for s, vs in self.ev_list([e.left] + e.comparators, st, fr):
                if isinstance(vs, Exc): out.append((s, vs)); continue
                fs = [self.compare(s, op, vs[i], vs[i + 1]) for i, op in enumerate(e.ops)]
                out.append((s, V.bool(z3.simplify(z3.And(*fs)))))
            return out
        out = []
        for s, vs in self.ev_list([e.left, e.comparators[0]], st, fr):
            if isinstance(vs, Exc): out.append((s, vs)); continue
            op = e.ops[0]
            r = self.compare_paths(s, op, vs[0], vs[1])
            out += r
        return out
    def compare_paths(self, s, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)) and is_v(b):
            h = self.reg.method_hook(self, s, b, "__contains__", [a], {}) if self.reg else None
            if h is None:
                C = self.static_class(s, b)
                if C is not None and C not in (list, dict, set, str, tuple):
                    r = self.cls_attr(s, C, "__contains__")
                    if r and r[0] == "method": h = self.call(s, r[1].bind(b), [a], {})
            if h is not None:
                if isinstance(op, ast.In): return h
                return [(s2, v if isinstance(v, Exc) else V.bool(z3.simplify(z3.Not(self.truth(s2, v))))) for s2, v in h]
        h = self.reg.compare_hook(self, s, op, a, b) if self.reg else None
        if h is not None: return h
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for x, y in ((a, b), (b, a)):
                if is_v(x):
                    C = self.static_class(s, x)
                    if C is not None and C not in (list, dict, set, str, tuple, int):
                        r = self.cls_attr(s, C, "__eq__" if isinstance(op, ast.Eq) else "__ne__")
                        if r and r[0] == "method": return self.call(s, r[1].bind(x), [y], {})
        f = self.compare(s, op, a, b)
        return [(s, V.bool(f))]
    def compare(self, s, op, a, b):
        ca, oa = self.conc(a); cb, ob = self.conc(b)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            f = self.same(s, a, b, isinstance(op, (ast.Is, ast.IsNot)))
            return z3.simplify(f if isinstance(op, (ast.Is, ast.Eq)) else z3.Not(f))
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            if ca and cb:
                import operator as O
                return z3.BoolVal({ast.Lt: O.lt, ast.LtE: O.le, ast.Gt: O.gt, ast.GtE: O.ge}[type(op)](oa, ob))
            ka, kb = self.kindof(s, a), self.kindof(s, b)
            if (ka in (int, bool)) and (kb in (int, bool)):
                x, y = self.as_int(s, a), self.as_int(s, b)
            else:
                va, vb = self.toV(s, a), self.toV(s, b)
                num = lambda v: z3.Or(V.is_int(v), V.is_bool(v))
                if self.entails(s, z3.And(num(va), num(vb))): x, y = self.as_int(s, a), self.as_int(s, b)
                else: raise Unsupported("ordering of non-integers")
            return z3.simplify({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.contains(s, a, b)
            return z3.simplify(f if isinstance(op, ast.In) else z3.Not(f))
        raise Unsupported("compare op")
    def contains(self, s, a, b):
        cb, ob = self.conc(b)
        ca, oa = self.conc(a)
        if ca and cb and not (isinstance(oa, type) or isinstance(ob, type)):
            try: return z3.BoolVal(oa in ob)
            except TypeError: pass
        if isinstance(b, Tup): return z3.Or([self.same(s, a, x, False) for x in b.els] or [z3.BoolVal(False)])
        if cb and isinstance(ob, (tuple, frozenset, set)) or (isinstance(b, PyObj) and isinstance(b.o, (tuple, list))):
            return z3.Or([self.same(s, a, PyObj(x), False) for x in ob] or [z3.BoolVal(False)])
        k = self.kindof(s, b)
        av = self.toV(s, a)
        if k is str: return z3.Contains(V.sv(self.toV(s, b)), V.sv(av))
        if k is dict: return z3.Select(z3.Select(s.D, self.oid(self.toV(s, b))), av) != ABSENT
        if k is set: return z3.Select(z3.Select(s.SS, self.oid(self.toV(s, b))), av)
        if k in (list, tuple):
            return z3.Contains(self.seq_of(s, b), unit(av))
        raise Unsupported(f"`in` on {k} {b!r}")
    def same(self, s, a, b, identity):
        """a is b / a == b as a formula."""
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if isinstance(b, TypeOf) and not isinstance(a, TypeOf): a, b = b, a
            if isinstance(b, TypeOf):
                return self.type_id(s, a) == self.type_id(s, b)
            if isinstance(b, PyObj) and isinstance(b.o, type):
                if b.o.__module__ == "ast" and b.o.__name__ in ("Num", "Str", "Bytes", "NameConstant", "Ellipsis", "Index", "ExtSlice"):
                    self.assumptions.add("A-AST: no object has a deprecated node class (their constructors return Constant etc. on this Python)")
                    return z3.BoolVal(False)
                return exact_type_formula(self.toV(s, a.v), b.o)
            if isinstance(b, Cls):
                v = self.toV(s, a.v)
                return z3.And(V.is_obj(v), cls_of(V.ov(v)) == z3.IntVal(b.cid))
            if is_v(b):
                v = self.toV(s, a.v)
                return z3.And(V.is_obj(b), V.is_obj(v), cls_of(V.ov(v)) == V.ov(b))
            return z3.BoolVal(False)
        ca, oa = self.conc(a); cb, ob = self.conc(b)
        if ca and cb: return z3.BoolVal(oa is ob if identity and not isinstance(oa, (int, str)) else (oa == ob and (not identity or type(oa) is type(ob))))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.els) != len(b.els): return z3.BoolVal(False)
            return z3.And([self.same(s, x, y, identity) for x, y in zip(a.els, b.els)] or [z3.BoolVal(True)])
        va, vb = self.toV(s, a), self.toV(s, b)
        if identity: return va == vb
        num = lambda v: z3.Or(V.is_int(v), V.is_bool(v))
        ival = lambda v: z3.If(V.is_bool(v), z3.If(V.bv(v), 1, 0), V.iv(v))
        if (ca and not isinstance(oa, (int, float))) or (cb and not isinstance(ob, (int, float))): return va == vb
        ka, kb = None, None
        f = z3.If(z3.And(num(va), num(vb)), ival(va) == ival(vb), va == vb)
        # structural equality of mutable containers is not modelled: only identity => equality is used
        f2 = z3.And(V.is_obj(va), V.is_obj(vb), va != vb, struct_eq(va, vb))
        isAST = lambda v: isa(cls_of(V.ov(v)), cid(ast.AST))
        return z3.Or(f, z3.And(f2, z3.Not(isAST(va)), z3.Not(isAST(vb))))
    def type_id(self, s, t):
        v = self.toV(s, t.v)
        return z3.If(V.is_obj(v), cls_of(V.ov(v)), z3.If(V.is_str(v), cid(str), z3.If(V.is_int(v), cid(int), z3.If(V.is_bool(v), cid(bool), z3.If(V.is_none(v), cid(type(None)), z3.If(V.is_tup(v), cid(tuple), atom_kind(V.av(v))))))))

    # ---- isinstance
    def isinstance_f(self, s, v, C):
        if isinstance(C, Tup): return z3.Or([self.isinstance_f(s, v, x) for x in C.els] or [z3.BoolVal(False)])
        if isinstance(C, PyObj) and isinstance(C.o, tuple): return z3.Or([self.isinstance_f(s, v, PyObj(x)) for x in C.o])
        if isinstance(C, Cls):
            if C.pyobj is not None: C = PyObj(C.pyobj)
            else:
                vv = self.toV(s, v)
                return z3.And(V.is_obj(vv), isa(cls_of(V.ov(vv)), z3.IntVal(C.cid)))
        if isinstance(C, PyObj) and isinstance(C.o, type):
            if isinstance(v, PyObj) and not isinstance(v.o, (dict, list, set)): return z3.BoolVal(isinstance(v.o, C.o))
            if isinstance(v, (Fn, Meth)): return z3.BoolVal(C.o is types.FunctionType)
            if isinstance(v, Cls): return z3.BoolVal(C.o is type)
            return type_formula(self.toV(s, v), C.o)
        if is_v(C):
            vv = self.toV(s, v)
            return isinst_dyn(vv, C) if not True else z3.And(V.is_obj(vv), isa(cls_of(V.ov(vv)), V.ov(C)))
        raise Unsupported(f"isinstance with {C!r}")

    # ---- comprehensions
    def e_ListComp(self, e, st, fr): return self.comp(e, st, fr, "list")
    def e_GeneratorExp(self, e, st, fr): return [(st, GenVal(e, fr["fid"], fr))]
    def e_SetComp(self, e, st, fr): return self.comp(e, st, fr, "set")
    def e_DictComp(self, e, st, fr): return self.comp(e, st, fr, "dict")
    def comp(self, e, st, fr, kind):
        """Desugar to a loop over an accumulator `$acc`."""
        if kind == "dict":
            r = self.dict_identity(e, st, fr)
            if r is not None: return r
        fid = self.new_frame(st, fr["fid"])
        fr2 = dict(fr, fid=fid)
        if kind == "list": acc = self.alloc_list(st, EMPTY)
        elif kind == "set": acc = self.alloc_set(st)
        else: acc = self.alloc_dict(st)
        st.frames[fid]["$acc"] = acc
        if kind == "dict":
            body = ast.Assign(targets=[ast.Subscript(value=ast.Name(id="$acc", ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
        else:
            body = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id="$acc", ctx=ast.Load()), attr="append" if kind == "list" else "add", ctx=ast.Load()), args=[e.elt], keywords=[]))
        stmts = [body]
        for g in reversed(e.generators):
            for c in reversed(g.ifs): stmts = [ast.If(test=c, body=stmts, orelse=[])]
            stmts = [ast.For(target=g.target, iter=g.iter, body=stmts, orelse=[])]
        loop = stmts[0]
        for n in ast.walk(loop):
            if not hasattr(n, "lineno"): n.lineno = e.lineno; n.col_offset = e.col_offset
        loop._comp_key = e
        out = []
        for s, o in self.block(stmts, st, fr2):
            if o[0] == "raise": out.append((s, o[1]))
            else: out.append((s, acc))
        return out
    def dict_identity(self, e, st, fr):
        """`{k: v for k, v in d.items()}` is a copy of the dict d."""
        g = e.generators[0]
        if len(e.generators) != 1 or g.ifs or not (isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and all(isinstance(x, ast.Name) for x in g.target.elts)): return None
        k, v = (x.id for x in g.target.elts)
        if k == v or not (isinstance(e.key, ast.Name) and e.key.id == k and isinstance(e.value, ast.Name) and e.value.id == v): return None
        out = []
        for s, it in self.ev(g.iter, st.clone(), fr):
            if isinstance(it, Exc): out.append((s, it)); continue
            if not (isinstance(it, SeqIter) and getattr(it, "dict", None) and it.what == "kv"): return None
            d, ks = it.dict
            nv = self.alloc(s, dict); o = self.oid(nv)
            s.D = z3.Store(s.D, o, d); s.DK = z3.Store(s.DK, o, ks)
            out.append((s, nv))
        return out
    def consume_gen(self, s, g):
        """Materialise a generator expression into a list."""
        e = ast.copy_location(ast.ListComp(elt=g.node.elt, generators=g.node.generators), g.node)
        e._comp_key = g.node
        return self.comp(e, s, g.fr, "list")
    def quantify_gen(self, s, g, which):
        """any()/all() over a generator: pure single-`for` generators only; else None."""
        node = g.node
        if len(node.generators) != 1: return None
        gen = node.generators[0]
        its = self.ev(gen.iter, s, g.fr)
        out = []
        for s1, it in its:
            if isinstance(it, Exc): out.append((s1, it)); continue
            si = self.as_iter(s1, it)
            if isinstance(si, list):
                # concrete: unroll with short-circuit
                states = [(s1, None)]
                for x in si:
                    new = []
                    for s2, r in states:
                        if r is not None: new.append((s2, r)); continue
                        fid = self.new_frame(s2, g.fr["fid"]); fr2 = dict(g.fr, fid=fid)
                        for s3, ok in self.assign_target(gen.target, x, s2, fr2):
                            if isinstance(ok, Exc): new.append((s3, ok)); continue
                            conds = [(s3, True)]
                            for c in gen.ifs:
                                conds = [y for s4, b in conds for y in (self.ev_cond(c, s4, fr2) if b is True else [(s4, b)])]
                            for s4, b in conds:
                                if isinstance(b, Exc): new.append((s4, b)); continue
                                if not b: new.append((s4, None)); continue
                                for s5, r2 in self.ev_cond(node.elt, s4, fr2):
                                    if isinstance(r2, Exc): new.append((s5, r2))
                                    elif r2 == (which == "any"): new.append((s5, PyObj(which == "any")))
                                    else: new.append((s5, None))
                    states = new
                out += [(s2, PyObj(which == "all") if r is None else r) for s2, r in states]
                continue
            i = fresh("qi", Int)
            s2 = s1.clone()
            n0 = len(s2.pc)
            s2.assume(i >= 0, i < si.n)
            fid = self.new_frame(s2, g.fr["fid"]); fr2 = dict(g.fr, fid=fid)
            before = (s2.H, s2.L, s2.D, s2.SS)
            forms = []
            x = si.elt(s2, i)
            base = len(s2.pc)
            lemma = list(s2.pc[n0:])
            paths = []
            for s3, ok in self.assign_target(gen.target, x, s2, fr2):
                conds = [(s3, True)]
                for c in gen.ifs:
                    conds = [y for s4, b in conds for y in (self.ev_cond(c, s4, fr2) if b is True else [(s4, b)])]
                for s4, b in conds:
                    if isinstance(b, Exc): raise Unsupported("exception inside any/all generator")
                    if b is not True: paths.append((s4, None)); continue
                    for s5, r in self.ev_cond(node.elt, s4, fr2):
                        if isinstance(r, Exc): raise Unsupported("exception inside any/all generator")
                        paths.append((s5, r))
            for s5, r in paths:
                if any(a is not b and a.get_id() != b.get_id() for a, b in zip(before, (s5.H, s5.L, s5.D, s5.SS))):
                    raise Unsupported("side effect inside any/all generator")
            want = (which == "any")
            hit = z3.Or([z3.And(s5.pc[base:] or [z3.BoolVal(True)]) for s5, r in paths if r is not None and r == want] or [z3.BoolVal(False)])
            # skolemised split: exists hit / forall not hit
            sa = s1.clone(); sa.assume(*lemma); sa.assume(hit)
            if self.feasible(sa): out.append((sa, PyObj(want)))
            sb = s1.clone()
            jb = z3.Int(f"qj!{i}")
            body = z3.Implies(z3.And(jb >= 0, jb < si.n), z3.Not(z3.substitute(hit, (i, jb))))
            sb.assume(z3.ForAll([jb], body))
            if self.feasible(sb): out.append((sb, PyObj(not want)))
        return out

    # ---- calls
    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = fr.get("cls")
            return [(st, Super(cls, st.frames[fr["fid"]].get("self", fr.get("self"))))]
        out = []
        for s, f in self.ev(e.func, st, fr):
            if isinstance(f, Exc): out.append((s, f)); continue
            for s2, args in self.ev_list(e.args, s, fr):
                if isinstance(args, Exc): out.append((s2, args)); continue
                for s3, kvs in self.ev_list([k.value for k in e.keywords], s2, fr):
                    if isinstance(kvs, Exc): out.append((s3, kvs)); continue
                    kw = {}
                    stars = []
                    for k, v in zip(e.keywords, kvs):
                        if k.arg is None: stars.append(v)
                        else: kw[k.arg] = v
                    flat = []
                    for a in args:
                        if isinstance(a, Star):
                            cs = a.v.els if isinstance(a.v, Tup) else None
                            if cs is None:
                                cs = self.concrete_seq(self.seq_of(s3, a.v))
                            if cs is None: flat.append(a)
                            else: flat += list(cs)
                        else: flat.append(a)
                    if stars: kw["**"] = stars
                    out += self.call(s3, f, flat, kw)
        return out

    def call(self, s, f, args, kw):
        self.depth += 1
        if self.depth > 60: self.depth -= 1; raise Unsupported("call depth")
        try:
            return self._call(s, f, args, kw)
        finally:
            self.depth -= 1

    def _call(self, s, f, args, kw):
        if is_v(f):
            g = self.fromV(f)
            if not is_v(g): f = g
        if isinstance(f, Fn):
            h = self.reg.external(self, s, f, args, kw) if self.reg else None
            if h is not None: return h
            c = self.reg.contract_for(f) if self.reg else None
            if c is not None and not (self.current is c and not getattr(self, "entered_self", True)):
                self.used_contracts.add(c.key)
                return c.apply(self, s, f, args, kw)
            return self.inline(s, f, args, kw)
        if isinstance(f, Cls): return self.construct(s, f, args, kw)
        if isinstance(f, Meth): return self.builtin_method(s, f, args, kw)
        if isinstance(f, Part): return self.call(s, f.f, f.args + list(args), dict(f.kw, **kw))
        if isinstance(f, PyObj):
            o = f.o
            h = self.reg.external(self, s, f, args, kw) if self.reg else None
            if h is not None: return h
            if o is functools.partial and args and "**" not in kw: return [(s, Part(args[0], args[1:], kw))]
            if isinstance(o, type):
                r = self.construct_py(s, o, args, kw)
                if r is not None: return r
            m = getattr(self, "b_" + getattr(o, "__name__", "?"), None) if getattr(o, "__module__", None) in ("builtins", "_thread", None) or o in (ast.iter_child_nodes,) else None
            if m is not None: return m(s, args, kw)
            m = _EXT.get(_key(o))
            if m is not None: return m(self, s, args, kw)
            if hasattr(o, "__self__") or callable(o):
                ok = all(self.conc(a)[0] for a in args) and not kw
                if ok and getattr(o, "__module__", None) in ("builtins", "operator"):
                    return [(s, PyObj(o(*[self.conc(a)[1] for a in args])))]
            raise Unsupported(f"call to external {o!r}")
        if isinstance(f, TypeOf):
            # type(x)(...): construct an object of x's class
            h = self.reg.construct_hook(self, s, f, args, kw) if self.reg else None
            if h is not None: return h
            raise Unsupported("type(x)(...)")
        if is_v(f):
            h = self.reg.unknown_call(self, s, f, args, kw) if self.reg else None
            if h is not None: return h
            C = self.static_class(s, f)
            if C is not None:
                r = self.cls_attr(s, C, "__call__")
                if r and r[0] == "method": return self.call(s, r[1].bind(f), args, kw)
        raise Unsupported(f"call of {f!r}")

    def new_frame(self, st, parent):
        self.nextfid += 1
        st.frames[self.nextfid] = {"$parent": parent}
        return self.nextfid

    def bind_args(self, s, f, args, kw):
        """Returns dict of param -> Val, or Exc."""
        a = f.node.args
        d = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if f.self_ is not None: args = [f.self_] + args
        kw = dict(kw)
        stars = kw.pop("**", [])
        if any(isinstance(x, Star) for x in args):
            if a.vararg and len(pos) <= [isinstance(x, Star) for x in args].index(True):
                n = len(pos)
                for p, v in zip(pos, args): d[p] = v
                d[a.vararg.arg] = V.tup(self.cat(s, args[n:]))
                args = None
            else: raise Unsupported("star-args into fixed parameters")
        if args is not None:
            for p, v in zip(pos, args): d[p] = v
            rest = args[len(pos):]
            if a.vararg: d[a.vararg.arg] = Tup(rest)
            elif rest: return self.raise_(s, TypeError)
        kwnames = [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kw.items():
            if k in pos or k in kwnames:
                if k in d: return self.raise_(s, TypeError)
                d[k] = v
            else: extra.append((k, v))
        star_dict = None
        for sd in stars:
            # **kw with a symbolic dict: only names with concrete presence are resolved
            if is_v(sd) and self.kindof(s, sd) is dict:
                ks = self.concrete_seq(z3.Select(s.DK, self.oid(sd)))
                if ks is None:
                    if a.kwarg: star_dict = sd; 
                    else:
                        raise Unsupported("symbolic ** into named parameters")
                    for p in pos + kwnames:
                        if p not in d:
                            pass
                else:
                    for kx in ks:
                        nm = self.conc(kx)[1]
                        v = self.fromV(z3.simplify(z3.Select(z3.Select(s.D, self.oid(sd)), kx)))
                        if nm in pos or nm in kwnames:
                            if nm in d: return self.raise_(s, TypeError)
                            d[nm] = v
                        else: extra.append((nm, v))
            else: raise Unsupported("** of non-dict")
        if a.kwarg:
            if star_dict is not None:
                # copy of the dict (names bound explicitly are assumed absent from it)
                v = self.alloc(s, dict); o = self.oid(v)
                s.D = z3.Store(s.D, o, z3.Select(s.D, self.oid(star_dict)))
                s.DK = z3.Store(s.DK, o, z3.Select(s.DK, self.oid(star_dict)))
                if extra: raise Unsupported("mixed ** and extra keywords")
                d[a.kwarg.arg] = v
            else: d[a.kwarg.arg] = self.alloc_dict(s, [(PyObj(k), v) for k, v in extra])
        elif extra: return self.raise_(s, TypeError)
        # defaults
        nd = len(a.defaults)
        for p, dv in zip(pos[len(pos) - nd:], a.defaults):
            if p not in d: d[p] = self.default(s, f, dv)
        for p, dv in zip(kwnames, a.kw_defaults):
            if p not in d and dv is not None: d[p] = self.default(s, f, dv)
        for p in pos + kwnames:
            if p not in d: return self.raise_(s, TypeError)
        return d
    def default(self, s, f, dv):
        fid = f.fid
        if fid is None or fid not in s.frames: fid = self.new_frame(s, None)
        r = self.ev(dv, s, {"fid": fid, "mod": f.mod, "qual": f.qual})
        if len(r) != 1: raise Unsupported("default value")
        return r[0][1]

    def inline(self, s, f, args, kw):
        """Execute a function body; returns list of (state, Val|Exc)."""
        if f.cm and has_yield(f.node): return [(s, CM(f, args, kw))]
        for d in f.node.decorator_list:
            if not (isinstance(d, ast.Name) and d.id in ("contextmanager", "namemacro", "parametricmacro", "staticmethod", "abstractmethod")):
                raise Unsupported(f"decorator on {f.qual}")
        if has_yield_own(f.node): raise Unsupported(f"generator {f.qual}")
        stack = s.meta.get("stack", ())
        if stack.count(f.node) > 0: raise Unsupported(f"recursive call to {f.qual} without contract")
        self.inlined.add(f"{f.mod}:{f.qual}")
        d = self.bind_args(s, f, args, kw)
        if isinstance(d, Exc): return [(s, d)]
        out = []
        for s2, o in self.run_body(s, f, d):
            s2.meta["stack"] = stack
            if o[0] == "return": out.append((s2, o[1]))
            elif o[0] == "raise": out.append((s2, o[1]))
            elif o[0] == "next": out.append((s2, PyObj(None)))
            else: raise Unsupported(f"stray {o[0]}")
        return out
    def run_body(self, s, f, d):
        fid = self.new_frame(s, f.fid)
        s.frames[fid].update(d)
        s.frames[fid]["$locals"] = local_names(f.node)
        kw = f.node.args.kwarg
        if kw is not None and stays_private(f.node, kw.arg): s.frames[fid]["$kw"] = d[kw.arg]
        s.meta["stack"] = s.meta.get("stack", ()) + (f.node,)
        fr = {"fid": fid, "mod": f.mod, "qual": f.qual, "cls": f.cls, "node": f.node}
        return self.block(f.node.body, s, fr)

    def construct(self, s, C, args, kw):
        if C.pyobj is not None:
            h = self.reg.external(self, s, PyObj(C.pyobj), args, kw) if self.reg else None
            if h is not None: return h
            if issubclass(C.pyobj, BaseException): return self.construct_py(s, C.pyobj, args, kw)
        v = self.alloc(s, C.pyobj if C.pyobj is not None else C)
        s.meta[("cls", z3.simplify(v).get_id())] = C; s.meta[("keep", z3.simplify(v).get_id())] = z3.simplify(v)
        self.subclass_facts(s, v, C)
        r = self.cls_attr(s, C, "__init__")
        if r is None or r[0] == "extmethod":
            if args or kw:
                if C.pyobj is not None and issubclass(C.pyobj, ast.AST): return self.construct_ast(s, v, C.pyobj, args, kw)
                raise Unsupported(f"constructor of {C}")
            return [(s, v)]
        out = []
        for s2, x in self.call(s, r[1].bind(v), args, kw):
            out.append((s2, x if isinstance(x, Exc) else v))
        return out
    def subclass_facts(self, s, v, C):
        if isinstance(C, Cls) and C.pyobj is None:
            for b in C.bases:
                bb = b.o if isinstance(b, PyObj) else b
                s.assume(isa(z3.IntVal(C.cid), cid(bb) if isinstance(bb, type) else z3.IntVal(bb.cid)))
                if isinstance(bb, Cls) and bb.pyobj is not None:
                    for K in bb.pyobj.__mro__: s.assume(isa(z3.IntVal(C.cid), cid(K)))
    def construct_py(self, s, C, args, kw):
        if issubclass(C, ast.AST):
            v = self.alloc(s, C)
            return self.construct_ast(s, v, C, args, kw)
        if issubclass(C, BaseException):
            v = self.mk_exc(s, C, args)
            return [(s, v)]
        if C is type and len(args) == 1:
            a = args[0]
            if isinstance(a, PyObj): return [(s, self.lift(s, type(a.o)))]
            return [(s, TypeOf(a))]
        m = getattr(self, "b_" + C.__name__, None)
        if m is not None: return m(s, args, kw)
        return None
    def construct_ast(self, s, v, C, args, kw):
        for fn, a in zip(C._fields, args): self.setH(s, v, fn, a)
        given = set(C._fields[:len(args)])
        for k, a in kw.items():
            if k == "**": raise Unsupported("** in node constructor")
            self.setH(s, v, k, a); given.add(k)
        opt = asdl_fields(C)
        for fn in C._fields:
            if fn not in given:
                self.setH(s, v, fn, NONE if opt.get(fn, ("", ""))[1] == "?" else ABSENT)
        for an in C._attributes:
            if an not in given: self.setH(s, v, an, NONE if an.startswith("end_") else ABSENT)
        return [(s, v)]

    # ---- iteration protocol
    def as_iter(self, s, it):
        """A python list of Vals (concrete), or SeqIter."""
        if isinstance(it, SeqIter): return it
        if isinstance(it, Tup): return list(it.els)
        if isinstance(it, list): return it
        if isinstance(it, PyObj):
            if isinstance(it.o, (tuple, range, str)): return [PyObj(x) for x in it.o]
        v = self.toV(s, it)
        k = self.kindof(s, v)
        if k is str:
            sv = V.sv(v)
            return SeqIter(z3.Length(sv), lambda s, i: V.str(z3.SubString(sv, i, 1)))
        sq = self.seq_of(s, v)
        cs = self.concrete_seq(sq)
        if cs is not None:
            for x in cs: self.elem_fact(s, v, x)
            return [self.fromV(x) for x in cs]
        def elt(s2, i, sq=sq):
            x = z3.simplify(sq[i])
            self.elem_fact(s2, v, x)
            return self.fromV(x)
        r = SeqIter(z3.Length(sq), elt, live=(v if k is list else None), hint=v)
        r.seq = sq
        return r

    # =================================================================== statements
    def block(self, stmts, st, fr):
        outs = [(st, NEXT)]
        for stm in stmts:
            new = []
            for s, o in outs:
                if o[0] != "next": new.append((s, o)); continue
                new += self.stmt(stm, s, fr)
            outs = new
        return outs
    def stmt(self, stm, s, fr):
        m = getattr(self, "s_" + type(stm).__name__, None)
        if m is None: raise Unsupported(f"statement {type(stm).__name__}")
        return m(stm, s, fr)
    def s_Pass(self, n, s, fr): return [(s, NEXT)]
    def s_Expr(self, n, s, fr):
        if isinstance(n.value, (ast.Yield,)):
            return self.do_yield(n.value, s, fr)
        return [(s2, ("raise", v) if isinstance(v, Exc) else NEXT) for s2, v in self.ev(n.value, s, fr)]
    def s_Return(self, n, s, fr):
        if n.value is None: return [(s, ("return", PyObj(None)))]
        return [(s2, ("raise", v) if isinstance(v, Exc) else ("return", v)) for s2, v in self.ev(n.value, s, fr)]
    def s_Break(self, n, s, fr): return [(s, ("break",))]
    def s_Continue(self, n, s, fr): return [(s, ("continue",))]
    def s_Global(self, n, s, fr):
        raise Unsupported("global")
    def s_Nonlocal(self, n, s, fr):
        s.frames[fr["fid"]].setdefault("$nonlocal", set())
        s.frames[fr["fid"]]["$nonlocal"] = set(s.frames[fr["fid"]]["$nonlocal"]) | set(n.names)
        return [(s, NEXT)]
    def s_Import(self, n, s, fr):
        for al in n.names:
            m = importlib.import_module(al.name)
            self.assign_name(s, fr, al.asname or al.name.split(".")[0], PyObj(m if al.asname else importlib.import_module(al.name.split(".")[0])))
        return [(s, NEXT)]
    def s_ImportFrom(self, n, s, fr):
        base = fr["mod"].rsplit(".", 1)[0] if n.level else None
        nm = ("." * n.level + (n.module or "")) if n.level else n.module
        m = importlib.import_module(nm, base) if n.level else importlib.import_module(nm)
        for al in n.names:
            if not hasattr(m, al.name): m2 = importlib.import_module(m.__name__ + "." + al.name); v = m2
            else: v = getattr(m, al.name)
            self.assign_name(s, fr, al.asname or al.name, self.lift(s, v))
        return [(s, NEXT)]
    def s_Assert(self, n, s, fr):
        out = []
        for s2, b in self.ev_cond(n.test, s, fr):
            if isinstance(b, Exc): out.append((s2, ("raise", b)))
            elif b: out.append((s2, NEXT))
            else: out.append((s2, ("raise", self.raise_(s2, AssertionError))))
        return out
    def s_If(self, n, s, fr):
        out = []
        for s2, b in self.ev_cond(n.test, s, fr):
            if isinstance(b, Exc): out.append((s2, ("raise", b)))
            else: out += self.block(n.body if b else n.orelse, s2, fr)
        return out
    def s_FunctionDef(self, n, s, fr):
        cm = any(isinstance(d, ast.Name) and d.id == "contextmanager" for d in n.decorator_list)
        f = Fn(n, fr["fid"], fr["mod"], fr["qual"] + ".<locals>." + n.name, cm=cm)
        self.assign_name(s, fr, n.name, f)
        return [(s, NEXT)]
    def s_ClassDef(self, n, s, fr):
        out = []
        for s2, bs in self.ev_list(n.bases, s, fr):
            if isinstance(bs, Exc): out.append((s2, ("raise", bs))); continue
            attrs = {}
            C = Cls(n, fr["fid"], fr["mod"], fr["qual"] + ".<locals>." + n.name, bs, attrs)
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    attrs[m.name] = Fn(m, fr["fid"], fr["mod"], C.qual + "." + m.name, cls=C)
                elif isinstance(m, ast.Expr) or isinstance(m, ast.Pass): pass
                elif isinstance(m, ast.Assign) and isinstance(m.targets[0], ast.Name):
                    if isinstance(m.value, ast.Name) and m.value.id in attrs: attrs[m.targets[0].id] = attrs[m.value.id]
                    else: attrs[m.targets[0].id] = self.ev(m.value, s2, fr)[0][1]
                else: raise Unsupported("class body statement")
            self.assign_name(s2, fr, n.name, C)
            out.append((s2, NEXT))
        return out
    def s_Raise(self, n, s, fr):
        if n.exc is None:
            cur = s.meta.get("handling")
            if cur is None: raise Unsupported("bare raise")
            return [(s, ("raise", cur))]
        out = []
        es = [n.exc] + ([n.cause] if n.cause else [])
        for s2, vs in self.ev_list(es, s, fr):
            if isinstance(vs, Exc): out.append((s2, ("raise", vs))); continue
            x = vs[0]
            if isinstance(x, (Cls,)) or (isinstance(x, PyObj) and isinstance(x.o, type)):
                r = self.call(s2, x, [], {})
            else: r = [(s2, x)]
            for s3, v in r:
                if isinstance(v, Exc): out.append((s3, ("raise", v))); continue
                if isinstance(v, PyObj): v = self.toV(s3, v)
                if len(vs) > 1: self.setH(s3, v, "__cause__", vs[1])
                C = self.static_class(s3, v)
                py = C.pyobj if isinstance(C, Cls) else C
                out.append((s3, ("raise", Exc(v, py if isinstance(py, type) and self.entails(s3, cls_of(V.ov(v)) == cid(py)) else None))))
        return out
    def s_Delete(self, n, s, fr):
        outs = [(s, NEXT)]
        for t in n.targets:
            new = []
            for s2, o in outs:
                if o[0] != "next": new.append((s2, o)); continue
                if isinstance(t, ast.Name):
                    s2.frames[fr["fid"]].pop(t.id, None); new.append((s2, NEXT))
                elif isinstance(t, ast.Subscript):
                    for s3, vs in self.ev_list([t.value, t.slice], s2, fr):
                        if isinstance(vs, Exc): new.append((s3, ("raise", vs))); continue
                        for s4, r in self.delitem(s3, vs[0], vs[1]):
                            new.append((s4, ("raise", r) if isinstance(r, Exc) else NEXT))
                elif isinstance(t, ast.Attribute):
                    for s3, v in self.ev(t.value, s2, fr):
                        if isinstance(v, Exc): new.append((s3, ("raise", v))); continue
                        self.setH(s3, self.toV(s3, v), t.attr, ABSENT); new.append((s3, NEXT))
                else: raise Unsupported("del target")
            outs = new
        return outs
    def delitem(self, s, v, k):
        kd = self.kindof(s, v)
        if kd is dict:
            vv = self.toV(s, v); o = self.oid(vv); kk = self.toV(s, k)
            d = z3.Select(s.D, o)
            out = []
            for s2, b in self.branch(s, z3.Select(d, kk) == ABSENT):
                if b: out.append((s2, Exc(self.mk_exc(s2, KeyError, [k]), KeyError)))
                else:
                    s2.D = z3.Store(s2.D, o, z3.Store(d, kk, ABSENT))
                    s2.DK = z3.Store(s2.DK, o, self.seq_remove(s2, z3.Select(s2.DK, o), kk))
                    out.append((s2, PyObj(None)))
            return out
        if is_v(v):
            h = self.reg.method_hook(self, s, v, "__delitem__", [k], {}) if self.reg else None
            if h is not None: return h
            C = self.static_class(s, v)
            r = self.cls_attr(s, C, "__delitem__") if C is not None else None
            if r and r[0] == "method": return self.call(s, r[1].bind(v), [k], {})
        raise Unsupported("del item")
    def seq_remove(self, s, sq, x):
        i = z3.IndexOf(sq, unit(x), 0)
        return z3.Concat(z3.Extract(sq, 0, i), z3.Extract(sq, i + 1, z3.Length(sq) - i - 1))

    # ---- assignment
    def s_Assign(self, n, s, fr):
        if isinstance(n.value, ast.Yield): raise Unsupported("yield value")
        outs = []
        for s2, v in self.ev(n.value, s, fr):
            if isinstance(v, Exc): outs.append((s2, ("raise", v))); continue
            cur = [(s2, None)]
            for t in n.targets:
                nx = []
                for s3, e in cur:
                    if isinstance(e, Exc): nx.append((s3, e)); continue
                    nx += self.assign_target(t, v, s3, fr)
                cur = nx
            outs += [(s3, ("raise", e) if isinstance(e, Exc) else NEXT) for s3, e in cur]
        return outs
    def s_AnnAssign(self, n, s, fr):
        if n.value is None: return [(s, NEXT)]
        return self.s_Assign(ast.Assign(targets=[n.target], value=n.value), s, fr)
    def s_AugAssign(self, n, s, fr):
        load = _copymod.copy(n.target); load.ctx = ast.Load()
        out = []
        if isinstance(n.target, ast.Name): subs = []
        for s2, vs in self.ev_list([load, n.value], s, fr):
            if isinstance(vs, Exc): out.append((s2, ("raise", vs))); continue
            if isinstance(n.op, ast.Add) and self.kindof(s2, vs[0]) is list:
                for s3, r in self.builtin_method(s2, Meth(vs[0], "extend", "list"), [vs[1]], {}):
                    out.append((s3, ("raise", r) if isinstance(r, Exc) else NEXT))
                continue
            for s3, r in self.binop(s2, n.op, vs[0], vs[1]):
                if isinstance(r, Exc): out.append((s3, ("raise", r))); continue
                for s4, e in self.assign_target(n.target, r, s3, fr):
                    out.append((s4, ("raise", e) if isinstance(e, Exc) else NEXT))
        return out
    def assign_name(self, s, fr, name, v):
        fid = fr["fid"]
        d = s.frames[fid]
        if name in d.get("$nonlocal", ()):
            f = d["$parent"]
            while f is not None:
                if name in s.frames[f] or name in s.frames[f].get("$locals", ()):
                    s.frames[f][name] = v; return
                f = s.frames[f].get("$parent")
        d[name] = v
    def assign_target(self, t, v, s, fr):
        """list of (state, None|Exc)."""
        if isinstance(t, ast.Name):
            self.assign_name(s, fr, t.id, v); return [(s, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, s, fr)
        if isinstance(t, ast.Attribute):
            out = []
            for s2, b in self.ev(t.value, s, fr):
                if isinstance(b, Exc): out.append((s2, b)); continue
                out += self.setattr(s2, b, t.attr, v)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s2, b in self.ev(t.value, s, fr):
                if isinstance(b, Exc): out.append((s2, b)); continue
                if isinstance(t.slice, ast.Slice):
                    if t.slice.lower or t.slice.upper or t.slice.step: raise Unsupported("slice assignment")
                    nv = self.list_from(s2, v)
                    for s3, lv in nv:
                        if isinstance(lv, Exc): out.append((s3, lv)); continue
                        s3.L = z3.Store(s3.L, self.oid(b), self.seq_of(s3, lv))
                        out.append((s3, None))
                    continue
                for s3, k in self.ev(t.slice, s2, fr):
                    if isinstance(k, Exc): out.append((s3, k)); continue
                    out += self.setitem(s3, b, k, v)
            return out
        raise Unsupported(f"assignment target {type(t).__name__}")
    def setattr(self, s, b, name, v):
        if isinstance(b, PyObj):
            h = self.reg.setattr_hook(self, s, b, name, v) if self.reg else None
            if h is not None: return h
        if isinstance(b, (Fn,)) or isinstance(b, PyObj): b = self.toV(s, b)
        if not is_v(b): raise Unsupported("setattr")
        C = self.static_class(s, b)
        if C is not None and not (isinstance(C, type) and issubclass(C, ast.AST)):
            r = self.cls_attr(s, C, "__setattr__")
            if r and r[0] == "method":
                return [(s2, x if isinstance(x, Exc) else None) for s2, x in self.call(s, r[1].bind(b), [PyObj(name), v], {})]
            p = self.cls_attr(s, C, name)
            if p and p[0] == "property":
                K = p[2]; pr = vars(K)[name]
                fn = self.source_fn(pr.fset) if pr.fset else None
                if fn is None: return [(s, self.raise_(s, AttributeError))]
                return [(s2, x if isinstance(x, Exc) else None) for s2, x in self.call(s, fn.bind(b), [v], {})]
        out = []
        for s2, ok in self.branch(s, V.is_obj(b)):
            if ok: self.setH(s2, b, name, v); out.append((s2, None))
            else: out.append((s2, self.raise_(s2, AttributeError)))
        return out
    def setitem(self, s, b, k, v):
        kd = self.kindof(s, b)
        if kd is dict:
            bb = self.toV(s, b); o = self.oid(bb); kk = self.toV(s, k)
            d = z3.Select(s.D, o)
            ks = z3.Select(s.DK, o)
            new = z3.simplify(z3.Select(d, kk) == ABSENT)
            if not z3.is_true(new) and not z3.is_false(new) and self.concrete_seq(ks) is not None and self.entails(s, z3.Not(new)): new = z3.BoolVal(False)
            s.DK = z3.Store(s.DK, o, z3.simplify(z3.If(new, z3.Concat(ks, unit(kk)), ks)))
            s.D = z3.Store(s.D, o, z3.Store(d, kk, self.toV(s, v)))
            return [(s, None)]
        if kd is list:
            sq = self.seq_of(s, b); n = z3.Length(sq)
            i = V.iv(self.toV(s, k)); i = z3.simplify(z3.If(i >= 0, i, i + n))
            out = []
            for s2, ok in self.branch(s, z3.And(i >= 0, i < n)):
                if not ok: out.append((s2, self.raise_(s2, IndexError)))
                else:
                    nw = z3.Concat(z3.Extract(sq, 0, i), unit(self.toV(s2, v)), z3.Extract(sq, i + 1, n - i - 1))
                    # theorems of sequences, instantiated here (and at the indices the contract watches)
                    w = fresh("upd", SeqV); vv = self.toV(s2, v)
                    s2.assume(w == z3.simplify(nw), z3.Length(w) == n, w[i] == vv, z3.Extract(w, 0, i) == z3.Extract(sq, 0, i), z3.Extract(w, i + 1, n - i - 1) == z3.Extract(sq, i + 1, n - i - 1))
                    for j in getattr(self.current, "watch", ()):
                        s2.assume(z3.Implies(z3.And(j >= 0, j < n), w[j] == z3.If(j == i, vv, sq[j])))
                    s2.L = z3.Store(s2.L, self.oid(b), w); out.append((s2, None))
            return out
        if is_v(b):
            h = self.reg.method_hook(self, s, b, "__setitem__", [k, v], {}) if self.reg else None
            if h is not None: return [(s2, x if isinstance(x, Exc) else None) for s2, x in h]
            C = self.static_class(s, b)
            r = self.cls_attr(s, C, "__setitem__") if C is not None else None
            if r and r[0] == "method": return [(s2, x if isinstance(x, Exc) else None) for s2, x in self.call(s, r[1].bind(b), [k, v], {})]
        raise Unsupported(f"item assignment on {kd}")
    def unpack(self, elts, v, s, fr):
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        if isinstance(v, Tup): vals = v.els
        elif isinstance(v, PyObj) and isinstance(v.o, tuple): vals = [PyObj(x) for x in v.o]
        else: vals = None
        if vals is None:
            vv = self.toV(s, v); sq = self.seq_of(s, vv)
            cs = self.concrete_seq(sq)
            if cs is not None: vals = [self.fromV(x) for x in cs]
        outs = []
        if vals is not None:
            if star is None:
                if len(vals) != len(elts): return [(s, self.raise_(s, ValueError))]
                pairs = list(zip(elts, vals))
            else:
                k = len(elts) - star - 1
                if len(vals) < len(elts) - 1: return [(s, self.raise_(s, ValueError))]
                mid = self.alloc_list(s, seq(*[self.toV(s, x) for x in vals[star:len(vals) - k]]))
                pairs = list(zip(elts[:star], vals[:star])) + [(elts[star].value, mid)] + list(zip(elts[star + 1:], vals[len(vals) - k:]))
            states = [s]
        else:
            n = z3.Length(sq)
            need = n == len(elts) if star is None else n >= len(elts) - 1
            states, pairs = [], None
            for s2, ok in self.branch(s, need):
                if ok: states.append(s2)
                else: outs.append((s2, self.raise_(s2, ValueError)))
            if star is None:
                pairs = [(e, ("idx", i)) for i, e in enumerate(elts)]
            else:
                k = len(elts) - star - 1
                pairs = [(e, ("idx", i)) for i, e in enumerate(elts[:star])] + [(elts[star].value, ("mid", star, k))] + [(e, ("idx", z3.Length(sq) - k + i)) for i, e in enumerate(elts[star + 1:])]
        for s2 in states:
            cur = [(s2, None)]
            for t, x in pairs:
                nx = []
                for s3, e in cur:
                    if isinstance(e, Exc): nx.append((s3, e)); continue
                    y = x
                    if isinstance(x, tuple) and x[0] == "idx":
                        y = z3.simplify(sq[x[1]]); self.elem_fact(s3, v, y); y = self.fromV(y)
                    elif isinstance(x, tuple) and x[0] == "mid":
                        y = self.alloc_list(s3, z3.simplify(z3.Extract(sq, x[1], z3.Length(sq) - x[1] - x[2])))
                        kk = s3.meta.get(("elem", z3.simplify(self.toV(s3, v)).get_id()))
                        if kk: s3.meta[("elem", z3.simplify(y).get_id())] = kk; s3.meta[("keep2", z3.simplify(y).get_id())] = z3.simplify(y)
                    nx += self.assign_target(t, y, s3, fr)
                cur = nx
            outs += cur
        return outs

    # ---- try / with / yield
    def exc_matches(self, s, exc, C):
        if isinstance(C, Tup): return z3.Or([self.exc_matches(s, exc, x) for x in C.els])
        if isinstance(C, PyObj) and isinstance(C.o, tuple): return z3.Or([self.exc_matches(s, exc, PyObj(x)) for x in C.o])
        py = C.pyobj if isinstance(C, Cls) else C.o
        if exc.cls is not None: return z3.BoolVal(issubclass(exc.cls, py))
        return isa(cls_of(V.ov(exc.v)), cid(py))
    def s_Try(self, n, s, fr):
        outs = []
        for s2, o in self.block(n.body, s, fr):
            if o[0] == "raise" and n.handlers:
                outs += self.handlers(n.handlers, s2, o, fr)
            elif o[0] == "next" and n.orelse: outs += self.block(n.orelse, s2, fr)
            else: outs.append((s2, o))
        if not n.finalbody: return outs
        fin = []
        for s2, o in outs:
            for s3, o2 in self.block(n.finalbody, s2, fr):
                fin.append((s3, o if o2[0] == "next" else o2))
        return fin
    def handlers(self, hs, s, o, fr):
        exc = o[1]
        outs, pend = [], [s]
        for h in hs:
            newp = []
            for s1 in pend:
                if h.type is None: cases = [(s1, True)]
                else:
                    cases = []
                    for s2, C in self.ev(h.type, s1, fr):
                        if isinstance(C, Exc): outs.append((s2, ("raise", C))); continue
                        cases += self.branch(s2, self.exc_matches(s2, exc, C))
                for s2, b in cases:
                    if not b: newp.append(s2); continue
                    if h.name: self.assign_name(s2, fr, h.name, exc.v)
                    old = s2.meta.get("handling"); s2.meta["handling"] = exc
                    for s3, o3 in self.block(h.body, s2, fr):
                        s3.meta["handling"] = old
                        if h.name: s3.frames[fr["fid"]].pop(h.name, None)
                        outs.append((s3, o3))
            pend = newp
        return outs + [(s1, o) for s1 in pend]
    def s_With(self, n, s, fr):
        if len(n.items) > 1:
            inner = ast.With(items=n.items[1:], body=n.body)
            return self.s_With(ast.With(items=n.items[:1], body=[ast.copy_location(inner, n)]), s, fr)
        item = n.items[0]
        outs = []
        for s2, c in self.ev(item.context_expr, s, fr):
            if isinstance(c, Exc): outs.append((s2, ("raise", c))); continue
            outs += self.with_value(s2, c, item.optional_vars, n.body, fr)
        return outs
    def with_value(self, s, c, optvars, body, fr):
        if is_v(c):
            c2 = self.fromV(c)
            if isinstance(c2, CM): c = c2
        if isinstance(c, CM):
            def run_body_cb(s3, val):
                cur = [(s3, None)]
                if optvars is not None: cur = self.assign_target(optvars, val, s3, fr)
                r = []
                for s4, e in cur:
                    if isinstance(e, Exc): r.append((s4, ("raise", e))); continue
                    r += self.block(body, s4, fr)
                return r
            return self.run_cm(s, c, run_body_cb)
        h = self.reg.with_hook(self, s, c, optvars, body, fr) if self.reg else None
        if h is not None: return h
        C = self.static_class(s, c) if is_v(c) else None
        r = self.cls_attr(s, C, "__enter__") if C is not None else None
        if r and r[0] == "method":
            x = self.cls_attr(s, C, "__exit__")
            outs = []
            for s2, v in self.call(s, r[1].bind(c), [], {}):
                if isinstance(v, Exc): outs.append((s2, ("raise", v))); continue
                cur = self.assign_target(optvars, v, s2, fr) if optvars is not None else [(s2, None)]
                for s3, e in cur:
                    for s4, o in self.block(body, s3, fr):
                        a = [PyObj(None)] * 3 if o[0] != "raise" else [TypeOf(o[1].v), o[1].v, PyObj(None)]
                        for s5, rv in self.call(s4, x[1].bind(c), a, {}):
                            if isinstance(rv, Exc): outs.append((s5, ("raise", rv))); continue
                            if o[0] == "raise":
                                for s6, b in self.branch(s5, self.truth(s5, rv)): outs.append((s6, NEXT if b else o))
                            else: outs.append((s5, o))
            return outs
        raise Unsupported(f"with on {c!r}")
    def run_cm(self, s, c, cb):
        """Inline a @contextmanager generator around callback cb(state, yielded) -> outcomes."""
        d = self.bind_args(s, c.fn, c.args, c.kwargs)
        if isinstance(d, Exc): return [(s, ("raise", d))]
        marker = object()
        saved_stack = s.meta.get("stack", ())
        # the with-body's non-local outcomes are stored while the generator finishes
        prev = s.yh
        def handler(s2, val):
            s2.yh = prev
            out = []
            for s3, o in cb(s2, val):
                s3.yh = handler
                if o[0] == "next": out.append((s3, NEXT))
                elif o[0] == "raise": out.append((s3, o))
                else:
                    s3.meta[("pend", id(marker))] = o
                    out.append((s3, NEXT))
            return out
        s.yh = handler
        self.inlined.add(f"{c.fn.mod}:{c.fn.qual}")
        outs = []
        for s2, o in self.run_body(s, c.fn, d):
            s2.yh = prev
            s2.meta["stack"] = saved_stack
            p = s2.meta.pop(("pend", id(marker)), None)
            if o[0] == "raise": outs.append((s2, o))
            elif p is not None: outs.append((s2, p))
            else: outs.append((s2, NEXT))
        return outs
    def do_yield(self, y, s, fr):
        if s.yh is None: raise Unsupported("yield outside contextmanager")
        vals = [(s, PyObj(None))] if y.value is None else self.ev(y.value, s, fr)
        out = []
        for s2, v in vals:
            if isinstance(v, Exc): out.append((s2, ("raise", v))); continue
            out += s2.yh(s2, v)
        return out

    # ---- loops
    def loop_key(self, n, fr):
        """Index of a loop, by order of first symbolic encounter (stable under helper extraction)."""
        node = getattr(n, "_comp_key", n)
        node = getattr(node, "_comp_key", node)
        if id(node) not in self.loop_ord:
            self.loop_ord[id(node)] = len(self.loop_ord)
            self.loop_keep.append(node)
        return (fr["qual"], self.loop_ord[id(node)])
    def s_For(self, n, s, fr):
        outs = []
        for s2, it in self.ev(n.iter, s, fr):
            if isinstance(it, Exc): outs.append((s2, ("raise", it))); continue
            if isinstance(it, GenVal):
                for s3, lv in self.consume_gen(s2, it):
                    if isinstance(lv, Exc): outs.append((s3, ("raise", lv))); continue
                    outs += self.for_over(n, s3, fr, lv)
                continue
            outs += self.for_over(n, s2, fr, it)
        return outs
    def for_over(self, n, s, fr, it):
        h = self.reg.iter_hook(self, s, it) if self.reg else None
        si = h if h is not None else self.as_iter(s, it)
        if isinstance(si, list):
            cur, outs = [s], []
            for x in si:
                nx = []
                for s1 in cur:
                    for s2, e in self.assign_target(n.target, x, s1, fr):
                        if isinstance(e, Exc): outs.append((s2, ("raise", e))); continue
                        for s3, o in self.block(n.body, s2, fr):
                            if o[0] in ("next", "continue"): nx.append(s3)
                            elif o[0] == "break": outs.append((s3, NEXT))
                            else: outs.append((s3, o))
                cur = nx
            for s1 in cur: outs += self.block(n.orelse, s1, fr)
            return outs
        return self.sym_loop(n, s, fr, si)
    def s_While(self, n, s, fr): return self.sym_loop(n, s, fr, None)

    def sym_loop(self, n, s0, fr, si):
        key = self.loop_key(n, fr)
        spec = self.current.loop_spec(key, self) if self.current else None
        outs = []
        pre = s0.clone()
        mark = T._fresh[0]
        s0.meta["$freshmark"] = mark
        if si is not None:
            # zero-iteration exit keeps the pre-loop state exactly
            z = s0.clone(); z.assume(si.n == 0)
            if self.feasible(z):
                if spec: self.check_inv(z, n, fr, spec, z3.IntVal(0), si, pre, key, "entry0", assume_only=True)
                outs += self.block(n.orelse, z, fr)
            s0 = s0.clone(); s0.assume(si.n > 0)
            s0.meta["$freshmark"] = mark
            if not self.feasible(s0): return outs
        if spec: self.check_inv(s0, n, fr, spec, z3.IntVal(0), si, pre, key, "entry")
        # discover what the body may modify (fixpoint)
        modified = {"frames": set(), "H": False, "L": False, "D": False, "DK": False, "SS": False, "ghost": set()}
        if si is None:
            for nm in assigned_names(n): pass
        for _ in range(8):
            head = self.havoc(s0, modified, spec)
            changed = self.probe(n, head, fr, si, spec, modified, key, pre, s0)
            if not changed: break
        else: raise Unsupported("loop modification fixpoint")
        # body preservation
        dyn = self.dynamic_list(s0, si, modified) if si is not None else None
        if dyn is not None and not spec: raise Unsupported("loop mutates the list it iterates over (no invariant)")
        head = self.havoc(s0, modified, spec)
        i = fresh("i", Int)
        if dyn is not None:
            head.assume(i >= 0, i < z3.Length(z3.Select(head.L, dyn)))
            si = si.dynamic(self, dyn)
        elif si is not None:
            head.assume(i >= 0, i < si.n)
        else:
            head.assume(i >= 0)
        self.assume_frame(head, s0, modified)
        if spec: self.assume_inv(head, n, fr, spec, i, si, pre)
        for s1, o in self.loop_iter(n, head.clone(), fr, si, i):
            if o[0] == "iter":
                if spec: self.check_inv(s1, n, fr, spec, i + 1, si, pre, key, "preserve")
            elif o[0] == "exit":       # while: condition false
                outs += self.block(n.orelse, s1, fr)
            elif o[0] == "break": outs.append((s1, NEXT))
            else: outs.append((s1, o))
        if si is not None:
            ex = self.havoc(s0, modified, spec)
            self.assume_frame(ex, s0, modified)
            iend = si.n
            if dyn is not None:
                iend = fresh("i", Int)
                ex.assume(iend >= 0, iend >= z3.Length(z3.Select(ex.L, dyn)))
            if spec: self.assume_inv(ex, n, fr, spec, iend, si, pre, final=True)
            if self.feasible(ex): outs += self.block(n.orelse, ex, fr)
        return outs
    def dynamic_list(self, s0, si, modified):
        """The list being iterated over may be mutated by the body: its id term, else None."""
        live = getattr(si, "live", None)
        if live is None or not modified["L"]: return None
        o = self.oid(live)
        ws = modified.get(("w", "L"))
        if ws is not None and all(self.entails(s0, w != o) for w in ws): return None
        return o
    def loop_iter(self, n, s, fr, si, i):
        outs = []
        if si is not None:
            x = si.elt(s, i)
            starts = self.assign_target(n.target, x, s, fr)
        else:
            starts = []
            for s2, b in self.ev_cond(n.test, s, fr):
                if isinstance(b, Exc): outs.append((s2, ("raise", b)))
                elif b: starts.append((s2, None))
                else: outs.append((s2, ("exit",)))
        for s2, e in starts:
            if isinstance(e, Exc): outs.append((s2, ("raise", e))); continue
            for s3, o in self.block(n.body, s2, fr):
                if o[0] in ("next", "continue"): outs.append((s3, ("iter",)))
                else: outs.append((s3, o))
        return outs
    def havoc(self, s0, mod, spec):
        s = s0.clone()
        for (fid, nm) in mod["frames"]:
            if nm in s.frames.get(fid, {}): 
                v = fresh("hv_" + nm)
                s.frames[fid][nm] = v
                ty = mod.get(("ty", fid, nm))
                if ty is not None: s.assume(ty(v))
                s.assume(z3.Implies(V.is_obj(v), V.ov(v) < s.alloc + s.nalloc))
        newalloc = fresh("alloc", Int)
        s.assume(newalloc >= s0.alloc + s0.nalloc)
        s.alloc, s.nalloc = newalloc, 0
        if mod["H"]: s.H = fresh("H", HeapSort)
        if mod["L"]: s.L = fresh("L", ListSort)
        if mod["D"]: s.D = fresh("D", DictSort)
        if mod["DK"]: s.DK = fresh("DK", ListSort)
        if mod["SS"]: s.SS = fresh("SS", SetSort)
        for g in mod["ghost"]: s.ghost[g] = fresh("gh_" + g, s0.ghost[g].sort())
        return s
    def assume_frame(self, s, s0, mod):
        """Objects not written by the loop keep their contents (write sets found by the probe)."""
        for comp in ("H", "L", "D", "DK", "SS"):
            if not mod[comp]: continue
            ws = mod.get(("w", comp))
            names = mod.get(("wa", "H")) if comp == "H" else None
            if ws is None and names is None: continue      # unknown write set
            r = z3.Int("r!fr")
            new, old = getattr(s, comp), getattr(s0, comp)
            lim = s0.alloc + s0.nalloc
            cond = z3.And([r < lim] + [r != w for w in ws or ()])
            if comp == "H":
                a = z3.String("a!fr")
                if ws is None: cond = z3.And(r < lim, *[a != z3.StringVal(x) for x in sorted(names)])
                self.frame_axiom(s, [r, a], HeapSort, z3.Implies(cond, z3.Select(new, r, a) == z3.Select(old, r, a)), z3.Select(new, r, a))
            else:
                self.frame_axiom(s, [r], new.sort(), z3.Implies(cond, z3.Select(new, r) == z3.Select(old, r)), z3.Select(new, r))
    def frame_axiom(self, s, vs, sort, body, pat):
        q = z3.ForAll(vs, body, patterns=[pat])
        FRAMES[q.get_id()] = (q, sort.get_id(), lambda *ix: z3.substitute(body, *zip(vs, ix)))
        s.assume(q)
    def probe(self, n, head, fr, si, spec, mod, key, pre, s0):
        """Run the body once (obligations suppressed) to find modified state. Returns True if mod grew."""
        self.suppress += 1
        grew = False
        try:
            i = fresh("pi", Int)
            h = head.clone()
            if si is not None: h.assume(i >= 0, i < si.n)
            else: h.assume(i >= 0)
            self.assume_frame(h, s0, mod)
            if spec: self.assume_inv(h, n, fr, spec, i, si, pre)
            base = h.clone()
            lim = z3.simplify(h.alloc + h.nalloc)
            for s1, o in self.loop_iter(n, h, fr, si, i):
                for fid, d in base.frames.items():
                    for nm, v in s1.frames.get(fid, {}).items():
                        if nm.startswith("$"):
                            continue
                        if nm in d:
                            if not same_val(d[nm], v) and (fid, nm) not in mod["frames"]:
                                if not is_v(d[nm]) and not isinstance(d[nm], (PyObj, Tup, Fn, Part)): raise Unsupported(f"loop rebinds {nm}")
                                mod["frames"].add((fid, nm)); grew = True
                for comp in ("H", "L", "D", "DK", "SS"):
                    a, b = getattr(base, comp), getattr(s1, comp)
                    if a.get_id() != b.get_id():
                        if not mod[comp]: mod[comp] = True; grew = True
                        ws = write_set(b, a)
                        if comp == "H":      # attribute names written on objects that may be older than this iteration
                            at = write_attrs(b, a, lambda w: self.entails(s1, w >= lim)); old = mod.get(("wa", "H"), set())
                            new = None if at is None or old is None else old | at
                            if new != old: grew = True
                            mod[("wa", "H")] = new
                        cur = mod.get(("w", comp), [])
                        if ws is None or cur is None:
                            if cur is not None: mod[("w", comp)] = None; grew = True
                        else:
                            for w in ws:
                                if self.entails(s1, w >= lim): continue      # object allocated in this iteration
                                if any(c.get_id() == w.get_id() for c in cur): continue
                                if not loop_invariant(w, base, s0):
                                    w2 = z3.substitute(w, *[(getattr(base, c), getattr(s0, c)) for c in ("H", "L", "D", "DK", "SS")])
                                    w2 = z3.simplify(w2)
                                    if loop_invariant(w2, base, s0) and self.entails(s1, w == w2):
                                        if any(c.get_id() == w2.get_id() for c in cur): continue
                                        w = w2
                                    else: cur = None; break
                                cur = cur + [w]
                            if cur is None or len(cur) != len(mod.get(("w", comp), [])):
                                if mod.get(("w", comp), []) != cur: grew = True
                                mod[("w", comp)] = cur
                        if ("w", comp) not in mod: mod[("w", comp)] = []
                for g in base.ghost:
                    if base.ghost[g].get_id() != s1.ghost[g].get_id() and g not in mod["ghost"]:
                        mod["ghost"].add(g); grew = True
        finally:
            self.suppress -= 1
        return grew
    def _inv_ctx(self, s, n, fr, i, si, pre):
        return LoopCtx(self, s, fr, i, si, pre)
    def check_inv(self, s, n, fr, spec, i, si, pre, key, phase, assume_only=False):
        c = self._inv_ctx(s, n, fr, i, si, pre)
        for ax in spec.axioms(c): s.assume(ax)
        for nm, f in spec.inv(c):
            if assume_only: continue
            self.oblige(s, f"loop{key[1]}.{nm}.{phase}", f)
    def assume_inv(self, s, n, fr, spec, i, si, pre, final=False):
        c = self._inv_ctx(s, n, fr, i, si, pre)
        for ax in spec.axioms(c): s.assume(ax)
        sq = getattr(si, "seq", None) if si is not None else None
        if sq is not None and not final:      # theorem of sequences, instantiated at i
            s.assume(z3.Implies(z3.And(i >= 0, i < z3.Length(sq)), z3.Extract(sq, 0, i + 1) == z3.Concat(z3.Extract(sq, 0, i), unit(sq[i]))))
        for nm, f in spec.inv(c): s.assume(f)

    # ---- list helpers
    def list_from(self, s, v):
        """list(v): [(state, list value)]"""
        if isinstance(v, GenVal): return self.consume_gen(s, v)
        h = self.reg.list_hook(self, s, v) if self.reg else None
        if h is not None: return h
        si = self.as_iter(s, v)
        if isinstance(si, list): return [(s, self.alloc_list(s, seq(*[self.toV(s, x) for x in si])))]
        if hasattr(si, "seq"):
            r = self.alloc_list(s, si.seq)
            if is_v(v):
                kk = s.meta.get(("elem", z3.simplify(v).get_id()))
                if kk: s.meta[("elem", z3.simplify(r).get_id())] = kk; s.meta[("keep2", z3.simplify(r).get_id())] = z3.simplify(r)
            return [(s, r)]
        raise Unsupported("list() of iterator")

    # =================================================================== builtins
    def b_isinstance(self, s, args, kw): return [(s, V.bool(z3.simplify(self.isinstance_f(s, args[0], args[1]))))]
    def b_issubclass(self, s, args, kw):
        a, b = args
        if isinstance(a, PyObj) and isinstance(b, PyObj): return [(s, PyObj(issubclass(a.o, b.o)))]
        if isinstance(a, TypeOf): return self.b_isinstance(s, [a.v, b], kw)
        raise Unsupported("issubclass")
    def b_len(self, s, args, kw):
        v = args[0]
        c, o = self.conc(v)
        if c and isinstance(o, (str, tuple)): return [(s, PyObj(len(o)))]
        if isinstance(v, Tup): return [(s, PyObj(len(v.els)))]
        k = self.kindof(s, v)
        if k is str: return [(s, V.int(z3.Length(V.sv(v))))]
        if k in (list, tuple, dict): return [(s, V.int(z3.simplify(z3.Length(self.seq_of(s, v)))))]
        if is_v(v):
            h = self.reg.method_hook(self, s, v, "__len__", [], {}) if self.reg else None
            if h is not None: return h
            r = self.cls_attr(s, k, "__len__") if k is not None else None
            if r and r[0] == "method": return self.call(s, r[1].bind(v), [], {})
        raise Unsupported(f"len of {k}")
    def b_hasattr(self, s, args, kw):
        c, nm = self.conc(args[1])
        v = args[0]
        if isinstance(v, (PyObj, Fn, Cls)) and c:
            r = self.getattr(s, v, nm)
            if isinstance(v, Fn): return [(s, V.bool(z3.simplify(r[0][1] != ABSENT)))] if is_v(r[0][1]) else [(s, PyObj(True))]
            return [(s2, PyObj(not isinstance(x, Exc))) for s2, x in r]
        vv = self.toV(s, v)
        if c:
            C = self.static_class(s, vv)
            if C is not None and not (C in (list, dict, set, str, tuple, int)) and self.cls_attr(s, C, nm) and nm not in ("end_lineno", "end_col_offset", "lineno", "col_offset"): return [(s, PyObj(True))]
            if C in (list, dict, set, str, tuple, int): return [(s, PyObj(hasattr(C, nm)))]
        h = self.getH(s, vv, nm if c else V.sv(args[1]))
        return [(s, V.bool(z3.simplify(z3.And(V.is_obj(vv), h != ABSENT))))]
    def b_getattr(self, s, args, kw):
        c, nm = self.conc(args[1])
        out = []
        if c: rs = self.getattr(s, args[0], nm)
        else:
            v = self.toV(s, args[0])
            val = self.getH(s, v, V.sv(self.toV(s, args[1])))
            rs = []
            for s2, b in self.branch(s, z3.And(V.is_obj(v), val != ABSENT)):
                rs.append((s2, self.fromV(val) if b else self.raise_(s2, AttributeError)))
        for s2, v in rs:
            if isinstance(v, Exc) and len(args) > 2 and v.cls is AttributeError: out.append((s2, args[2]))
            else: out.append((s2, v))
        return out
    def b_setattr(self, s, args, kw):
        c, nm = self.conc(args[1])
        if c: return [(s2, x if isinstance(x, Exc) else PyObj(None)) for s2, x in self.setattr(s, args[0], nm, args[2])]
        v = self.toV(s, args[0]); out = []
        for s2, b in self.branch(s, V.is_obj(v)):
            if b: self.setH(s2, v, V.sv(self.toV(s2, args[1])), args[2]); out.append((s2, PyObj(None)))
            else: out.append((s2, self.raise_(s2, AttributeError)))
        return out
    def b_delattr(self, s, args, kw):
        c, nm = self.conc(args[1])
        v = self.toV(s, args[0]); nm = z3.StringVal(nm) if c else V.sv(self.toV(s, args[1])); out = []
        for s2, b in self.branch(s, z3.And(V.is_obj(v), self.getH(s, v, nm) != ABSENT)):
            if b: self.setH(s2, v, nm, ABSENT); out.append((s2, PyObj(None)))
            else: out.append((s2, self.raise_(s2, AttributeError)))
        return out
    def b_id(self, s, args, kw):
        return [(s, V.int(obj_id(self.toV(s, args[0]))))]
    def b_callable(self, s, args, kw):
        if isinstance(args[0], (Fn, Cls, Meth)): return [(s, PyObj(True))]
        if isinstance(args[0], PyObj): return [(s, PyObj(callable(args[0].o)))]
        return [(s, V.bool(callable_p(args[0])))]
    def b_bool(self, s, args, kw):
        return [(s2, b if isinstance(b, Exc) else PyObj(b)) for s2, b in self.truth_branch(s, args[0])]
    def b_str(self, s, args, kw): return [(s, V.str(self.str_of(s, args[0])))] if args else [(s, PyObj(""))]
    def b_repr(self, s, args, kw): return [(s, V.str(self.repr_of(s, args[0])))]
    def b_print(self, s, args, kw): return [(s, PyObj(None))]
    def b_list(self, s, args, kw):
        if not args: return [(s, self.alloc_list(s, EMPTY))]
        return self.list_from(s, args[0])
    def b_tuple(self, s, args, kw):
        if not args: return [(s, Tup([]))]
        out = []
        for s2, l in self.list_from(s, args[0]):
            out.append((s2, l) if isinstance(l, Exc) else (s2, V.tup(self.seq_of(s2, l))))
        return out
    def b_set(self, s, args, kw):
        if not args: return [(s, self.alloc_set(s))]
        a = args[0]
        si = self.as_iter(s, a) if not isinstance(a, GenVal) else None
        if isinstance(si, list): return [(s, self.alloc_set(s, si))]
        v = self.alloc(s, set)
        if si is not None and hasattr(si, "seq"):
            st = fresh("setof", SetVal)
            x = z3.Const("x!set", V)
            s.assume(z3.ForAll([x], z3.Select(st, x) == z3.Contains(si.seq, z3.Unit(x)), patterns=[z3.Select(st, x)]))
            s.SS = z3.Store(s.SS, self.oid(v), st)
            return [(s, v)]
        raise Unsupported("set()")
    def b_dict(self, s, args, kw):
        if not args: return [(s, self.alloc_dict(s, [(PyObj(k), v) for k, v in kw.items()]))]
        if self.kindof(s, args[0]) is dict and not kw:
            v = self.alloc(s, dict); o = self.oid(v); a = self.oid(self.toV(s, args[0]))
            s.D = z3.Store(s.D, o, z3.Select(s.D, a)); s.DK = z3.Store(s.DK, o, z3.Select(s.DK, a))
            return [(s, v)]
        raise Unsupported("dict()")
    def b_range(self, s, args, kw):
        cs = [self.conc(a) for a in args]
        if all(c for c, _ in cs): return [(s, PyObj(range(*[o for _, o in cs])))]
        if len(args) == 1:
            n = V.iv(self.toV(s, args[0]))
            return [(s, SeqIter(z3.If(n > 0, n, 0), lambda s, i: V.int(i)))]
        if len(args) == 2:
            a, b = (self.as_int(s, x) for x in args)
            return [(s, SeqIter(z3.If(b > a, b - a, 0), lambda s, i: V.int(a + i)))]
        a, b = self.as_int(s, args[0]), self.as_int(s, args[1])
        if cs[2][0] and cs[2][1] == -1:
            return [(s, SeqIter(z3.If(a > b, a - b, 0), lambda s, i: V.int(a - i)))]
        raise Unsupported("range step")
    def b_enumerate(self, s, args, kw):
        if isinstance(args[0], GenVal): raise Unsupported("enumerate generator")
        si = self.as_iter(s, args[0])
        start = 0
        if len(args) > 1: start = self.conc(args[1])[1]
        if isinstance(si, list): return [(s, Tup([Tup([PyObj(i + start), x]) for i, x in enumerate(si)]))]
        r = SeqIter(si.n, lambda s, i: Tup([V.int(i + start), si.elt(s, i)]), live=si.live)
        r.inner = si
        if hasattr(si, "seq"): r.seq_inner = si.seq
        return [(s, r)]
    def b_reversed(self, s, args, kw):
        si = self.as_iter(s, args[0])
        if isinstance(si, list): return [(s, Tup(list(reversed(si))))]
        return [(s, SeqIter(si.n, lambda s, i: si.elt(s, si.n - 1 - i)))]
    def b_zip(self, s, args, kw):
        sis = [self.as_iter(s, a) for a in args]
        if all(isinstance(x, list) for x in sis): return [(s, Tup([Tup(list(t)) for t in zip(*sis)]))]
        sis = [x if not isinstance(x, list) else SeqIter(z3.IntVal(len(x)), (lambda x: lambda s, i: _pick(self, s, x, i))(x)) for x in sis]
        n = sis[0].n
        for x in sis[1:]: n = z3.If(x.n < n, x.n, n)
        return [(s, SeqIter(z3.simplify(n), lambda s, i: Tup([x.elt(s, i) for x in sis])))]
    def b_any(self, s, args, kw): return self._anyall(s, args, "any")
    def b_all(self, s, args, kw): return self._anyall(s, args, "all")
    def _anyall(self, s, args, which):
        if isinstance(args[0], GenVal):
            r = self.quantify_gen(s, args[0], which)
            if r is not None: return r
            raise Unsupported("any/all generator")
        si = self.as_iter(s, args[0])
        if isinstance(si, list):
            f = [self.truth(s, x) for x in si]
            return [(s, V.bool(z3.simplify((z3.Or if which == "any" else z3.And)(f) if f else z3.BoolVal(which == "all"))))]
        raise Unsupported("any/all")
    def b_max(self, s, args, kw):
        if len(args) == 2:
            a, b = self.as_int(s, args[0]), self.as_int(s, args[1])
            return [(s, V.int(z3.simplify(z3.If(a >= b, a, b))))]
        h = self.reg.max_hook(self, s, args, kw) if self.reg else None
        if h is not None: return h
        raise Unsupported("max")
    def b_int(self, s, args, kw):
        v = args[0]
        if len(args) == 1 and self.kindof(s, v) in (int, bool): return [(s, V.int(self.as_int(s, v)))]
        h = self.reg.external(self, s, PyObj(int), args, kw)
        raise Unsupported("int()")
    def b_type(self, s, args, kw):
        return [(s, TypeOf(args[0]))]
    def b_sorted(self, s, args, kw):
        h = self.reg.h.get("sorted") if self.reg else None
        if h is None: raise Unsupported("sorted")
        out = []
        for s2, l in (self.consume_gen(s, args[0]) if isinstance(args[0], GenVal) else self.list_from(s, args[0])):
            if isinstance(l, Exc): out.append((s2, l))
            else: out += h(self, s2, l, kw)
        return out
    def b_iter_child_nodes(self, s, args, kw): raise Unsupported("iter_child_nodes")
    def b_dir(self, s, args, kw):
        self.assumptions.add("A-DIR: dir(x) returns a new list and has no side effect")
        return [(s, self.alloc_list(s, fresh("dir", SeqV)))]

    def builtin_method(self, s, m, args, kw):
        if m.kind == "ext":
            h = self.reg.ext_method(self, s, m.recv, m.name, args, kw) if self.reg else None
            if h is not None: return h
            K, nm = m.name
            if nm == "__init__" and (K is object or issubclass(K, ast.NodeVisitor)): return [(s, PyObj(None))]
            if nm == "__setattr__" and K is object:
                c, a = self.conc(args[0])
                self.setH(s, m.recv, a if c else V.sv(self.toV(s, args[0])), args[1]); return [(s, PyObj(None))]
            if nm == "with_traceback": return [(s, m.recv)]
            raise Unsupported(f"external method {K.__name__}.{nm}")
        if m.kind == "py":
            if all(self.conc(a)[0] for a in args): return [(s, PyObj(getattr(m.recv.o, m.name)(*[self.conc(a)[1] for a in args])))]
            raise Unsupported("method on constant")
        if m.kind == "dict" and m.name in ("keys", "values", "items") and self.reg and self.reg.h.get("views"):
            h = self.reg.h["views"](self, s, m.recv, m.name, args, kw)
            if h is not None: return h
        f = getattr(self, f"m_{m.kind}_{m.name}", None)
        if f is None:
            h = self.reg.method_hook(self, s, m.recv, m.name, args, kw) if self.reg else None
            if h is not None: return h
            raise Unsupported(f"method {m.kind}.{m.name}")
        return f(s, m.recv, args, kw)

    # list methods
    def m_list_append(self, s, r, a, kw):
        o = self.oid(r); s.L = z3.Store(s.L, o, z3.simplify(z3.Concat(z3.Select(s.L, o), unit(self.toV(s, a[0]))))); return [(s, PyObj(None))]
    def m_list_extend(self, s, r, a, kw):
        o = self.oid(r)
        out = []
        for s2, l in self.list_from(s, a[0]):
            if isinstance(l, Exc): out.append((s2, l)); continue
            s2.L = z3.Store(s2.L, o, z3.simplify(z3.Concat(z3.Select(s2.L, o), self.seq_of(s2, l)))); out.append((s2, PyObj(None)))
        return out
    def m_list_insert(self, s, r, a, kw):
        o = self.oid(r); sq = z3.Select(s.L, o)
        c, i = self.conc(a[0])
        if c and i == 0: s.L = z3.Store(s.L, o, z3.simplify(z3.Concat(unit(self.toV(s, a[1])), sq))); return [(s, PyObj(None))]
        n = z3.Length(sq); i = V.iv(self.toV(s, a[0]))
        i = z3.If(i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i))
        s.L = z3.Store(s.L, o, z3.Concat(z3.Extract(sq, 0, i), unit(self.toV(s, a[1])), z3.Extract(sq, i, n - i)))
        return [(s, PyObj(None))]
    def m_list_pop(self, s, r, a, kw):
        o = self.oid(r); sq = z3.simplify(z3.Select(s.L, o)); n = z3.Length(sq)
        out = []
        if not a: i = n - 1
        else:
            i = V.iv(self.toV(s, a[0])); i = z3.If(i >= 0, i, i + n)
        for s2, ok in self.branch(s, z3.And(i >= 0, i < n)):
            if not ok: out.append((s2, self.raise_(s2, IndexError))); continue
            v = z3.simplify(sq[i])
            nw = z3.Extract(sq, 0, n - 1) if not a else z3.Concat(z3.Extract(sq, 0, i), z3.Extract(sq, i + 1, n - i - 1))
            s2.L = z3.Store(s2.L, o, z3.simplify(nw)); out.append((s2, self.fromV(v)))
        return out
    def m_list_remove(self, s, r, a, kw):
        o = self.oid(r); sq = z3.simplify(z3.Select(s.L, o)); x = self.toV(s, a[0])
        out = []
        for s2, ok in self.branch(s, z3.Contains(sq, unit(x))):
            if not ok: out.append((s2, self.raise_(s2, ValueError))); continue
            s2.L = z3.Store(s2.L, o, self.seq_remove(s2, sq, x)); out.append((s2, PyObj(None)))
        return out
    def m_list_copy(self, s, r, a, kw): return self.list_from(s, r)
    def m_list_clear(self, s, r, a, kw):
        s.L = z3.Store(s.L, self.oid(r), EMPTY); return [(s, PyObj(None))]
    # dict methods
    def m_dict_keys(self, s, r, a, kw): return [(s, self._dict_iter(s, r, "k"))]
    def m_dict_values(self, s, r, a, kw): return [(s, self._dict_iter(s, r, "v"))]
    def m_dict_items(self, s, r, a, kw): return [(s, self._dict_iter(s, r, "kv"))]
    def _dict_iter(self, s, r, what):
        o = self.oid(r); ks = z3.simplify(z3.Select(s.DK, o)); d = z3.Select(s.D, o)
        cs = self.concrete_seq(ks)
        def el(s, k):
            v = self.fromV(z3.simplify(z3.Select(d, k)))
            return {"k": self.fromV(k), "v": v, "kv": Tup([self.fromV(k), v])}[what]
        if cs is not None: return Tup([el(s, k) for k in cs])
        it = SeqIter(z3.Length(ks), lambda s, i: el(s, z3.simplify(ks[i])))
        it.dict = (d, ks); it.what = what
        return it
    def m_dict_get(self, s, r, a, kw):
        o = self.oid(r); v = z3.simplify(z3.Select(z3.Select(s.D, o), self.toV(s, a[0])))
        return [(s2, (a[1] if len(a) > 1 else PyObj(None)) if b else self.fromV(v)) for s2, b in self.branch(s, v == ABSENT)]
    def m_dict_pop(self, s, r, a, kw):
        o = self.oid(r); k = self.toV(s, a[0]); d = z3.Select(s.D, o); v = z3.simplify(z3.Select(d, k))
        out = []
        for s2, b in self.branch(s, v == ABSENT):
            if b:
                out.append((s2, a[1]) if len(a) > 1 else (s2, Exc(self.mk_exc(s2, KeyError, [a[0]]), KeyError)))
            else:
                s2.D = z3.Store(s2.D, o, z3.Store(d, k, ABSENT))
                s2.DK = z3.Store(s2.DK, o, self.seq_remove(s2, z3.Select(s2.DK, o), k))
                out.append((s2, self.fromV(v)))
        return out
    def m_dict_update(self, s, r, a, kw):
        o = self.oid(r)
        kw = dict(kw)
        stars = kw.pop("**", [])
        srcs = list(a) + stars
        for src in srcs:
            ks = self.concrete_seq(self.seq_of(s, src)) if self.kindof(s, src) is dict else None
            if ks is not None:
                so = self.oid(self.toV(s, src))
                for k in ks: self.setitem(s, r, k, z3.Select(z3.Select(s.D, so), k))
            elif self.kindof(s, src) is dict:
                so = self.oid(self.toV(s, src))
                d, d2 = z3.Select(s.D, o), z3.Select(s.D, so)
                s.D = z3.Store(s.D, o, dict_merge(d, d2)); 
                s.DK = z3.Store(s.DK, o, keys_merge(z3.Select(s.DK, o), d, z3.Select(s.DK, so)))
                self.merge_axiom(s)
            else: raise Unsupported("dict.update of non-dict")
        for k, v in kw.items(): self.setitem(s, r, PyObj(k), v)
        return [(s, PyObj(None))]
    def merge_axiom(self, s):
        if s.meta.get("merge_ax"): return
        s.meta["merge_ax"] = True
        a, b, k = z3.Const("a!m", DictVal), z3.Const("b!m", DictVal), z3.Const("k!m", V)
        s.assume(z3.ForAll([a, b, k], z3.Select(dict_merge(a, b), k) == z3.If(z3.Select(b, k) == ABSENT, z3.Select(a, k), z3.Select(b, k)), patterns=[z3.Select(dict_merge(a, b), k)]))
    def m_dict_setdefault(self, s, r, a, kw):
        o = self.oid(r); k = self.toV(s, a[0]); v = z3.simplify(z3.Select(z3.Select(s.D, o), k))
        out = []
        for s2, b in self.branch(s, v == ABSENT):
            if b:
                dv = a[1] if len(a) > 1 else PyObj(None)
                self.setitem(s2, r, k, dv); out.append((s2, dv))
            else: out.append((s2, self.fromV(v)))
        return out
    def m_dict_clear(self, s, r, a, kw):
        o = self.oid(r); s.D = z3.Store(s.D, o, z3.K(V, ABSENT)); s.DK = z3.Store(s.DK, o, EMPTY); return [(s, PyObj(None))]
    def m_dict_copy(self, s, r, a, kw): return self.b_dict(s, [r], {})
    def m_dict___contains__(self, s, r, a, kw): return [(s, V.bool(z3.simplify(self.contains(s, a[0], r))))]
    def m_dict___getitem__(self, s, r, a, kw): return self.getitem(s, r, a[0])
    def m_dict___setitem__(self, s, r, a, kw): return [(s2, x if isinstance(x, Exc) else PyObj(None)) for s2, x in self.setitem(s, r, a[0], a[1])]
    def m_dict___delitem__(self, s, r, a, kw): return self.delitem(s, r, a[0])
    def m_dict___len__(self, s, r, a, kw): return self.b_len(s, [r], {})
    # set methods
    def m_set_add(self, s, r, a, kw):
        o = self.oid(r); s.SS = z3.Store(s.SS, o, z3.Store(z3.Select(s.SS, o), self.toV(s, a[0]), z3.BoolVal(True))); return [(s, PyObj(None))]
    def m_set_discard(self, s, r, a, kw):
        o = self.oid(r); s.SS = z3.Store(s.SS, o, z3.Store(z3.Select(s.SS, o), self.toV(s, a[0]), z3.BoolVal(False))); return [(s, PyObj(None))]
    # str methods
    def _sv(self, s, x): return V.sv(self.toV(s, x))
    def m_str_startswith(self, s, r, a, kw): return self._sw(s, r, a, z3.PrefixOf)
    def m_str_endswith(self, s, r, a, kw): return self._sw(s, r, a, z3.SuffixOf)
    def _sw(self, s, r, a, f):
        x = a[0]
        c1, o1 = self.conc(r); c2, o2 = self.conc(x)
        if c1 and c2: return [(s, PyObj(o1.startswith(o2) if f is z3.PrefixOf else o1.endswith(o2)))]
        if isinstance(x, (Tup,)) or (isinstance(x, PyObj) and isinstance(x.o, tuple)):
            els = x.els if isinstance(x, Tup) else [PyObj(y) for y in x.o]
            return [(s, V.bool(z3.Or([f(self._sv(s, y), self._sv(s, r)) for y in els])))]
        return [(s, V.bool(z3.simplify(f(self._sv(s, x), self._sv(s, r)))))]
    def m_str_find(self, s, r, a, kw): return [(s, V.int(z3.IndexOf(self._sv(s, r), self._sv(s, a[0]), 0)))]
    def m_str_rfind(self, s, r, a, kw): return [(s, V.int(z3.LastIndexOf(self._sv(s, r), self._sv(s, a[0]))))]
    def m_str_count(self, s, r, a, kw):
        c = [self.conc(x) for x in [r] + a]
        if all(x for x, _ in c): return [(s, PyObj(c[0][1].count(*[o for _, o in c[1:]])))]
        t = self._sv(s, r)
        if len(a) > 1:
            lo = V.iv(self.toV(s, a[1])); hi = V.iv(self.toV(s, a[2])) if len(a) > 2 else z3.Length(t)
            if not self.entails(s, z3.And(lo >= 0, lo <= hi, hi <= z3.Length(t))): raise Unsupported("count with odd bounds")
            t = z3.SubString(t, lo, hi - lo)
        return [(s, V.int(str_count(t, self._sv(s, a[0]))))]
    def m_str_replace(self, s, r, a, kw):
        c = [self.conc(x) for x in [r] + a]
        if all(x for x, _ in c): return [(s, PyObj(c[0][1].replace(*[y for _, y in c[1:]])))]
        return [(s, V.str(str_replace_all(self._sv(s, r), self._sv(s, a[0]), self._sv(s, a[1]))))]
    def m_str_join(self, s, r, a, kw):
        if isinstance(a[0], GenVal):
            out = []
            for s2, l in self.consume_gen(s, a[0]):
                out.append((s2, l)) if isinstance(l, Exc) else out.extend(self.m_str_join(s2, r, [l], kw))
            return out
        si = self.as_iter(s, a[0])
        sep = self._sv(s, r)
        if isinstance(si, list):
            parts = []
            for i, x in enumerate(si):
                if i: parts.append(sep)
                parts.append(self._sv(s, x))
            if not parts: return [(s, PyObj(""))]
            return [(s, V.str(parts[0] if len(parts) == 1 else z3.Concat(*parts)))]
        return [(s, V.str(str_join(sep, si.seq if hasattr(si, "seq") else fresh("sq", SeqV))))]
    def m_str_split(self, s, r, a, kw):
        c = [self.conc(x) for x in [r] + a]
        if all(x for x, _ in c) and not kw: return [(s, self.alloc_list(s, seq(*[S(x) for x in c[0][1].split(*[y for _, y in c[1:]])])))]
        if len(a) > 1 or kw: return self.split1(s, r, a, kw, False)
        sep = self._sv(s, a[0]) if a else z3.StringVal(" ")
        v = self.alloc_list(s, str_split(self._sv(s, r), sep)); k = z3.simplify(v)
        s.meta[("elem", k.get_id())] = "string"; s.meta[("keep2", k.get_id())] = k
        return [(s, v)]
    def m_str_rsplit(self, s, r, a, kw): return self.split1(s, r, a, kw, True)
    def split1(self, s, r, a, kw, last):
        """str.split / str.rsplit with maxsplit=1 and a constant non-empty separator."""
        kw = dict(kw); a = list(a)
        if not a: a = [kw.pop("sep", PyObj(None))]
        m = a[1] if len(a) > 1 else kw.pop("maxsplit", PyObj(-1))
        cs, sep = self.conc(a[0]); cm, mx = self.conc(m)
        if kw or not (cs and cm) or not isinstance(sep, str) or not sep or mx != 1: raise Unsupported("split with these arguments")
        x = self._sv(s, r); i = self.at_sep(x, sep, last); n = len(sep); out = []
        for s2, b in self.branch(s, i >= 0):
            out.append((s2, self.alloc_list(s2, seq(V.str(z3.SubString(x, 0, i)), V.str(z3.SubString(x, i + n, z3.Length(x) - i - n))) if b else unit(V.str(x)))))
        return out
    def at_sep(self, x, sep, last): return z3.LastIndexOf(x, z3.StringVal(sep)) if last else z3.IndexOf(x, z3.StringVal(sep), 0)
    def part1(self, s, r, a, last):
        cs, sep = self.conc(a[0])
        if not cs or not isinstance(sep, str) or not sep: raise Unsupported("partition with this separator")
        x = self._sv(s, r); i = self.at_sep(x, sep, last); n = len(sep); out = []
        for s2, b in self.branch(s, i >= 0):
            if b: els = [V.str(z3.SubString(x, 0, i)), V.str(z3.StringVal(sep)), V.str(z3.SubString(x, i + n, z3.Length(x) - i - n))]
            else: els = [PyObj(""), PyObj(""), V.str(x)] if last else [V.str(x), PyObj(""), PyObj("")]
            out.append((s2, Tup(els)))
        return out
    def m_str_partition(self, s, r, a, kw): return self.part1(s, r, a, False)
    def m_str_rpartition(self, s, r, a, kw): return self.part1(s, r, a, True)
    def m_str_format(self, s, r, a, kw): return [(s, V.str(fresh("fmt", Str)))]
    def m_str_isidentifier(self, s, r, a, kw):
        k, o = self.conc(r)
        if k: return [(s, PyObj(o.isidentifier()))]
        return [(s, V.bool(is_identifier(self._sv(s, r))))]
    def m_str_strip(self, s, r, a, kw): return [(s, V.str(str_strip(self._sv(s, r))))]
    def m_str_lower(self, s, r, a, kw): return [(s, V.str(fresh("low", Str)))]


# ---- uninterpreted helpers
struct_eq = z3.Function("struct_eq", V, V, Bool)
attrs_of = z3.Function("attrs_of", Int, SeqV)
cls_name = z3.Function("cls_name", Int, Str)
obj_id = z3.Function("obj_id", V, Int)
dict_merge = z3.Function("dict_merge", DictVal, DictVal, DictVal)
keys_merge = z3.Function("keys_merge", SeqV, DictVal, SeqV, SeqV)
str_replace_all = z3.Function("str_replace_all", Str, Str, Str, Str)
str_join = z3.Function("str_join", Str, SeqV, Str)
str_split = z3.Function("str_split", Str, Str, SeqV)
str_strip = z3.Function("str_strip", Str, Str); str_count = z3.Function("str_count", Str, Str, Int)
is_identifier = z3.Function("is_identifier", Str, Bool)
isinst_dyn = z3.Function("isinst_dyn", V, V, Bool)

_cand_cache = {}
_intern = {}
def _interned(o):
    k = (type(o), repr(o))
    return _intern.setdefault(k, o)
def _key(o): return f"{getattr(o, '__module__', '')}.{getattr(o, '__qualname__', getattr(o, '__name__', ''))}"
_EXT = {}
def ext(name):
    def d(f): _EXT[name] = f; return f
    return d

def has_yield_own(node):
    def w(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)): continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)): return True
            if w(c): return True
        return False
    return w(node)

def _walk_src(fn):
    """Pre-order walk in source order."""
    yield fn
    for c in ast.iter_child_nodes(fn): yield from _walk_src(c)

def assigned_names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

def same_val(a, b):
    if a is b: return True
    if is_v(a) and is_v(b): return a.get_id() == b.get_id() or z3.simplify(a).get_id() == z3.simplify(b).get_id()
    if isinstance(a, PyObj) and isinstance(b, PyObj): return a.o is b.o or (isinstance(a.o, (int, str)) and a.o == b.o and type(a.o) is type(b.o))
    if isinstance(a, Tup) and isinstance(b, Tup): return len(a.els) == len(b.els) and all(same_val(x, y) for x, y in zip(a.els, b.els))
    return False

def write_set(t, base):
    """Index terms stored to, from array term t down to base; None if base is not reached by stores."""
    ws, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() == base.get_id() or x.get_id() in seen: continue
        seen.add(x.get_id())
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_STORE:
            ws.append(z3.simplify(x.arg(1))); todo.append(x.arg(0))
        elif k == z3.Z3_OP_ITE:
            todo += [x.arg(1), x.arg(2)]
        else: return None
    return ws

def write_attrs(t, base, young):
    """Attribute names stored to objects not provably young, from heap t down to base; None if unknown."""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() == base.get_id() or x.get_id() in seen: continue
        seen.add(x.get_id())
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_STORE:
            nm = z3.simplify(x.arg(2))
            if not young(z3.simplify(x.arg(1))):
                if not z3.is_string_value(nm): return None
                out.add(nm.as_string())
            todo.append(x.arg(0))
        elif k == z3.Z3_OP_ITE: todo += [x.arg(1), x.arg(2)]
        else: return None
    return out

_PRIVATE = {}
def stays_private(fn, name):
    """The **-dict of this function is only read through lookups and copies: no other code can get hold of it."""
    r = _PRIVATE.get((fn, name))
    if r is None:
        ok = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Call):
                ok |= {id(k.value) for k in n.keywords if k.arg is None}
                if isinstance(n.func, ast.Name) and n.func.id in ("dict", "len"): ok |= {id(x) for x in n.args}
            elif isinstance(n, ast.Subscript): ok.add(id(n.value))
            elif isinstance(n, ast.Compare): ok |= {id(x) for x in n.comparators}
            elif isinstance(n, ast.Attribute) and n.attr == "get": ok.add(id(n.value))
            elif isinstance(n, ast.Assign): ok |= {id(t) for t in n.targets}
        r = _PRIVATE[fn, name] = all(id(n) in ok for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == name)
    return r
def loop_invariant(w, base, s0):
    """w mentions only constants that existed before the loop (its value cannot change in the loop)."""
    lim = s0.meta.get("$freshmark", 0)
    for c in consts_of(w):
        nm = c.decl().name()
        if "!" in nm and nm.rsplit("!", 1)[1].isdigit() and int(nm.rsplit("!", 1)[1]) > lim: return False
    return True
def consts_of(e):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        st.extend(x.children())
    return out
def _pick(eng, s, xs, i):
    r = eng.toV(s, xs[-1])
    for k in range(len(xs) - 2, -1, -1): r = z3.If(i == k, eng.toV(s, xs[k]), r)
    return r


class LoopCtx:
    """What a loop invariant sees."""
    def __init__(self, eng, s, fr, i, si, pre):
        self.eng, self.s, self.fr, self.i, self.si, self.pre = eng, s, fr, i, si, pre
    def var(self, name, state=None):
        s = state or self.s
        f = self.fr["fid"]
        while f is not None:
            d = s.frames[f]
            if name in d: return self.eng.toV(s, d[name]) if not isinstance(d[name], (Fn, Cls)) else d[name]
            f = d.get("$parent")
        raise SpecMismatch(f"variable {name} not found")
    def has(self, name):
        try: self.var(name); return True
        except SpecMismatch: return False
    @property
    def seq(self):
        if hasattr(self.si, "seq"): return self.si.seq
        if hasattr(self.si, "seq_inner"): return self.si.seq_inner
        raise SpecMismatch("loop does not run over a list")
    @property
    def done(self): return z3.Extract(self.seq, 0, self.i)
    def lst(self, v, state=None): return z3.Select((state or self.s).L, V.ov(v))
    def attr(self, v, name, state=None): return z3.Select((state or self.s).H, V.ov(v), z3.StringVal(name))
    def dct(self, v, state=None): return z3.Select((state or self.s).D, V.ov(v))

class SpecMismatch(Exception):
    """The contract refers to something the current source no longer has."""
