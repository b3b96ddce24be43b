"""Z3 universe: one datatype V for all Python values, plus the class lattice."""
import ast
import re
import z3

z3.set_param("smt.random_seed", 0)

V = z3.Datatype("V")
V.declare("absent")
V.declare("none")
V.declare("bool", ("bv", z3.BoolSort()))
V.declare("int", ("iv", z3.IntSort()))
V.declare("str", ("sv", z3.StringSort()))
V.declare("obj", ("ov", z3.IntSort()))          # heap / static objects by identity
V.declare("tup", ("tv", z3.SeqSort(z3.DatatypeSort("V"))))
V.declare("atom", ("av", z3.IntSort()))         # float/complex/bytes/Ellipsis... opaque immutable atoms
V = V.create()
SeqV = z3.SeqSort(V)
Int, Str, Bool = z3.IntSort(), z3.StringSort(), z3.BoolSort()
HeapSort = z3.ArraySort(Int, Str, V)
ListSort = z3.ArraySort(Int, SeqV)
DictVal = z3.ArraySort(V, V)
DictSort = z3.ArraySort(Int, DictVal)
SetVal = z3.ArraySort(V, Bool)
SetSort = z3.ArraySort(Int, SetVal)

NONE, ABSENT = V.none, V.absent
TRUE, FALSE = V.bool(True), V.bool(False)

cls_of = z3.Function("cls_of", Int, Int)
isa = z3.Function("isa", Int, Int, Bool)           # isa(class, class)
truthy_obj = z3.Function("truthy_obj", Int, Bool)
strmul = z3.Function("strmul", Str, Int, Str)      # s * n
repeated = z3.Function("repeated", V, Int, SeqV)   # [x] * n
def repeated_at(x, n, i): return z3.Implies(z3.And(i >= 0, i < n), repeated(x, n)[i] == x)
to_str = z3.Function("to_str", V, Str)
to_repr = z3.Function("to_repr", V, Str)
fields_of = z3.Function("fields_of", Int, SeqV)
atom_kind = z3.Function("atom_kind", Int, Int)
iter_seq = z3.Function("iter_seq", V, SeqV)        # the elements an opaque iterable yields
callable_p = z3.Function("callable_p", V, Bool)

def unit(v): return z3.Unit(v)
EMPTY = z3.Empty(SeqV)

def S(x): return V.str(z3.StringVal(x))
def I(n): return V.int(n) if not isinstance(n, int) else V.int(z3.IntVal(n))
def B(b): return V.bool(b) if z3.is_expr(b) else (TRUE if b else FALSE)

def seq(*vs):
    if not vs: return EMPTY
    if len(vs) == 1: return unit(vs[0])
    return z3.Concat(*[unit(v) for v in vs])

_fresh = [0]
def fresh(name, sort=None):
    _fresh[0] += 1
    return z3.Const(f"{name}!{_fresh[0]}", V if sort is None else sort)

# ---- static objects (classes, functions, modules, module-level containers) ----
_static = {}          # id(pyobj) -> (neg id, pyobj)
_static_by_id = {}
def static_id(o):
    k = id(o)
    if k not in _static:
        n = -(len(_static) + 1)
        _static[k] = (n, o)
        _static_by_id[n] = o
    return _static[k][0]
def static_obj(n): return _static_by_id.get(n)
def cid(c): return z3.IntVal(static_id(c))

# primitive-like immutable leaf types that are not `obj`
def type_formula(v, C):
    """isinstance(v, C) for a z3 term v of sort V and a real Python class C."""
    if C is object: return z3.BoolVal(True)
    if C is str: return V.is_str(v)
    if C is bool: return V.is_bool(v)
    if C is int: return z3.Or(V.is_int(v), V.is_bool(v))
    if C is type(None): return V.is_none(v)
    if C is tuple: return V.is_tup(v)
    if C in (float, complex, bytes, type(Ellipsis)):
        return z3.And(V.is_atom(v), atom_kind(V.av(v)) == cid(C))
    return z3.And(V.is_obj(v), isa(cls_of(V.ov(v)), cid(C)))

def exact_type_formula(v, C):
    if C is str: return V.is_str(v)
    if C is bool: return V.is_bool(v)
    if C is int: return V.is_int(v)
    if C is type(None): return V.is_none(v)
    if C is tuple: return V.is_tup(v)
    if C in (float, complex, bytes, type(Ellipsis)):
        return z3.And(V.is_atom(v), atom_kind(V.av(v)) == cid(C))
    return z3.And(V.is_obj(v), cls_of(V.ov(v)) == cid(C))

# ---- class lattice axioms, instantiated on the terms of a query ----
_scan_cache = {}
def scan(exprs):
    """Collect isa(t,c) applications and cls constants mentioned in the given formulas."""
    seen, isas, ids = set(), {}, set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body()); continue
        if z3.is_app(e):
            d = e.decl()
            if d.name() == "isa" and e.num_args() == 2:
                t, c = e.arg(0), e.arg(1)
                if z3.is_int_value(c):
                    isas.setdefault(t.get_id(), (t, set()))[1].add(c.as_long())
            if z3.is_int_value(e) and e.as_long() < 0:
                ids.add(e.as_long())
            stack.extend(e.children())
    return isas, ids

def _conflict(a, b):
    """No class can (by assumption A-CLS) be a subclass of both."""
    if issubclass(a, b) or issubclass(b, a): return False
    base = lambda c: ("ast" if issubclass(c, ast.AST) else "exc" if issubclass(c, BaseException)
                      else next((k.__name__ for k in (list, dict, set, str, int, tuple) if issubclass(c, k)), None))
    ba, bb = base(a), base(b)
    if ba is not None and bb is not None and ba != bb: return True
    if ba == bb == "ast":
        return True      # sibling AST classes: single inheritance assumed
    return False

def scan1(f):
    """scan([f]), cached (the cache keeps f alive, so ids stay unique)."""
    r = _scan_cache.get(f.get_id())
    if r is None:
        isas, ids = scan([f])
        r = _scan_cache[f.get_id()] = (f, {k: (t, cs, _has_bound_var(t)) for k, (t, cs) in isas.items()}, ids)
    return r

def fast_add(solver, fs):
    """solver.add(*fs) for formulas, without the per-call sort coercion."""
    ctx, sv = solver.ctx.ref(), solver.solver
    for f in fs: z3.Z3_solver_assert(ctx, sv, f.ast)

_ax_cache = {}
def clear_caches():
    for d in (_scan_cache, _ax_cache, _sel_cache, FRAMES): d.clear()

# ---- frame axioms (quantified), with a ground instantiation for the terms of a query ----
FRAMES = {}           # quantifier id -> (quantifier, array sort id, instance maker)
_sel_cache = {}
def selects(f):
    """{array sort id: {index ids: index terms}} of the heap reads in f (not under quantifiers), cached."""
    r = _sel_cache.get(f.get_id())
    if r is None:
        out, seen, todo = {}, set(), [f]
        while todo:
            x = todo.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if not z3.is_app(x): continue
            ch = x.children()
            if x.decl().kind() == z3.Z3_OP_SELECT:
                so = ch[0].sort()
                if so in _HEAPS: out.setdefault(so.get_id(), {})[tuple(c.get_id() for c in ch[1:])] = ch[1:]
            todo.extend(ch)
        r = _sel_cache[f.get_id()] = (f, out)
    return r[1]
_HEAPS = (HeapSort, ListSort, DictSort, SetSort)
def ground(fs, extra=()):
    """(quantifier-free part of fs with the frame axioms instantiated, are all quantifiers of fs frame axioms?, were there any?)"""
    qs = [f for f in fs if z3.is_quantifier(f)]
    if not qs: return fs, True, False
    g = [f for f in fs if not z3.is_quantifier(f)]
    idx = {}
    for f in g + list(extra):
        for so, d in selects(f).items(): idx.setdefault(so, {}).update(d)
    inst, full = [], True
    for q in qs:
        fr = FRAMES.get(q.get_id())
        if fr is None: full = False; continue
        for k, ix in idx.get(fr[1], {}).items(): inst.append(_ax(("fr", q.get_id(), k), (q, ix), lambda: fr[2](*ix)))
    return g + inst, full, True
def _ax(key, t, make):
    r = _ax_cache.get(key)
    if r is None: r = _ax_cache[key] = (t, make())
    return r[1]

def lattice_axioms(exprs):
    isas, ids = {}, set()
    for f in exprs:
        _, i1, d1 = scan1(f)
        for k, (t, cs, bv) in i1.items():
            if k in isas: isas[k][1].update(cs)
            else: isas[k] = (t, set(cs), bv)
        ids |= d1
    classes = [i for i in sorted(ids, reverse=True) if isinstance(static_obj(i), type)]
    out = []
    for tid, (t, cs, bv) in isas.items():
        if bv: continue
        known = [c for c in sorted(cs) if isinstance(static_obj(c), type)]
        if z3.is_int_value(t):
            tc = static_obj(t.as_long())
            if isinstance(tc, type):
                for c in known:
                    out.append(_ax((tid, c), t, lambda: isa(t, c) if issubclass(tc, static_obj(c)) else z3.Not(isa(t, c))))
            continue
        for i, a in enumerate(known):
            for b in known[i + 1:]:
                def pair():
                    A, Bc = static_obj(a), static_obj(b)
                    if issubclass(A, Bc): return z3.Implies(isa(t, a), isa(t, b))
                    if issubclass(Bc, A): return z3.Implies(isa(t, b), isa(t, a))
                    if _conflict(A, Bc): return z3.Not(z3.And(isa(t, a), isa(t, b)))
                    return z3.BoolVal(True)
                f = _ax((tid, a, b, "p"), t, pair)
                if not z3.is_true(f): out.append(f)
        for k in classes:
            for c in known:
                out.append(_ax((tid, k, c, "k"), t, lambda: z3.Implies(t == k, isa(t, c) if issubclass(static_obj(k), static_obj(c)) else z3.Not(isa(t, c)))))
    return out

def _has_bound_var(e):
    if z3.is_var(e): return True
    return any(_has_bound_var(c) for c in e.children())

# ---- quantified isa (for bound variables): full axioms on demand ----

# ---- ASDL field kinds, from the docstrings of the running Python's node classes ----
_asdl = {}
def asdl_fields(cls):
    """{field: (kind, quant)} with quant in '', '?', '*' ; from cls.__doc__."""
    if cls in _asdl: return _asdl[cls]
    out = {}
    doc = cls.__doc__ or ""
    m = re.match(r"\s*%s\((.*)\)\s*$" % re.escape(cls.__name__), doc.split("|")[0].strip(), re.S)
    if m:
        for part in m.group(1).split(","):
            part = part.strip()
            if not part: continue
            ty, nm = part.split()
            q = ty[-1] if ty[-1] in "?*" else ""
            out[nm] = (ty.rstrip("?*"), q)
    _asdl[cls] = out
    return out

def rd(arr, *idx):
    """Select through the chain of stores, deciding the index comparisons that simplify to constants."""
    arr = z3.simplify(arr)
    while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
        ch = arr.children(); js = ch[1:-1]
        d = [z3.simplify(a == b) if a.sort() != z3.IntSort() else z3.simplify(a - b == 0) for a, b in zip(idx, js)]
        if all(z3.is_true(x) for x in d): return ch[-1]
        if any(z3.is_false(x) for x in d): arr = ch[0]; continue
        break
    return z3.simplify(z3.Select(arr, *idx))
