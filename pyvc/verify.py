"""Contracts, the registry of trusted externals, and the obligation discharger."""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import types
import z3
from .terms import *
from . import terms as T
from .engine import *
from .engine import _key


class LoopSpec:
    """inv(c) -> [(name, formula)], axioms(c) -> [formula]."""
    def __init__(self, inv, axioms=None):
        self._inv, self._ax = inv, axioms
    def inv(self, c): return self._inv(c)
    def axioms(self, c): return self._ax(c) if self._ax else []

class Fold:
    """A left fold over a sequence, used as a recursively defined spec function.
    F(empty)=init, F(s+[x]) = step(F(s), x).  Instantiated at loop heads only (no quantifiers)."""
    def __init__(self, name, sort, init, step, extra=()):
        self.f = z3.Function(name, SeqV, *[e for e in extra], sort)
        self.init, self.step = init, step
    def __call__(self, sq, *x): return self.f(sq, *x)
    def axioms(self, sq, i, *x):
        n = z3.Length(sq)
        out = [self.f(EMPTY, *x) == (self.init if z3.is_expr(self.init) else self.init(*x))]
        def at(k):
            a = z3.Extract(sq, 0, k); b = z3.Extract(sq, 0, k + 1)
            return z3.Implies(z3.And(k >= 0, k < n), self.f(b, *x) == self.step(self.f(a, *x), sq[k], *x))
        out += [at(i), at(z3.simplify(i - 1)), z3.Extract(sq, 0, n) == sq, z3.Implies(i == 0, z3.Extract(sq, 0, i) == EMPTY)]
        return out


class Ctx:
    """What contract code sees when building pre- and postconditions."""
    def __init__(self, eng, s): self.eng, self.s = eng, s
    def var(self, name, sort=None): return fresh("in_" + name, sort)
    def obj(self, name, cls, exact=False):
        """A symbolic pre-existing object of class cls."""
        v = fresh("in_" + name)
        c = cls
        self.s.assume(V.is_obj(v), V.ov(v) >= 0, V.ov(v) < self.s.alloc)
        C = self.eng.source_cls(c) if isinstance(c, type) else c
        self.s.assume(cls_of(V.ov(v)) == cid(c) if exact else isa(cls_of(V.ov(v)), cid(c)))
        if isinstance(c, type):
            for K in c.__mro__:
                if K is not object: self.s.assume(isa(cls_of(V.ov(v)), cid(K)))
        key = z3.simplify(v).get_id()
        self.s.meta[("cls", key)] = C if C is not None else c
        self.s.meta[("keep", key)] = v
        return v
    def list(self, name, elem=None):
        v = fresh("in_" + name)
        self.s.assume(V.is_obj(v), V.ov(v) >= 0, V.ov(v) < self.s.alloc, cls_of(V.ov(v)) == cid(list), isa(cls_of(V.ov(v)), cid(list)))
        key = z3.simplify(v).get_id()
        self.s.meta[("cls", key)] = list; self.s.meta[("keep", key)] = v
        if elem: self.s.meta[("elem", key)] = elem; self.s.meta[("keep2", key)] = v
        return v
    def dict(self, name):
        v = fresh("in_" + name)
        self.s.assume(V.is_obj(v), V.ov(v) >= 0, V.ov(v) < self.s.alloc, cls_of(V.ov(v)) == cid(dict), isa(cls_of(V.ov(v)), cid(dict)))
        key = z3.simplify(v).get_id()
        self.s.meta[("cls", key)] = dict; self.s.meta[("keep", key)] = v
        return v
    def set(self, name):
        v = fresh("in_" + name)
        self.s.assume(V.is_obj(v), V.ov(v) >= 0, V.ov(v) < self.s.alloc, cls_of(V.ov(v)) == cid(set), isa(cls_of(V.ov(v)), cid(set)))
        key = z3.simplify(v).get_id()
        self.s.meta[("cls", key)] = set; self.s.meta[("keep", key)] = v
        return v
    def str(self, name):
        v = V.str(fresh("in_" + name, Str)); return v
    def int(self, name): return V.int(fresh("in_" + name, Int))
    def bool(self, name): return V.bool(fresh("in_" + name, Bool))
    def setattr(self, o, name, v): self.eng.setH(self.s, o, name, v)
    def attr(self, o, name, s=None): return z3.Select((s or self.s).H, V.ov(o), z3.StringVal(name))
    def lst(self, v, s=None): return z3.Select((s or self.s).L, V.ov(v))
    def dct(self, v, s=None): return z3.Select((s or self.s).D, V.ov(v))
    def sset(self, v, s=None): return z3.Select((s or self.s).SS, V.ov(v))
    def assume(self, *f): self.s.assume(*f)
    def isinstance(self, v, C): return type_formula(v, C)
    def typeis(self, v, C): return exact_type_formula(v, C)

class Path(Ctx):
    """One execution path: initial state s0, final state s, outcome."""
    def __init__(self, eng, s0, s, out, args):
        super().__init__(eng, s)
        self.s0, self.outcome, self.args = s0, out, args
    @property
    def returned(self): return self.outcome[0] in ("return", "next")
    @property
    def raised(self): return self.outcome[0] == "raise"
    @property
    def result(self):
        return self.outcome[1] if self.outcome[0] == "return" else PyObj(None)
    @property
    def resultV(self): return self.eng.toV(self.s, self.result)
    @property
    def exc(self): return self.outcome[1]
    def exc_is(self, C):
        e = self.outcome[1]
        if e.cls is not None: return z3.BoolVal(issubclass(e.cls, C))
        return isa(cls_of(V.ov(e.v)), cid(C))
    def old(self, f):
        """Evaluate f(Ctx) in the initial state."""
        return f(Ctx(self.eng, self.s0))
    def trace(self): return self.s.ghost["trace"]
    def unchanged(self, *comps, upto=True):
        """Frame: every pre-existing object keeps the given heap components."""
        out = []
        for c in comps:
            a, b = getattr(self.s0, c), getattr(self.s, c)
            if a.get_id() == b.get_id(): continue
            r = fresh("r", Int)
            if c == "H":
                f = fresh("a", Str)
                out.append((f"frame.{c}", z3.Implies(r < self.s0.alloc, z3.Select(a, r, f) == z3.Select(b, r, f))))
            else: out.append((f"frame.{c}", z3.Implies(r < self.s0.alloc, z3.Select(a, r) == z3.Select(b, r))))
        return out
    def unchanged_except(self, comp, except_ids, attrs=None):
        a, b = getattr(self.s0, comp), getattr(self.s, comp)
        r = fresh("r", Int)
        cond = [r < self.s0.alloc] + [r != e for e in except_ids or ()]
        if comp == "H":
            f = fresh("a", Str)
            if attrs:
                cond = [r < self.s0.alloc, z3.Not(z3.Or([z3.And(r == e, f == z3.StringVal(n)) for e, n in attrs]))]
            return (f"frame.{comp}", z3.Implies(z3.And(cond), z3.Select(a, r, f) == z3.Select(b, r, f)))
        return (f"frame.{comp}", z3.Implies(z3.And(cond), z3.Select(a, r) == z3.Select(b, r)))


class Contract:
    """Base class. Subclasses: target = 'module:qualname'; pre(c) -> (args, kwargs); post(p) -> [(name, formula)]."""
    target = None
    properties = ()
    loops = ()
    as_callee = False          # may be used at call sites instead of inlining
    trusted = False
    budget = 6000
    rlimit = 30_000_000
    def __init__(self):
        self.mod, self.qual = self.target.split(":")
        self.key = f"{self.mod}:{self.qual}"
        self.name = getattr(self, "label", None) or self.key
    def __setattr__(self, k, v):
        if k in ("mod", "qual", "key", "name") and k in self.__dict__: raise AttributeError(f"{k} is reserved")
        object.__setattr__(self, k, v)
    def pre(self, c): raise NotImplementedError
    def post(self, p): raise NotImplementedError
    def hooks(self): return {}
    def loop_spec(self, key, eng):
        i = key[1]
        return self.loops[i] if i < len(self.loops) else None
    def apply(self, eng, s, f, args, kw): raise NotImplementedError
    def resolve(self, eng):
        node = eng.src.get(self.mod, self.qual)
        if node is None: return None
        import ast as _ast
        if not isinstance(node, _ast.FunctionDef): return None
        cm = any(isinstance(d, _ast.Name) and d.id == "contextmanager" for d in node.decorator_list)
        cls = None
        if "." in self.qual:
            m = eng.src.module(self.mod)
            cls = eng.source_cls(getattr(m, self.qual.split(".")[0]))
        return Fn(node, None, self.mod, self.qual, cls=cls, cm=cm)


class Registry:
    """Trusted externals and hooks. Every entry used is reported as an assumption."""
    def __init__(self):
        self.contracts = {}
        self.ext = {}            # key -> (handler, description)
        self.used = set()
        self.h = {}
    def contract_for(self, fn):
        c = self.contracts.get(f"{fn.mod}:{fn.qual}")
        return c
    def global_override(self, mod, name): return self.h.get("globals", {}).get((mod, name))
    def module_attr(self, m, name): return self.h.get("module_attr", {}).get((m.__name__, name))
    def class_attr(self, m, name): return self.h.get("class_attr", {}).get((m, name))
    def attr_hook(self, eng, s, v, name):
        f = self.h.get("attr"); return f(eng, s, v, name) if f else None
    def method_hook(self, eng, s, v, name, args, kw):
        f = self.h.get("method"); return f(eng, s, v, name, args, kw) if f else None
    def ext_method(self, eng, s, v, name, args, kw):
        f = self.h.get("ext_method"); return f(eng, s, v, name, args, kw) if f else None
    def compare_hook(self, eng, s, op, a, b):
        h = self.h.get("compare"); return h(eng, s, op, a, b) if h else None
    def binop_hook(self, eng, s, op, a, b):
        h = self.h.get("binop"); return h(eng, s, op, a, b) if h else None
    def construct_hook(self, eng, s, f, args, kw):
        h = self.h.get("construct"); return h(eng, s, f, args, kw) if h else None
    def unknown_call(self, eng, s, f, args, kw):
        h = self.h.get("unknown_call"); return h(eng, s, f, args, kw) if h else None
    def iter_hook(self, eng, s, it):
        h = self.h.get("iter"); return h(eng, s, it) if h else None
    def list_hook(self, eng, s, v):
        h = self.h.get("list"); return h(eng, s, v) if h else None
    def max_hook(self, eng, s, args, kw):
        h = self.h.get("max"); return h(eng, s, args, kw) if h else None
    def with_hook(self, eng, s, c, optvars, body, fr):
        h = self.h.get("with"); return h(eng, s, c, optvars, body, fr) if h else None
    def setattr_hook(self, eng, s, b, name, v):
        h = self.h.get("setattr"); return h(eng, s, b, name, v) if h else None
    def external(self, eng, s, f, args, kw):
        key = f"{f.mod}:{f.qual}" if isinstance(f, Fn) else (_key(f.o) if isinstance(f, PyObj) else None)
        if key is None: return None
        e = self.h.get("ext", {}).get(key) or self.ext.get(key)
        if e is None: return None
        h, desc = e
        self.cur_fn = f              # the callee (its .self_ is the receiver, if bound)
        if isinstance(f, Fn) and signature_error(f, args, kw): return [(s, eng.raise_(s, TypeError))]
        r = h(eng, s, args, kw)
        if r is not None: self.used.add(f"{key}: {desc}")
        return r


def signature_error(f, args, kw):
    """Would this call of a source function fail to bind its parameters?  (Unknown star arguments: assumed to fit.)"""
    if any(isinstance(x, Star) for x in args) or "**" in kw: return False
    a = f.node.args; pos = [x.arg for x in a.posonlyargs + a.args]; n = len(args) + (f.self_ is not None); kwo = [x.arg for x in a.kwonlyargs]
    if n > len(pos) and not a.vararg: return True
    if any((k in pos[:n]) or (k not in pos and k not in kwo and not a.kwarg) for k in kw): return True
    need = pos[:len(pos) - len(a.defaults)][n:] + [k for k, d in zip(kwo, a.kw_defaults) if d is None]
    return any(k not in kw for k in need)
def bound(eng, args, kw):
    """{parameter name: value} of the explicitly passed arguments of the source function being called."""
    f = eng.reg.cur_fn; a = f.node.args; pos = [x.arg for x in a.posonlyargs + a.args]
    if f.self_ is not None: pos = pos[1:]
    return dict(zip(pos, args), **{k: v for k, v in kw.items() if k != "**"})

def havoc_heap(s, keep_alloc=True):
    s.H = fresh("H", HeapSort); s.L = fresh("L", ListSort); s.D = fresh("D", DictSort)
    s.DK = fresh("DK", ListSort); s.SS = fresh("SS", SetSort)
    na = fresh("alloc", Int); s.assume(na >= s.alloc + s.nalloc); s.alloc, s.nalloc = na, 0

def havoc_user(s, keep=()):
    """Arbitrary user code ran: every heap object may have changed, except the lists/dicts/sets in `keep`
    and comprehension accumulators and **-dicts (which nothing outside the comprehension or function can reach)."""
    old = s.H, s.L, s.D, s.DK, s.SS
    priv = [d["$acc"] for d in s.frames.values() if "$acc" in d]
    havoc_heap(s)
    for v in list(keep) + priv:
        o = z3.simplify(V.ov(v))
        for c, a in zip(("L", "D", "DK", "SS"), old[1:]):
            s.assume(z3.Select(getattr(s, c), o) == z3.Select(a, o))

    for v in {id(d["$kw"]): d["$kw"] for d in s.frames.values() if "$kw" in d}.values():
        if not is_v(v): continue
        o = z3.simplify(V.ov(v)); s.D = z3.Store(s.D, o, z3.simplify(z3.Select(old[2], o))); s.DK = z3.Store(s.DK, o, z3.simplify(z3.Select(old[3], o)))

def log(s, *event):
    s.ghost["trace"] = z3.Concat(s.ghost["trace"], unit(V.tup(seq(*event))))


_loops = None
def LOOPS():
    """How many symbolic loops each contract's source had when its invariants were written (contracts/loops.json)."""
    global _loops
    if _loops is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "loops.json")
        _loops = json.load(open(p)) if os.path.exists(p) else {}
    return _loops
# ------------------------------------------------------------------ discharge
class Result:
    def __init__(self, contract):
        self.contract = contract
        self.total = self.ok = 0
        self.failed, self.undecided = [], []      # [(name, detail)]
        self.status = "ok"                        # ok | failed | outside | missing
        self.reason = ""
        self.solver_s = 0.0
        self.backends = {}
        self.paths = 0
        self.assumptions = set()
        self.inlined = set()
        self.used = set()
        self.reach = {}

def cvc5_check(smt, rl=None):
    """Second opinion by the cvc5 binary; 'unsat'/'sat'/'unknown'."""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt); nm = f.name
    try:
        p = subprocess.run(["cvc5", "--strings-exp", "--rlimit=3000000", nm], capture_output=True, text=True, timeout=120)
        r = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
        return r if r in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(nm)

def discharge(pc, goal, rlimit=30_000_000):
    """('proved'|'refuted'|'incomplete'|'undecided', backend, model-text)"""
    g = z3.simplify(goal)
    if z3.is_true(g): return "proved", "simplifier", ""
    hyp = list(pc)
    gr, _, any_q = ground(hyp, [g])
    if any_q:
        s = z3.Solver(); s.set("rlimit", rlimit // 3); ng = z3.Not(g)
        fast_add(s, gr); fast_add(s, lattice_axioms(gr + [ng])); s.add(ng)
        if s.check() == z3.unsat: return "proved", "z3", ""
    ax = lattice_axioms(hyp + [g])
    s = z3.Solver(); s.set("rlimit", rlimit)
    fast_add(s, hyp); fast_add(s, ax); s.add(z3.Not(g))
    r = s.check()
    if r == z3.unsat: return "proved", "z3", ""
    if r == z3.sat:
        m = s.model()
        return "refuted", "z3", model_text(m)
    why = s.reason_unknown()
    smt = s.to_smt2()
    if cvc5_check(smt) == "unsat": return "proved", "cvc5", ""
    if "incomplete" in why: return "incomplete", "z3", why
    return "undecided", "z3", why

def model_text(m):
    out = []
    for d in m.decls():
        n = d.name()
        if n.startswith("in_"):
            out.append(f"{n} = {m[d]}")
    return "\n".join(out)[:4000]


def run_contract(contract, source, registry_factory, verbose=False):
    """Generate and discharge all obligations of one function. Never raises."""
    res = Result(contract)
    t0 = time.time()
    T.clear_caches()
    stats = {}
    reg = registry_factory()
    eng = Engine(source, reg, stats)
    eng.pathbudget = contract.budget
    reg.h = contract.hooks()
    eng.current = contract
    try:
        fn = contract.resolve(eng)
        if fn is None:
            res.status, res.reason = "missing", f"{contract.key} is not in the source"
            return res
        st = new_state()
        c = Ctx(eng, st)
        args, kwargs = contract.pre(c)
        # vacuity guard: the precondition must be satisfiable
        chk = z3.Solver(); chk.set("rlimit", 5_000_000); fast_add(chk, st.pc); fast_add(chk, lattice_axioms(st.pc))
        if chk.check() == z3.unsat:
            res.status, res.reason = "outside", "vacuous precondition"; res.undecided.append(("pre.sat", "precondition unsatisfiable")); return res
        s0 = st.clone()
        s0.alloc = z3.simplify(st.alloc + st.nalloc); s0.nalloc = 0
        st.meta["init"] = (st.H, s0.alloc)
        eng.entered_self = True
        if fn.cm:
            if not hasattr(contract, "finish"): raise Unsupported("contextmanager target")
            outs = [(st, ("return", CM(fn, args, kwargs)))]
        else:
            d = eng.bind_args(st, fn, args, kwargs)
            if isinstance(d, Exc): raise SpecMismatch("signature does not accept the contract's arguments")
            outs = eng.run_body(st, fn, d)
        extra = []
        for s, o in outs:
            if o[0] in ("break", "continue"): raise Unsupported("stray outcome")
            extra += contract.finish(eng, s0, s, o, args) if hasattr(contract, "finish") else [(s, o)]
        for s, o in extra:
            p = Path(eng, s0, s, o, args)
            res.paths += 1
            kind = "return" if p.returned else "raise"
            feas = eng.feasible(s)
            if feas: res.reach[kind] = res.reach.get(kind, 0) + 1
            for nm, f in contract.post(p):
                if isinstance(f, bool): f = z3.BoolVal(f)
                eng.oblige(s, f"post.{nm}", f, p)
        for k in getattr(contract, "must_reach", ("return",)):
            if not res.reach.get(k):
                res.undecided.append((f"reach.{k}", "no feasible path with this outcome (vacuity guard)"))
        if not eng.obligations:
            res.undecided.append(("obligations", "zero obligations generated"))
        seen = {}
        for nm, pc, goal, info in eng.obligations:
            res.total += 1
            t1 = time.time()
            r, be, txt = discharge(pc, goal, contract.rlimit)
            res.solver_s += time.time() - t1
            if verbose and time.time() - t1 > 4: print(f"SLOW {nm} {time.time() - t1:.1f}s {r}")
            k = seen.setdefault(nm, 0); seen[nm] += 1
            if r == "proved":
                res.ok += 1; res.backends[be] = res.backends.get(be, 0) + 1
            elif r in ("refuted", "incomplete"):
                res.failed.append((f"{contract.name}/{nm}#{k}", f"{r}: {txt}"))
                if verbose:
                    print("FAILED", contract.name, nm, k, r, txt[:1500]); print("  goal:", z3.simplify(goal))
            else:
                res.undecided.append((f"{contract.name}/{nm}#{k}", txt))
                if verbose: print("UNDECIDED", contract.name, nm, k, txt[:300])
        new = len(eng.loop_ord) - LOOPS().get(contract.name, 10**6)
        if res.failed and new > 0:
            # The source has more loops here than the contract has ever been given invariants for: what follows such
            # a loop is undecided (nothing is known about what it did), not refuted.
            res.status = "outside"; res.reason = f"{new} loop(s) without an invariant; not discharged: " + "; ".join(a for a, _ in res.failed[:4])
            res.undecided += res.failed; res.failed = []
        elif res.failed: res.status = "failed"
        elif res.undecided: res.status = "outside"; res.reason = "; ".join(a for a, _ in res.undecided[:4])
    except (Unsupported, SpecMismatch) as e:
        res.status, res.reason = "outside", f"{type(e).__name__}: {e}"
        if verbose: traceback.print_exc()
    except z3.Z3Exception as e:
        res.status, res.reason = "outside", f"solver interface: {e}"
        if verbose: traceback.print_exc()
    except Exception as e:
        res.status, res.reason = "outside", f"engine: {type(e).__name__}: {e}"
        if verbose: traceback.print_exc()
    res.assumptions = set(eng.assumptions) | set(f"trusted: {u}" for u in reg.used)
    res.inlined = eng.inlined
    res.used = eng.used_contracts
    res.wall = time.time() - t0; res.loops = len(eng.loop_ord)
    res.stats = stats
    return res
