"""Shared helpers for contract modules."""
import ast
import z3
from pyvc.terms import *
from pyvc import terms as T
from pyvc.engine import *
from pyvc.engine import _key, obj_id, str_replace_all, str_join, str_split, str_strip, is_identifier, SpecMismatch
from pyvc.verify import *

def a_(o, name): return (V.ov(o), name)
def sel(s, o, name): return z3.Select(s.H, V.ov(o), z3.StringVal(name))

def old_elem(sq, i, alloc0):
    """Instance (at i) of: the elements of a list that existed on entry existed on entry."""
    return z3.Implies(z3.And(i >= 0, i < z3.Length(sq), V.is_obj(sq[i])), V.ov(sq[i]) < alloc0)

def copy_hook(eng, s, args, kw):
    """copy.deepcopy(x): a new object; logged."""
    x = eng.toV(s, args[0]); o = fresh("copied")
    s.assume(V.is_obj(o), V.ov(o) >= s.alloc + s.nalloc); na = fresh("alloc", Int); s.assume(na > V.ov(o)); s.alloc, s.nalloc = na, 0
    log(s, S("deepcopy"), x, o)
    return [(s, o)]
DEEPCOPY = {"copy.deepcopy": (copy_hook, "deepcopy(x) is a new, independent, equal object; x is unchanged")}
def generic_visit_hook(eng, s, recv, name, args, kw):
    """NodeTransformer.generic_visit / NodeVisitor.generic_visit: visits the children; logged; node returned (transformer)."""
    if name[1] == "generic_visit":
        log(s, S("generic_visit"), eng.toV(s, args[0]))
        return [(s, args[0] if issubclass(name[0], ast.NodeTransformer) else PyObj(None))]

class Walk:
    """Check a local walker class's per-node method on an arbitrary node, and stand in for the walk itself."""
    def __init__(self, eng, s, w):
        self.eng, self.s, self.w = eng, s, w
    def run(self, node, method, tag, spec, prep=None):
        """spec(s0, s1, outcome, traceOfThisStep) -> [(name, formula)]; one obligation set per path."""
        st = self.s.clone(); st.ghost["trace"] = EMPTY
        if prep: prep(st)
        C = self.eng.static_class(st, self.w); m = self.eng.cls_attr(st, C, method)
        s0 = st.clone()
        n = 0
        for s1, r in self.eng.call(st, m[1].bind(self.w), [node], {}):
            n += 1
            for nm, f in spec(s0, s1, r, s1.ghost["trace"]):
                if isinstance(f, bool): f = z3.BoolVal(f)
                self.eng.oblige(s1, f"{tag}.{nm}", f)
        if not n: raise SpecMismatch(f"no path through {method}")
def walker_of(eng): return eng.reg.cur_fn.self_
def frame_h(s0, s1, except_=()):
    r, f = fresh("r", Int), fresh("a", Str)
    return z3.Implies(z3.And([r < s0.alloc + s0.nalloc] + [z3.Not(z3.And(r == V.ov(o), f == z3.StringVal(n))) for o, n in except_]), z3.Select(s0.H, r, f) == z3.Select(s1.H, r, f))
def frame_c(c, s0, s1, except_=()):
    r = fresh("r", Int)
    return z3.Implies(z3.And([r < s0.alloc + s0.nalloc] + [r != V.ov(o) for o in except_]), z3.Select(getattr(s0, c), r) == z3.Select(getattr(s1, c), r))
