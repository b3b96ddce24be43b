"""C04: order, mode and Done protection: the real expander against the reference expander of macrolab."""
import warnings
from rt.lib import *
from rt.macrolab import *
from mcpyrate.core import Done
from mcpyrate.expander import expand_macros

def both(R, src, tree, B, bindings, names, params, entry, what=""):
    """Run the reference and the real expander through `entry`; compare result, macro calls and mode."""
    filename = "<vq>"
    inp = f"{entry}: bound {sorted(bindings)}\n{src}"
    rec0 = entry.endswith("/once")
    ref = Ref({n: B[n][0] for n in bindings}, filename, names, params)
    real = mk_expander(bindings, filename)
    hook = object()
    if rec0: ref.recursive = real.recursive = False
    op = entry.split("/")[0]
    del LOG[:]
    want = wexc = got = gexc = None
    t1, t2 = copy.deepcopy(tree), copy.deepcopy(tree)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: want = getattr(ref, op)(t1)
        except RefError as e: wexc = e
        except SyntaxError as e: wexc = e
        wlog = list(LOG); del LOG[:]
        try: got = getattr(real, op)(t2)
        except RecursionError: raise
        except Exception as e: gexc = e
        glog = list(LOG); del LOG[:]
    R.note(inp)
    if (wexc is None) != (gexc is None):
        R.fail(what + "one of the two failed", inp, f"reference: {wexc!r}\nreal: {gexc!r}")
        return None
    if wlog != glog:
        i = next((i for i, (a, b) in enumerate(zip(wlog, glog)) if a != b), min(len(wlog), len(glog)))
        R.fail(what + "macro calls differ from outermost-first order or inputs", inp, f"call #{i}\nexpected {wlog[i] if i < len(wlog) else '(none)'}\n     got {glog[i] if i < len(glog) else '(none)'}\n({len(wlog)} vs {len(glog)} calls)")
        return None
    if wexc is None:
        d = ast_diff(want, got, ctx=False)
        if d: R.fail(what + "expansion result differs", inp, d); return None
    if real.recursive is not (not rec0): R.fail("the recursion mode is not restored", inp, repr(real.recursive))
    if real._debughook is not None: R.fail("a debug hook is left installed", inp, repr(real._debughook))
    return got, gexc, wexc

ENTRIES = ["visit_recursively", "visit_once", "visit", "visit/once", "visit_recursively/once", "visit_once/once"]

@case("C04", "random macro-using modules of statement depth <= 3 and expression depth <= 3, 18 macro behaviours, 6 entry points")
def order_and_mode(R):
    rng = R.rng()
    B = behaviours()
    bindings, names, params = bind(B)
    for i in range(6000 if R.deep else 1100):
        if R.left() < 5: break
        src, tree = Prog(rng, B, depth=rng.choice([1, 2, 2, 3])).module()
        both(R, src, tree, B, bindings, names, params, ENTRIES[i % 6] if i % 3 else "visit_recursively")

@case("C04", "the same programs with a random subset of the names bound")
def unbound_names(R):
    rng = R.rng()
    B = behaviours()
    for i in range(2000 if R.deep else 350):
        if R.left() < 5: break
        only = {n for n in B if rng.random() < .5}
        if i % 20 == 0: only = set()
        bindings, names, params = bind(B, only)
        sub = {n: B[n] for n in only}
        src, tree = Prog(rng, B, depth=2).module()
        both(R, src, tree, B, bindings, names & only, params & only, ENTRIES[i % 6])

@case("C04", "random programs whose macros raise or return garbage")
def failures_restore_the_mode(R):
    rng = R.rng()
    B = {**behaviours(), **failing()}
    bindings, names, params = bind(B)
    F = list(failing())
    for i in range(2500 if R.deep else 500):
        if R.left() < 5: break
        src, tree = Prog(rng, behaviours(), depth=2, fail=[f for f in F if f != "f_bad13"]).module()
        both(R, src, tree, B, bindings, names, params, ENTRIES[i % 6])

@case("C04", "Done in every child slot of random modules; visited by every entry point twice")
def done_is_left_alone(R):
    rng = R.rng()
    B = behaviours(); bindings, names, params = bind(B)
    for i in range(800 if R.deep else 160):
        if R.left() < 5: break
        src, tree = Prog(rng, B, depth=2).module()
        slots = []
        for n in ast.walk(tree):
            for f in n._fields:
                v = getattr(n, f, None)
                if isinstance(v, list): slots += [(v, k) for k, x in enumerate(v) if isinstance(x, (ast.expr, ast.stmt))]
                elif isinstance(v, (ast.expr, ast.stmt)): slots.append((n, f))
        rng.shuffle(slots)
        for o, k in slots[:rng.choice([1, 1, 3])]:
            if isinstance(o, list): o[k] = Done(o[k])
            else: setattr(o, k, Done(getattr(o, k)))
        if any(isinstance(n, ast.With) and any(isinstance(x.context_expr, Done) for x in n.items) for n in ast.walk(tree)): pass
        both(R, src + "\n# with Done around " + "; ".join(sorted(snap(d.body)[:80] for d in ast.walk(tree) if isinstance(d, Done))), tree, B, bindings, names, params, ENTRIES[i % 6])
        # whole tree Done: nothing happens at all
        d = Done(copy.deepcopy(tree)); b4 = snap(d)
        e = mk_expander(bindings)
        del LOG[:]
        for op in ("visit", "visit_recursively"):
            R.check(getattr(e, op)(d) is d and snap(d) == b4 and not LOG, "a Done tree is touched", f"{op}\n{src}")
        r = e.visit_once(d)
        R.check(isinstance(r, Done) and r.body is d and snap(d) == b4 and not LOG, "a Done tree is touched by visit_once", src)

@case("C04", "the result of visit_once visited again, alone and inside a larger tree")
def once_protects(R):
    rng = R.rng()
    B = behaviours(); bindings, names, params = bind(B)
    for i in range(800 if R.deep else 200):
        if R.left() < 5: break
        src, tree = Prog(rng, B, depth=2).module()
        e = mk_expander(bindings)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try: once = e.visit_once(tree)
            except Exception: continue
        R.note(src)
        b4 = snap(once)
        del LOG[:]
        host = ast.Module(body=[ast.If(test=N("a"), body=[once], orelse=[])], type_ignores=[])
        e.visit_recursively(host); e.visit(host); e.visit_recursively(once)
        if LOG or snap(once) != b4: R.fail("a later expansion changes the result of visit_once", src, str(LOG[:2]))

@case("C04", "random nestings (depth <= 6) of visit_once/visit_recursively/debughook with failures at random depths")
def mode_stack(R):
    rng = R.rng()
    def mk():
        """A macro that performs the nested operations listed in its tree."""
        seen = []
        def step(tree, *, expander, **kw):
            seen.append((expander.recursive, expander._debughook))
            for c in tree.elts[1:]:
                op = c.func.id
                before = (expander.recursive, expander._debughook)
                sub = ast.Subscript(value=N("step"), slice=c.args[0], ctx=ast.Load())
                def catching(f):
                    try: f()
                    except Exception: pass
                if op == "once": catching(lambda: expander.visit_once(sub))
                elif op == "rec": catching(lambda: expander.visit_recursively(sub))
                elif op == "plain": catching(lambda: expander.visit(sub))
                else:
                    def g():
                        with expander.debughook(lambda *a, op=op: None): expander.visit(sub)
                    catching(g)
                seen.append((expander.recursive, expander._debughook) == before or ("not restored", op, before, (expander.recursive, expander._debughook)))
            if tree.elts[0].value == 1: raise ValueError("x")
            return ast.Constant(1)
        return step, seen
    def gen(d):
        n = rng.randrange(3) if d else 0
        return f"({rng.choice([0, 0, 0, 1])}, " + ", ".join(f"{rng.choice(['once', 'rec', 'plain', 'hook'])}({gen(d - 1)})" for _ in range(n)) + ")"
    def want(t, mode, hooked):
        out = [(mode, hooked)]
        for c in t.elts[1:]:
            op = c.func.id
            out += want(c.args[0], {"once": False, "rec": True}.get(op, mode), hooked or op == "hook") + [True]
        return out
    for _ in range(3000 if R.deep else 700):
        if R.left() < 5: break
        s = gen(6)
        for m in (True, False):
            step, seen = mk()
            e = mk_expander({"step": step}); e.recursive = m
            tree = ast.parse(f"step[{s}]", mode="eval")
            fails = tree.body.slice.elts[0].value == 1
            w = want(ast.parse(s, mode="eval").body, m, False)
            try: e.visit(tree); ok = not fails
            except Exception: ok = fails
            R.note((s, m))
            got = [(x[0], x[1] is not None) if isinstance(x, tuple) and len(x) == 2 else x for x in seen]
            if got != w: R.fail("mode or debug hook seen by nested visits", (s, m), f"expected {w}\n got {got}")
            if e.recursive is not m or e._debughook is not None: R.fail("mode or hook not restored at the end", (s, m), (e.recursive, e._debughook))
            if not ok: R.fail("exception behaviour of nested visits", (s, m))

@case("C04", "random programs under nested debug hooks")
def hook_sees_each_step_once(R):
    rng = R.rng()
    B = behaviours(); bindings, names, params = bind(B)
    for i in range(600 if R.deep else 150):
        if R.left() < 5: break
        src, tree = Prog(rng, B, depth=2).module()
        t2 = copy.deepcopy(tree)
        e = mk_expander(bindings)
        steps = []
        outer = lambda *a: steps.append("outer hook called")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            del LOG[:]
            try: a = mk_expander(bindings).visit_recursively(tree)
            except Exception: continue
            n = [(x[0], x[5]) for x in LOG]
            with e.debughook(outer):
                with e.debughook(lambda oid, inv, new, name, fn: steps.append((name, snap(inv), fn is bindings[name]))):
                    b = e.visit_recursively(t2)
                if e._debughook is not outer: R.fail("inner debughook does not restore the outer one", src)
            if e._debughook is not None: R.fail("debughook not restored", src)
        R.note(src)
        d = ast_diff(a, b)
        if d: R.fail("the debug hook changes the expansion", src, d)
        if sorted((x[0], x[1]) for x in steps if isinstance(x, tuple)) != sorted(n) or not all(isinstance(x, tuple) and x[2] for x in steps): R.fail("the debug hook does not see each expansion once", src, f"{n}\n{steps}")

@case("C04", "module-level expansion entry point on the same programs")
def expand_macros_entry(R):
    rng = R.rng()
    B = behaviours(); bindings, names, params = bind(B)
    from mcpyrate.core import MacroExpanderMarker
    class Strip(ast.NodeTransformer):
        def visit(self, t):
            if isinstance(t, list):
                out = []
                for x in t:
                    r = self.visit(x)
                    out += r if isinstance(r, list) else [r]
                return out
            return self.visit(t.body) if isinstance(t, Done) else super().visit(t)
    for i in range(600 if R.deep else 150):
        if R.left() < 5: break
        src, tree = Prog(rng, B, depth=2).module()
        t1 = copy.deepcopy(tree)
        ref = Ref({n: B[n][0] for n in bindings}, "<vq>", names, params)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try: want = ref.visit(t1)
            except Exception: continue
            got = expand_macros(tree, bindings, filename="<vq>")
        R.note(src)
        d = ast_diff(Strip().visit(want), got, ctx=False)
        if d: R.fail("expand_macros result", src, d)
