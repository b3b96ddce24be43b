from rt.lib import *
from rt import corpus
from mcpyrate.walkers import ASTVisitor, ASTTransformer

class Boom(Exception): pass

def small_tree(rng, d, counter):
    """A random statement; every node gets a number."""
    def num(n):
        counter[0] += 1; n._vq = counter[0]; return n
    def name(): return num(ast.Name(id=rng.choice("abc"), ctx=ast.Load()))
    def expr(d):
        k = rng.random()
        if d == 0 or k < .3: return name()
        if k < .6: return num(ast.List(elts=[expr(d - 1) for _ in range(rng.randrange(4))], ctx=ast.Load()))
        if k < .8: return num(ast.Call(func=expr(d - 1), args=[expr(d - 1) for _ in range(rng.randrange(3))], keywords=[]))
        return num(ast.BinOp(left=expr(d - 1), op=ast.Add(), right=expr(d - 1)))
    def stmt(d):
        k = rng.random()
        if d == 0 or k < .3: return num(ast.Expr(value=expr(d)))
        if k < .7: return num(ast.If(test=expr(d - 1), body=[stmt(d - 1) for _ in range(rng.randrange(1, 4))], orelse=[stmt(d - 1) for _ in range(rng.randrange(3))]))
        return num(ast.While(test=expr(d - 1), body=[stmt(d - 1) for _ in range(rng.randrange(1, 3))], orelse=[]))
    if rng.random() < .4: return [stmt(d) for _ in range(rng.randrange(1, 4))]
    return stmt(d)

def kids(n): return [c for c in ast.iter_child_nodes(n)]

def make_script(rng, tree):
    """What the walker does at each numbered node."""
    script = {}
    roots = tree if isinstance(tree, list) else [tree]
    for r in roots:
        for n in ast.walk(r):
            if not hasattr(n, "_vq"): continue
            acts = []
            numbered = [c for c in kids(n) if hasattr(c, "_vq")]
            lists = [f for f, v in ast.iter_fields(n) if isinstance(v, list) and v and all(hasattr(x, "_vq") for x in v)]
            for _ in range(rng.randrange(4)):
                k = rng.random()
                b = {x: rng.randrange(100) for x in rng.sample(["p", "q", "r"], rng.randrange(3))}
                if k < .3 and numbered: acts.append(("with", rng.randrange(len(numbered)), b))
                elif k < .45 and lists: acts.append(("withlist", rng.choice(lists), b))
                elif k < .6: acts.append(("gwith", b))
                elif k < .75: acts.append(("mut", rng.choice("pqrs"), rng.randrange(100)))
                elif k < .85: acts.append(("rebind", b))
                else: acts.append(("collect", rng.randrange(1000)))
            mode = rng.choice(["generic", "generic", "generic", "fields", "one", "stop"])
            script[n._vq] = dict(acts=acts, mode=mode, pick=rng.randrange(8), boom=rng.random() < .06, late=rng.random() < .5, catch=rng.random() < .25, unset=rng.random() < .05)
    return script

# ---- the reference: what the documentation says
class Ref:
    def __init__(self, script, init):
        self.script, self.stack, self.over, self.collected, self.log = script, [dict(init)], {}, [], []
    def visit(self, n):
        st = self.over.pop(id(n), None)
        if st is not None: self.stack.append(st)
        try:
            if isinstance(n, list):
                for x in n: self.visit(x)
            else: self.node(n)
        finally:
            if st is not None: self.stack.pop()
    def generic(self, n):
        for c in kids(n): self.visit(c)
    def act(self, n, a):
        if a[0] == "with": self.over[id([c for c in kids(n) if hasattr(c, "_vq")][a[1]])] = {**self.stack[-1], **a[2]}
        elif a[0] == "withlist":
            s = {**self.stack[-1], **a[2]}
            for x in getattr(n, a[1]): self.over[id(x)] = s
        elif a[0] == "gwith":
            s = {**self.stack[-1], **a[1]}
            for c in kids(n): self.over[id(c)] = s
        elif a[0] == "mut": self.stack[-1][a[1]] = a[2]
        elif a[0] == "rebind": self.stack[-1] = dict(a[1])
        elif a[0] == "collect": self.collected.append(a[1])
    def node(self, n):
        if not hasattr(n, "_vq"):
            return
        self.log.append(("in", n._vq, tuple(sorted(self.stack[-1].items()))))
        sc = self.script[n._vq]
        for a in sc["acts"]: self.act(n, a)
        if sc["boom"] and not sc["late"]: raise Boom()
        try: self.recurse(n, sc)
        except Boom:
            if not sc["catch"]: raise
        self.log.append(("out", n._vq, tuple(sorted(self.stack[-1].items()))))
        if sc["boom"]: raise Boom()
    def recurse(self, n, sc):
        if sc["mode"] == "generic": self.generic(n)
        elif sc["mode"] == "fields":
            for f, v in ast.iter_fields(n):
                if isinstance(v, list) or isinstance(v, ast.AST): self.visit(v)
        elif sc["mode"] == "one":
            c = [c for c in kids(n) if hasattr(c, "_vq")]
            if c: self.visit(c[sc["pick"] % len(c)])

class Drive:
    """The same script on the real walkers."""
    def run_node(self, n):
        if not hasattr(n, "_vq"): return n
        self.log.append(("in", n._vq, tuple(sorted(self.state.items()))))
        sc = self.script[n._vq]
        for a in sc["acts"]:
            if a[0] == "with": self.withstate([c for c in kids(n) if hasattr(c, "_vq")][a[1]], **a[2])
            elif a[0] == "withlist": self.withstate(getattr(n, a[1]), **a[2])
            elif a[0] == "gwith": self.generic_withstate(n, **a[1])
            elif a[0] == "mut": setattr(self.state, a[1], a[2])
            elif a[0] == "rebind":
                from mcpyrate.bunch import Bunch
                self.state = Bunch(**a[1])
            elif a[0] == "collect":
                if self.collect(a[1]) != a[1]: self.log.append("collect does not return its argument")
        if sc["boom"] and not sc["late"]: raise Boom()
        try:
            if sc["mode"] == "generic": self.generic_visit(n)
            elif sc["mode"] == "fields":
                for f, v in ast.iter_fields(n):
                    if isinstance(v, list) or isinstance(v, ast.AST): self.visit(v)
            elif sc["mode"] == "one":
                c = [c for c in kids(n) if hasattr(c, "_vq")]
                if c: self.visit(c[sc["pick"] % len(c)])
        except Boom:
            if not sc["catch"]: raise
        self.log.append(("out", n._vq, tuple(sorted(self.state.items()))))
        if sc["boom"]: raise Boom()
        return n
class V(Drive, ASTVisitor):
    def examine(self, tree): self.run_node(tree)
class T(Drive, ASTTransformer):
    def transform(self, tree): return self.run_node(tree)

# Load/Store/operator nodes are shared singletons: keep a fresh one per use, so that a request is for one position
def unshare(t):
    for n in ast.walk(t):
        for f, v in ast.iter_fields(n):
            if isinstance(v, (ast.expr_context, ast.operator)): setattr(n, f, type(v)())
    return t

@case("C10", "random trees (depth <= 4) with random scripts of state requests, mutations and failures at every node; both walkers; two runs per walker with reset")
def scripts(R):
    rng = R.rng()
    for t in range(700 if not R.deep else 12000):
        cnt = [0]
        tree = small_tree(rng, rng.randrange(1, 5), cnt)
        for x in (tree if isinstance(tree, list) else [tree]): unshare(x)
        script = make_script(rng, tree)
        init = {k: rng.randrange(9) for k in rng.sample(["p", "q", "z"], rng.randrange(4))}
        ref = Ref(script, init)
        try: ref.visit(tree); rexc = False
        except Boom: rexc = True
        desc = dict(tree=dump(tree), script=script, init=init)
        R.current_input = desc
        for C in (V, T):
            w = C(**init); w.script, w.log = script, []
            for attempt in range(2):
                R.note(str((C.__name__, attempt, t)))
                try: w.visit(tree); exc = False
                except Boom: exc = True
                if w.log != ref.log:
                    i = next((i for i, (a, b) in enumerate(zip(w.log, ref.log)) if a != b), min(len(w.log), len(ref.log)))
                    R.fail(f"{C.__name__}: state seen at a node", desc, f"event {i}: got {w.log[i:i+1]} expected {ref.log[i:i+1]} (attempt {attempt})"); break
                if exc != rexc: R.fail(f"{C.__name__}: exception", desc, exc); break
                if w.collected != ref.collected: R.fail(f"{C.__name__}: collected", desc, (w.collected, ref.collected)); break
                if dict(w.state.items()) != ref.stack[-1]: R.fail(f"{C.__name__}: state after the walk", desc, (w.state, ref.stack)); break
                w.reset(**init); w.log = []
                if dict(w.state.items()) != init or w.collected != []: R.fail(f"{C.__name__}: reset", desc, (w.state, w.collected)); break
        if len(R.failures) > 3: break

@case("C10", "random edit scripts over statement lists at every nesting; identity of lists and nodes")
def edits(R):
    rng = R.rng()
    for t in range(600 if not R.deep else 8000):
        cnt = [0]
        tree = small_tree(rng, rng.randrange(1, 5), cnt)
        if not isinstance(tree, list) and rng.random() < .8: tree = [tree]
        plan = {}
        def pl(n):
            k = rng.random()
            if isinstance(n, ast.stmt):
                if k < .15: return ("drop",)
                if k < .3: return ("list", rng.randrange(3), rng.random() < .5)
                if k < .4: return ("nested",)
                if k < .5: return ("new",)
            elif isinstance(n, ast.expr) and k < .15: return ("new",)
            return ("keep",)
        for r in (tree if isinstance(tree, list) else [tree]):
            for n in ast.walk(r):
                if hasattr(n, "_vq"): plan[n._vq] = pl(n)
        fresh = {}
        def new(n, tag):
            k = (n._vq, tag)
            if k not in fresh:
                fresh[k] = ast.Expr(value=ast.Constant(value=str(k))) if isinstance(n, ast.stmt) else ast.Constant(value=str(k))
            return fresh[k]
        def decide(n):
            p = plan.get(getattr(n, "_vq", None), ("keep",))
            if p[0] == "keep": return "keep"
            if p[0] == "drop": return None
            if p[0] == "new": return new(n, 0)
            if p[0] == "list": return ([n] if p[2] else []) + [new(n, i) for i in range(p[1])]
            return [new(n, 0), [new(n, 1), [], [new(n, 2)]], None] if False else [new(n, 0), new(n, 1)]
        shallow = rng.random() < .3
        class E(ASTTransformer):
            def transform(self, n):
                d = decide(n)
                if d == "keep": return self.generic_visit(n) if not shallow or not isinstance(n, ast.stmt) else n
                return d
        # reference on a description of the tree
        def ref(n):
            d = decide(n)
            if d != "keep": return [dump(x) for x in d] if isinstance(d, list) else ([] if d is None else [dump(d)])
            if shallow and isinstance(n, ast.stmt): return [dump(n)]
            m = copy.copy(n)
            for f, v in ast.iter_fields(n):
                if isinstance(v, list): setattr(m, f, [RAW(s) for x in v for s in (ref(x) if isinstance(x, ast.AST) else [x])])
                elif isinstance(v, ast.AST):
                    r = ref(v); setattr(m, f, RAW(r[0]))
            return [dump2(m)]
        class RAW(str): pass
        def dump2(m):
            parts = []
            for f, v in ast.iter_fields(m):
                if isinstance(v, RAW): parts.append(f"{f}={str(v)}")
                elif isinstance(v, list): parts.append(f"{f}=[{', '.join(str(x) if isinstance(x, RAW) else repr(x) for x in v)}]")
                else: parts.append(f"{f}={v!r}")
            return f"{type(m).__name__}({', '.join(parts)})"
        desc = dict(tree=dump(tree), plan=plan)
        R.current_input = desc
        lists = [tree] if isinstance(tree, list) else []
        want = [s for x in (tree if isinstance(tree, list) else [tree]) for s in ref(x)]
        def norm(x): return dump2(mk_raw(x))
        def mk_raw(n):
            m = copy.copy(n)
            for f, v in ast.iter_fields(n):
                if isinstance(v, list): setattr(m, f, [RAW(norm(x)) if isinstance(x, ast.AST) else x for x in v])
                elif isinstance(v, ast.AST): setattr(m, f, RAW(norm(v)))
            return m
        # the reference dumps of untouched nodes use ast.dump: normalise both through text
        got = E().visit(tree)
        R.note(str(desc))
        if isinstance(tree, list):
            if got is not tree: R.fail("the list is not edited in place", desc, repr(got))
            if any(x is None or isinstance(x, list) for x in tree): R.fail("list elements are not spliced", desc, repr(tree)); continue
            g = [ast.dump(x) for x in tree]
        else:
            g = [] if got is None else [ast.dump(x) for x in got] if isinstance(got, list) else [ast.dump(got)]
        def canon(s): return re.sub(r"\s+", "", s).replace(",kind=None", "").replace("ctx=Load()", "").replace(",)", ")").replace(",type_comment=None", "")
        a, b = [canon(x) for x in g], [canon(x) for x in want]
        if a != b: R.fail("edited tree", desc, f"got  {a}\nwant {b}")
        if len(R.failures) > 3: break

@case("C10", "empty lists, lists of removed nodes, nested lists, return values, abstractness")
def corner(R):
    class Drop(ASTTransformer):
        def transform(self, t): return None
    l = [ast.Pass(), ast.Pass()]
    r = Drop().visit(l)
    R.check(r is l and l == [] and type(r) is list, "a list whose elements are all removed", "[Pass, Pass]", repr(r))
    l = []
    R.check(Drop().visit(l) is l and l == [], "empty list", "[]", l)
    class Nest(ASTTransformer):
        def transform(self, t): return [ast.Pass(), [ast.Break(), [ast.Continue()], None], []] if isinstance(t, ast.Expr) else t
    l = ast.parse("a\nb = 1\nc").body
    r = Nest().visit(l)
    R.check([type(x).__name__ for x in l] == ["Pass", "Break", "Continue", "Assign", "Pass", "Break", "Continue"], "nested lists returned for list elements", "a; b=1; c", l)
    class Ret(ASTVisitor):
        def examine(self, t):
            if isinstance(t, ast.Name): return t.id
            self.generic_visit(t)
    R.eq(Ret().visit(ast.Name(id="zz")), "zz", "return value of a visitor", "Name")
    R.raises(TypeError, lambda: ASTVisitor(), "abstract visitor instantiated", "ASTVisitor()")
    R.raises(TypeError, lambda: ASTTransformer(), "abstract transformer instantiated", "ASTTransformer()")
    # an override with no bindings at all isolates the subtree's state
    log = []
    class W(ASTVisitor):
        def examine(self, t):
            log.append((type(t).__name__, dict(self.state.items())))
            if isinstance(t, ast.If):
                self.withstate(t.test)
                self.visit(t.test)
                log.append(("after", dict(self.state.items())))
            elif isinstance(t, ast.Name): self.state.leak = 1
    W().visit(ast.parse("if a: pass").body[0])
    R.eq(log, [("If", {}), ("Name", {}), ("after", {})], "state of a subtree visited with a state without bindings", "if a: pass")
    # last request wins; requests are consumed by the visit; state objects are copies
    class L(ASTVisitor):
        def examine(self, t):
            log.append(dict(self.state.items()))
            if isinstance(t, ast.If):
                self.withstate(t.test, a=1); self.withstate(t.test, b=2)
                self.visit(t.test); self.visit(t.test)
    log.clear()
    w = L(z=0); w.visit(ast.parse("if a: pass").body[0])
    R.eq(log, [{"z": 0}, {"z": 0, "b": 2}, {"z": 0}], "repeated requests for the same subtree", "if a: pass")
    R.eq(dict(w.state.items()), {"z": 0}, "state after the walk", "if a: pass")
