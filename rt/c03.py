from rt.lib import *
import gc
import pickle
import subprocess
import mcpyrate
from mcpyrate import quotes as Q
from mcpyrate.quotes import capture_value, capture_macro, capture_as_macro, is_captured_value, is_captured_macro
from mcpyrate.core import global_bindings
from mcpyrate.expander import MacroExpander
from mcpyrate.astfixers import fix_ctx
from rt.c02 import NAMES, quote, inv, evaluate, rvalue, norm

def code_of(tree):
    t = ast.Expression(body=tree)
    fix_ctx(t, copy_seen_nodes=True); ast.fix_missing_locations(t)
    return compile(t, "<vq>", "eval")
def run(code, env=None): return eval(code, {"mcpyrate": mcpyrate, **(env or {})})

class Thing:
    def __init__(self, n): self.n = n
    def __eq__(self, o): return type(o) is Thing and o.n == self.n
    __hash__ = None
def mac1(tree, **kw): return ast.Constant(value="mac1")
def mac2(tree, **kw): return ast.Constant(value="mac2")
class MacroObj:
    def __call__(self, tree, **kw): return ast.Constant(value="obj")
MACROS = [mac1, mac2]

@case("C03", "random histories of captures, code deletions, repeated lookups and garbage collections; values of all kinds, equal names")
def histories(R):
    rng = R.rng()
    for h in range(6 if not R.deep else 60):
        live = []      # (name, value, code, first result)
        n = 200 if not R.deep else 500
        for step in range(n):
            r = rng.random()
            if r < .45 or not live:
                name = rng.choice(["x", "y", "f(x)"])
                v = rng.choice([lambda: Thing(step), lambda: rvalue(rng), lambda: [step], lambda: {"k": [step]}, lambda: len, lambda: Thing, lambda: "s%d" % step])()
                R.current_input = f"capture #{step} {name}={v!r}"
                t = capture_value(v, name)
                k = is_captured_value(t)
                R.check(isinstance(k, tuple) and k[0] == name and isinstance(k[1], bytes) and is_captured_macro(t) is False, "a captured value is not recognised", R.current_input, repr(k)[:200])
                live.append([name, v, code_of(t), None])
                del t, k
            elif r < .7:
                e = rng.choice(live)
                R.current_input = f"history {h}, step {step}: look up {e[0]} = {e[1]!r}"
                try: got = run(e[2])
                except Exception as x: R.check(False, "lookup fails", R.current_input, repr(x)); continue
                same = (norm(got) == norm(e[1])) if not isinstance(e[1], Thing) else got == e[1]
                R.check(same, "looked-up value is not the captured one", R.current_input, f"got {got!r}"[:500])
                if e[3] is None: e[3] = [got]
                else: R.check(e[3][0] is got, "the same code gives another object", R.current_input)
            elif r < .95:
                live.pop(rng.randrange(len(live)))
            else: gc.collect()
        del live

@case("C03", "recapture in a tight loop: many short-lived captures under one name, each looked up once")
def churn(R):
    for i in range(3000 if not R.deep else 40000):
        want = {"v": i}
        R.current_input = f"capture number {i} of {{'v': i}} named x"
        got = run(code_of(capture_value(want, "x")))
        if not R.check(got == want, "looked-up value is not the captured one", R.current_input, f"got {got!r}"): break

@case("C03", "mutable values: separate captures of one object")
def separate(R):
    for v in ([1], {"a": 1}, Thing(1), {1, 2}):
        a, b = code_of(capture_value(v, "v")), code_of(capture_value(v, "v"))
        x, y = run(a), run(b)
        R.check(x is not y, "separate captures share a mutable value", repr(v))
        R.check(x is not v, "the capture is not a copy", repr(v))
        if isinstance(v, list):
            v.append(2); R.check(run(a) == [1], "the captured value follows later changes of the original", "list")

@case("C03", "another process: the stored code of captured values and macros")
def other_process(R):
    with scratch() as d:
        write(d, "vq_c03mod.py", """
            class Thing:
                def __init__(self, n): self.n = n
                def __eq__(self, o): return type(o) is Thing and o.n == self.n
            def mac(tree, **kw): return tree
        """)
        with on_path(d):
            import vq_c03mod as m
            vals = [m.Thing(3), [1, "é", b"x"], {"a": (1, 2)}, m.Thing, len, float("inf"), None, "x" * 1000]
            import marshal
            data = [marshal.dumps(code_of(capture_value(v, "v%d" % i))) for i, v in enumerate(vals)]
            mdata = marshal.dumps(code_of(capture_macro(m.mac, "mac")))
            write(d, "main.py", f"""
                import sys, marshal, pickle
                sys.path[:0] = {[d, os.environ.get('VQ_REPO', '/repo')]!r}
                import vq_c03mod as m
                vals = [m.Thing(3), [1, "é", b"x"], {{"a": (1, 2)}}, m.Thing, len, float("inf"), None, "x" * 1000]
                for i, (d, v) in enumerate(zip({data!r}, vals)):
                    got = eval(marshal.loads(d), {{}})
                    assert got == v and type(got) is type(v), (i, got)
                    assert eval(marshal.loads(d), {{}}) == v
                import mcpyrate.quotes
                node = eval(marshal.loads({mdata!r}), {{"mcpyrate": mcpyrate}})
                from mcpyrate.expander import MacroExpander
                assert MacroExpander({{}}, "x").isbound(node.id) is m.mac
                print("fine")
            """)
            p = subprocess.run([sys.executable, "-B", os.path.join(d, "main.py")], capture_output=True, text=True, cwd=d)
            R.check(p.stdout.strip() == "fine", "captures do not work in another process", "8 values and a macro", p.stdout + p.stderr[-1500:])

@case("C03", "captures made by h[] in quoted code: names, expressions, macros, name macros; re-quoting; detection helpers; all in random order")
def operator(R):
    rng = R.rng()
    from mcpyrate.expander import namemacro
    for i in range(60 if not R.deep else 800):
        env = {"v": rng.choice([Thing(i), rvalue(rng), [i]]), "w": [i], "len": len}
        for src, want in [("v", env["v"]), ("w", env["w"]), ("w[0] + 1", i + 1), ("len", len), ("[v, w]", [env["v"], env["w"]])]:
            e = ast.parse(src, mode="eval").body
            R.current_input = f"vq_q[vq_h[{src}]] with v={env['v']!r} #{i}"
            code = quote(inv("vq_h", e))
            k = [is_captured_value(n) for n in ast.walk(code)]
            R.check([x for x in k if x] == [(mcpyrate.unparse(e), None)], "a not yet captured value is not recognised", R.current_input, repr(k)[:300])
            tree = evaluate(code, env)
            k = is_captured_value(tree)
            R.check(bool(k) and k[0] == mcpyrate.unparse(e), "the capture made by h[] is not recognised", R.current_input, dump(tree)[:300])
            if not k: continue
            c = code_of(tree)
            got = run(c)
            R.check((norm(got) == norm(want)) if not isinstance(want, (Thing, list)) else got == want, "h[]: the value is not the captured one", R.current_input, repr(got)[:300])
            R.check(run(c) is got or not isinstance(got, (list, Thing)), "h[]: another object at the second run", R.current_input)
            try: R.check(norm(Q.lookup_value(k)) == norm(got) if not isinstance(want, (Thing, list)) else Q.lookup_value(k) == got, "the key does not lead to the value", R.current_input)
            except Exception as x: R.check(False, "the key does not lead to the value", R.current_input, repr(x))
    R.raises(ValueError, lambda: Q.lookup_value(("x", None)), "lookup of a value that was not captured yet", "('x', None)")
    R.raises(Exception, lambda: capture_value(lambda: 1, "f"), "a value that cannot be stored", "lambda")

@case("C03", "macro captures: random sequences of captures of two macros under equal names, expansions in several expanders, and lookups of old captures")
def macros(R):
    rng = R.rng()
    live, seen = [], set(global_bindings)
    for i in range(200 if not R.deep else 3000):
        m, name = rng.choice(MACROS), rng.choice(["mac1", "mac2", "same", "q"])
        how = rng.choice(["capture_macro", "capture_as_macro", "h[]", "recapture"])
        R.current_input = f"#{i} {how} {m.__name__} as {name}"
        before = dict(global_bindings)
        if how == "capture_as_macro":
            node = capture_as_macro(m); name = m.__name__
        elif how == "recapture" and live:
            old = rng.choice(live); m = old[1]; name = Q.scrub_uuid(old[0])
            t = capture_macro(m, old[0]); node = run(code_of(t))
        else:
            if how == "h[]":
                e = MacroExpander({**NAMES, name: m}, "<vq>")
                t = e.visit(ast.Expression(body=ast.fix_missing_locations(inv("vq_q", inv("vq_h", ast.Name(id=name, ctx=ast.Load())))))).body
                t = [n for n in ast.walk(t) if is_captured_macro(n)]
                if not R.check(len(t) == 1, "the macro captured by h[] is not recognised", R.current_input): continue
                t = t[0]
            else: t = capture_macro(m, name)
            k = is_captured_macro(t)
            R.check(bool(k) and k[0] == name and k[1] != name and isinstance(k[2], bytes) and is_captured_value(t) is False, "a captured macro is not recognised", R.current_input, repr(k)[:300])
            c = code_of(t); node = run(c)
            R.check(run(c).id == node.id == k[1], "another name at the second lookup", R.current_input)
        R.check(type(node) is ast.Name and node.id.isidentifier() and node.id.startswith(name), "the name of a captured macro", R.current_input, dump(node))
        R.check(node.id not in before and node.id not in [x for x, _ in live], "the name of a captured macro is not fresh", R.current_input, node.id)
        R.check(all(global_bindings.get(k) is v for k, v in before.items()), "other bindings change", R.current_input)
        live.append((node.id, m))
        for nm, want in rng.sample(live, min(3, len(live))):
            e = MacroExpander({}, "<other>")
            R.check(e.isbound(nm) is want, "a captured macro is bound to another function", f"{R.current_input}: {nm}")
            out = e.visit(ast.Expression(body=ast.fix_missing_locations(inv(nm, ast.Constant(value=0)))))
            R.check(isinstance(out.body, ast.Constant) and out.body.value == want.__name__, "a captured macro expands as another", f"{R.current_input}: {nm}")
    for nm, _ in live: global_bindings.pop(nm, None)
    for bad in (5, None, "mac", ast.Name(id="x")):
        R.raises(TypeError, lambda: capture_macro(bad, "x"), "capture of something that cannot be called", repr(bad))
        R.raises(TypeError, lambda: capture_as_macro(bad), "capture of something that cannot be called", repr(bad))
    R.raises(Exception, lambda: capture_macro(lambda tree, **kw: tree, "x"), "a macro that cannot be stored", "lambda")

@case("C03", "trees that are not captures")
def negatives(R):
    from rt import corpus
    for s, m in corpus.trees():
        for n in ast.walk(m):
            if is_captured_value(n) is not False or is_captured_macro(n) is not False: R.fail("ordinary code taken for a capture", s, dump(n)[:300])
            R.note(s)
    for s in ["lookup_value(('x', b''))", "quotes.lookup_value(('x', b''))", "mcpyrate.quote.lookup_value(('x', b''))", "other.quotes.lookup_value(('x', b''))", "mcpyrate.quotes.lookup_values(('x', b''))", "mcpyrate.quotes.lookup_value",
              "mcpyrate.quotes.lookup_macros(('x', 'y', b''))", "__import__('os').quotes.lookup_value(('x', b''))", "importlib('mcpyrate.quotes').quotes.lookup_value(('x', b''))", "mcpyrate.quotes.x.lookup_macro(('x', 'y', b''))"]:
        for n in ast.walk(ast.parse(s)): R.check(is_captured_value(n) is False and is_captured_macro(n) is False, "ordinary code taken for a capture", s)
    for s, k in [("mcpyrate.quotes.lookup_value(('x', b'1'))", ("x", b"1")), ("__import__('mcpyrate.quotes', globals(), None, (), 0).quotes.lookup_value(('x', b'1'))", ("x", b"1")), ("mcpyrate.quotes.capture_value(f(1), 'f(1)')", ("f(1)", None)),
                 ("__import__('mcpyrate.quotes', globals(), None, (), 0).quotes.capture_value(x, 'x')", ("x", None))]:
        R.eq(is_captured_value(ast.parse(s, mode="eval").body), k, "a capture is not recognised", s)
    for s in ["mcpyrate.quotes.lookup_macro(('x', 'x_1', b'1'))", "__import__('mcpyrate.quotes', globals(), None, (), 0).quotes.lookup_macro(('x', 'x_1', b'1'))"]:
        R.eq(is_captured_macro(ast.parse(s, mode="eval").body), ("x", "x_1", b"1"), "a macro capture is not recognised", s)
