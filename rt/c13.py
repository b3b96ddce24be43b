"""C13: multi-phase compilation."""
from rt.lib import *
from mcpyrate import multiphase
from mcpyrate.multiphase import iswithphase, extract_phase, ismultiphase, detect_highest_phase, isdebug, multiphase_expand
from mcpyrate.coreutils import split_futureimports, inject_after_futureimports, isfutureimport
from mcpyrate.compiler import expand

HEAD = "from mcpyrate.multiphase import macros, phase"

@case("C13", "all header forms: item kinds x arguments x as-part x number of items")
def withphase_form(R):
    S = lambda s: ast.parse(s + ": pass" if not s.endswith(":") else s + " pass").body[0]
    tab = {"with phase[1]": 1, "with phase[2]": 2, "with phase[10]": 10, "with phase[1,]": 1, "with phase[0]": False, "with phase[-1]": False, "with phase[1.0]": False, "with phase[True]": False, "with phase['1']": False, "with phase[n]": False, "with phase[1, 2]": False, "with phase[1:2]": False,
           "with phase": False, "with phase()": False, "with phase(1)": False, "with phase[1] as x": False, "with phase[1], other": False, "with other, phase[1]": False, "with phase[1], phase[2]": False, "with m.phase[1]": False, "with phase.x[1]": False, "with phase[1][2]": False, "with other[1]": False, "with Phase[1]": False,
           "with phase[1 + 1]": False, "with phase[()]": False, "with phase[(1,)]": 1, "with phase[[1]]": False, "with phase[None]": False, "with phase[...]": False, "with phase[b'1']": False, "with phase[1j]": False, "with phase[*x]": False, "with phase[10**3]": False, "with phase[0x1f]": 31, "if phase[1]": False, "for x in phase[1]": False, "while phase[1]": False, "class phase": False,
           "with phases[1]": False, "with (phase[3])": 3, "with phase[f'1']": False, "with phase[1] if x else y": False}
    for s, want in tab.items():
        try: st = S(s)
        except SyntaxError: continue
        got = iswithphase(st, filename="f")
        R.check((got is False) if want is False else (got == want and type(got) is int), "iswithphase", s, f"expected {want!r} got {got!r}")
        for pad in (["x = 1"], []):
            t = ast.parse("\n".join(pad + [s + ": pass"]))
            R.eq(detect_highest_phase(t, filename="f"), want or None, "detect_highest_phase", s)
    st = ast.parse("async def f():\n async with phase[1]: pass").body[0].body[0]
    R.check(iswithphase(st, filename="f") is False, "async with is not a phase block", "async with phase[1]")
    rng = R.rng()
    for _ in range(300):
        ns = [rng.choice([0, 1, 2, 3, 7]) for _ in range(rng.randrange(6))]
        t = ast.parse("\n".join(f"with phase[{n}]: pass" if rng.random() < .7 or n else "x" for n in ns))
        w = max([iswithphase(s, filename="f") or 0 for s in t.body], default=0) or None
        R.eq(detect_highest_phase(t, filename="f"), w, "highest phase", str(ns))

@case("C13", "all forms of the import that requests multi-phase or debug mode")
def requests(R):
    for s, w in [(HEAD, True), ("from mcpyrate.multiphase import macros, x, phase", True), ("from mcpyrate.multiphase import macros, phase as p", True), ("from mcpyrate.multiphase import phase", False), ("from mcpyrate.multiphase import macros, x", False), ("from .mcpyrate.multiphase import macros, phase", False), ("from other import macros, phase", False), ("import mcpyrate.multiphase", False),
                 ("x = 1\n" + HEAD, True), ("if x:\n    " + HEAD, False), ("with phase[1]:\n    " + HEAD, False), ("", False), ("from mcpyrate.multiphase import macros", False), ("from a import macros, b\n" + HEAD, True)]:
        t = ast.parse(s); b = dump(t)
        R.eq(ismultiphase(t), w, "ismultiphase", s)
        R.check(dump(t) == b, "ismultiphase changes the tree", s)
        s2 = s.replace("mcpyrate.multiphase", "mcpyrate.debug").replace("phase", "step_phases").replace("with step_phases[1]", "with x")
        R.eq(isdebug(ast.parse(s2)), w, "isdebug", s2)
        R.eq(isdebug(t), False, "isdebug", s); R.eq(ismultiphase(ast.parse(s2)), False, "ismultiphase", s2)

DOCS = ["", "'doc'", "'''long\ndoc'''"]
FUT = ["from __future__ import annotations", "from __future__ import division, annotations", "from __future__ import generator_stop"]
@case("C13", "random bodies: docstring, 0..3 future-imports, statements; injected statement lists of length 0..3")
def futureimports(R):
    rng = R.rng()
    for _ in range(1500):
        doc = rng.choice(DOCS); fut = [rng.choice(FUT) for _ in range(rng.randrange(4))]
        rest = [rng.choice(["x = 1", "'not doc'", "import __future__", "from a import b", "def f(): pass", "x"]) for _ in range(rng.randrange(4))]
        if rest and not doc and not fut and rest[0] == "'not doc'": rest[0] = "x = 2"
        if rng.random() < .2 and rest: rest.append(FUT[0])            # out of place: belongs to the rest
        src = "\n".join(([doc] if doc else []) + fut + rest)
        body = ast.parse(src).body if rng.random() < .9 or not src else ast.parse(src).body
        nd = 1 if doc else 0
        while rest and rest[0] in FUT: fut.append(rest.pop(0))
        b0 = list(body)
        d, f, r = split_futureimports(body)
        R.note(src)
        if not (d == b0[:nd] and f == b0[nd:nd + len(fut)] and r == b0[nd + len(fut):] and body == b0): R.fail("split_futureimports", src, f"{[dump(x) for x in (d, f, r)]}")
        n = rng.randrange(4)
        new = [ast.parse(f"new{i}").body[0] for i in range(n)]
        got = inject_after_futureimports(new if n != 1 or rng.random() < .5 else new[0], body)
        if not (isinstance(got, list) and got == d + f + new + r and body == b0): R.fail("inject_after_futureimports", src, dump(got))
    for bad, body in [(1, []), ("x", []), (None, []), (ast.Name("x"), []), (ast.Pass(), ()), (ast.Pass(), None), ([], ast.Pass())]:
        R.raises(TypeError, lambda: inject_after_futureimports(bad, body), "malformed arguments accepted", repr((bad, body)))
    for s, w in [("from __future__ import x", True), ("from __future__ import a, b", True), ("import __future__", False), ("from future import x", False), ("x", False)]:
        R.eq(bool(isfutureimport(ast.parse(s).body[0])), w, "isfutureimport", s)

def genbody(rng, maxphase=4):
    """[(phase, [statement sources])] top-level items; every statement logs its number."""
    items, k = [], 0
    for _ in range(rng.randrange(1, 8)):
        n = rng.choice([0, 0] + list(range(1, maxphase + 1)))
        st = []
        for _ in range(rng.randrange(1, 4) if n else 1):
            st.append(rng.choice([f"L.append((__phase__, {k}))", f"L.append((__phase__, {k})); v{k} = __phase__", f"if True:\n    L.append((__phase__, {k}))", f"def f{k}(): return {k}\nL.append((__phase__, f{k}()))", f"with open('/dev/null') as z:\n    L.append((__phase__, {k}))"]))
            k += 1
        items.append((n, st))
    return items, k
def render(items, style=lambda n: f"with phase[{n}]" if n % 2 else f"with phase[{n},]"):
    return "\n".join(("\n".join(st)) if n == 0 else style(n) + ":\n" + "\n".join(textwrap.indent(s, "    ") for s in st) for n, st in items)

@case("C13", "random module bodies with blocks of phases 1..4 through expand() and import; docstring and future-imports; statements executed at each phase logged")
def phases_run(R):
    import mcpyrate.activate
    rng = R.rng()
    with scratch() as d:
        write(d, "vqlog.py", "L = []\n")
        with on_path(d):
            import vqlog
            for i in range(500 if R.deep else 130):
                if R.left() < 5: break
                items, k = genbody(rng)
                doc, fut = rng.choice(["", "'the doc'"]), rng.choice([[], ["from __future__ import annotations"], ["from __future__ import annotations", "from __future__ import generator_stop"]])
                items = [(9, ["from vqlog import L"])] + items if any(n for n, _ in items) else [(0, ["from vqlog import L"])] + items
                hi = max(n for n, _ in items if n != 9) if any(n and n != 9 for n, _ in items) else 0
                items = [(hi if n == 9 else n, s) for n, s in items]
                where = rng.choice([0, 0, 1])
                body = render(items)
                src = "\n".join(([doc] if doc else []) + fut + ([HEAD] if where == 0 else []) + [body] + ([HEAD] if where else []) + ["final_phase = __phase__", "def ann(x: undefined_name_for_annotations): pass" if fut else "pass"])
                want = []
                ids = lambda s: [int(x) for x in re.findall(r"L\.append\(\(__phase__, (?:f)?(\d+)", s)]
                for ph in range(hi, -1, -1):
                    for n, st in items:
                        if n >= ph or ph == 0: want += [(ph, j) for s in st for j in ids(s)]
                del vqlog.L[:]
                R.note(src)
                name = f"vquse{i}"
                write(d, name + ".py", src)
                importlib.invalidate_caches()
                try: m = importlib.import_module(name)
                except Exception as e: R.fail("a valid multi-phase module fails", src, "".join(traceback.format_exception(e))[-2500:]); continue
                if vqlog.L != want: R.fail("code run at each phase", src, f"expected {want}\n     got {vqlog.L}")
                if getattr(m, "final_phase", None) != 0 or m.__phase__ != 0: R.fail("__phase__ at phase 0", src, vars(m).get("final_phase"))
                if m.__doc__ != ("the doc" if doc else None): R.fail("module docstring", src, repr(m.__doc__))
                if sys.modules.get(name) is not m: R.fail("module table entry after the import", src)
                missing = [j for n, st in items for s in st for j in re.findall(r"def f(\d+)", s) if not hasattr(m, f"f{j}")]
                if missing: R.fail("definitions missing from the final module", src, missing)

@case("C13", "random bodies: the phase-0 tree against the unwrapped source, statement by statement")
def phase_zero_tree(R):
    rng = R.rng()
    for i in range(600 if R.deep else 200):
        if R.left() < 5: break
        items, k = genbody(rng)
        items = [(n, [s.replace("L.append", "print") if False else s.replace("L.append((", "str((") for s in st]) for n, st in items]
        doc, fut = rng.choice(["", "'the doc'"]), rng.choice([[], ["from __future__ import annotations"]])
        pre = ([doc] if doc else []) + fut
        # nested blocks that only look like phase blocks stay as they are
        extra = rng.choice([[], ["with open('/dev/null') as q, open('/dev/null'): pass"], ["def g():\n    x = 1"], ["if False:\n    y = 2"]])
        src = "\n".join(pre + [HEAD, render(items)] + extra)
        want = ast.parse("\n".join(pre + ["__phase__ = 0", "import mcpyrate.multiphase"] + [s for n, st in items for s in st] + extra))
        had = rng.choice([None, "absent", "module", "none", "falsy"])
        name = "vq_self"
        class Falsy(types.ModuleType):
            def __len__(self): return 0
        sentinel = {"module": types.ModuleType(name), "none": None, "falsy": Falsy(name)}.get(had, None)
        sys.modules.pop(name, None)
        if had in ("module", "none", "falsy"): sys.modules[name] = sentinel
        R.note(f"{had}\n{src}")
        try:
            direct = rng.random() < .5
            tree = ast.parse(src)
            out = multiphase_expand(tree, filename="vq.py", self_module=name) if direct else expand(src, "vq.py", self_module=name)
            df = ast_diff(want, out)
            if df: R.fail("phase-0 tree", src, df + "\n" + ast.unparse(out))
            now = sys.modules.get(name, "absent!")
            if now is not (sentinel if had in ("module", "none", "falsy") else "absent!"): R.fail("module table entry is not what it was", f"{had}: {src}", repr(now))
        except Exception as e: R.fail("multi-phase expansion fails", src, "".join(traceback.format_exception(e))[-2000:])
        finally: sys.modules.pop(name, None)

@case("C13", "failures (run-time, macro, syntax of macro arguments, missing self-import, SystemExit) at each phase 0..3 with 4 states of the module table")
def failures(R):
    rng = R.rng()
    bad = {"run": "1/0", "exit": "import sys; sys.exit(3)", "kbd": "raise KeyboardInterrupt()", "macro": "from vqmm import macros, boom\nboom[1]", "import": "from vq_missing_zz import macros, q", "self": "from __self__ import macros, not_there", "compile": "return 1", "phase": "if True:\n    with phase[1]:\n        pass"}
    with scratch() as d:
        write(d, "vqmm.py", "def boom(tree, **kw): raise ValueError('boom')\n")
        write(d, "vqpk/__init__.py", "")
        with on_path(d):
            import vqpk
            for kind, code in bad.items():
                for at in range(4):
                    for had in ("absent", "module", "none"):
                        for name in ("vq_self", "vqpk.vq_self"):
                            items = [(3, ["a = 3"]), (2, ["b = 2"]), (1, ["c = 1"]), (0, ["e = 0"])]
                            items.insert(rng.randrange(5), (at, [code]))
                            src = HEAD + "\n" + render(items)
                            if kind in ("run", "exit", "kbd", "compile") and at == 0: continue       # not executed/compiled by the expansion
                            if kind == "self" and at == 0: pass
                            sentinel = types.ModuleType(name) if had == "module" else None
                            sys.modules.pop(name, None)
                            if had != "absent": sys.modules[name] = sentinel
                            vars(vqpk).pop("vq_self", None)
                            if had == "module": vqpk.vq_self = sentinel
                            inp = f"{kind} at phase {at}, entry {had}, name {name}\n{src}"
                            R.note(inp)
                            try: quiet(expand, src, os.path.join(d, "vq.py"), self_module=name)
                            except BaseException as e: pass
                            else: R.fail("no error", inp)
                            now = sys.modules.get(name, "absent!")
                            if now is not ("absent!" if had == "absent" else sentinel): R.fail("module table entry is not what it was after a failure", inp, repr(now))
                            if vars(vqpk).get("vq_self") is not (sentinel if had == "module" else None): R.fail("the parent package is changed", inp)
                            sys.modules.pop(name, None)

@case("C13", "extract_phase over random bodies, one phase at a time")
def extraction(R):
    rng = R.rng()
    for i in range(500 if R.deep else 200):
        items, k = genbody(rng)
        fut = rng.choice([[], ["from __future__ import annotations"]])
        src = "\n".join(fut + [render(items, style=lambda n: rng.choice([f"with phase[{n}]", f"with phase[{n},]"]))])
        t = ast.parse(src)
        hi = detect_highest_phase(t, filename="f") or 0
        R.note(src)
        for ph in range(hi, 0, -1):
            got = extract_phase(t, filename="f", phase=ph)
            want = ast.parse("\n".join(fut + [s for n, st in items if n >= ph for s in st]))
            df = ast_diff(want, got)
            if df: R.fail(f"extracted phase", f"phase {ph} of\n{src}", df + "\n" + ast.unparse(got)); break
            if got is t: R.fail("extract_phase returns its input", src)
            rest = ast.parse("\n".join(fut + [render([(min(n, ph - 1), st) for n, st in items], style=lambda n: f"with phase[{n}]")]))
            for x in (rest, t):
                pass
            norm = lambda tr: [(iswithphase(s, filename="f") or 0, [dump(x) for x in (s.body if iswithphase(s, filename="f") else [s])]) for s in tr.body]
            if norm(rest) != norm(t): R.fail("what remains after extracting a phase", f"phase {ph} of\n{src}", ast.unparse(t)); break
            # no shared nodes between the extracted part and the rest
            a = {id(x) for s in got.body if not isfutureimport(s) for x in ast.walk(s) if x._fields}; b = {id(x) for x in ast.walk(t) if x._fields}
            if a & b: R.fail("lifted code shares nodes with the extracted phase", src); break
        if extract_phase(t, filename="f", phase=0) is not t: R.fail("phase 0", src)
    t = ast.parse("x")
    for badv, exc in [(-1, ValueError), ("1", TypeError), (1.0, TypeError), (None, TypeError)]:
        R.raises(exc, lambda: extract_phase(t, filename="f", phase=badv), "malformed phase number accepted", repr(badv))

@case("C13", "macros defined at each phase and used at the next, chains of length 1..4")
def self_imports(R):
    import mcpyrate.activate
    with scratch() as d:
        with on_path(d):
            for n in range(1, 5):
                parts = [HEAD]
                for ph in range(n, 0, -1):
                    use = f"from __self__ import macros, mac{ph + 1}\nU{ph} = mac{ph + 1}[{ph}]\n" if ph < n else ""
                    parts.append(f"with phase[{ph}]:\n" + textwrap.indent(use + f"import ast\ndef mac{ph}(tree, **kw):\n    return ast.BinOp(tree, ast.Add(), ast.Constant({ph * 10}))\n", "    "))
                parts.append("from __self__ import macros, mac1\nU0 = mac1[7]\nhas = [k for k in globals() if k.startswith('mac') and k != 'mcpyrate']\n")
                src = "\n".join(parts)
                write(d, f"vqch{n}.py", src); importlib.invalidate_caches()
                R.note(src)
                try: m = importlib.import_module(f"vqch{n}")
                except Exception as e: R.fail("chain of self-imports fails", src, "".join(traceback.format_exception(e))[-2500:]); continue
                R.eq([m.U0] + [getattr(m, f"U{ph}") for ph in range(1, n)], [17] + [ph + (ph + 1) * 10 for ph in range(1, n)], "values computed by macros of higher phases", src)
