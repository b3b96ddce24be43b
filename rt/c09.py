from rt.lib import *
from rt import corpus, gen
from mcpyrate.markers import ASTMarker, get_markers, delete_markers, check_no_markers_remaining
from mcpyrate.core import MacroExpanderMarker, Done, MacroExpansionError, global_postprocess, add_postprocessor, remove_postprocessor
from mcpyrate.expander import expand_macros, MacroExpander, namemacro, parametricmacro
import mcpyrate.core as core

class M1(ASTMarker): pass
class M2(M1): pass
class M3(MacroExpanderMarker): pass
class M4(ASTMarker):
    def __init__(self, body=None, extra=None):
        super().__init__(body); self.extra = extra; self._fields = ["body", "extra"]
CLS = [ASTMarker, M1, M2, M3, Done, MacroExpanderMarker]

def plant(rng, tree, n, classes=CLS):
    """Wrap n random nodes (or runs of statements) in markers."""
    for _ in range(n):
        slots = []
        for x in (y for t in (tree if isinstance(tree, list) else [tree]) for y in ast.walk(t)):
            for f, v in ast.iter_fields(x):
                if isinstance(v, (ast.expr, ast.arguments, ast.pattern, ASTMarker)): slots.append((x, f, None))
                elif isinstance(v, list):
                    for i, y in enumerate(v):
                        if isinstance(y, (ast.stmt, ast.expr, ASTMarker, ast.pattern, ast.keyword, ast.withitem, ast.alias)): slots.append((x, f, i))
        if isinstance(tree, list): slots += [(tree, None, i) for i in range(len(tree))]
        if not slots: return
        x, f, i = rng.choice(slots); C = rng.choice(classes)
        l = x if f is None else getattr(x, f)
        if i is None: setattr(x, f, C(l))
        elif isinstance(l[i], ast.stmt) and rng.random() < .4:
            j = min(len(l), i + rng.randrange(0, 4)); l[i:j] = [C(l[i:j])]
        else: l[i] = C(l[i])

def ref_get(t, cls):
    out = []
    def go(x):
        if isinstance(x, list):
            for y in x: go(y)
        elif isinstance(x, ast.AST):
            if isinstance(x, cls): out.append(x)
            for f, v in ast.iter_fields(x): go(v)
    go(t); return out
def ref_del(t, cls):
    """Copy with markers of cls replaced by their content; lists spliced."""
    if isinstance(t, list):
        out = []
        for y in t:
            r = ref_del(y, cls)
            if isinstance(r, list) and isinstance(y, ast.AST): out += r
            elif r is None and isinstance(y, ast.AST): pass
            else: out.append(r)
        return out
    if isinstance(t, ast.AST):
        if isinstance(t, cls): return ref_del(t.body, cls)
        n = copy.copy(t)
        for f, v in ast.iter_fields(t): setattr(n, f, ref_del(v, cls))
        return n
    return t
def deepdump(x):
    if isinstance(x, list): return "[" + ",".join(map(deepdump, x)) + "]"
    if isinstance(x, ast.AST): return type(x).__name__ + "(" + ",".join(f"{f}={deepdump(v)}" for f, v in ast.iter_fields(x)) + ")"
    return repr(x)

@case("C09", "random modules and corpus snippets with 0..6 markers of 6 classes wrapped around nodes and statement runs, nested; every class queried and deleted")
def tools(R):
    rng = R.rng()
    src = [m for _, m in corpus.trees()] + [m for m, _ in gen.modules(rng, 150 if not R.deep else 2500)]
    for m0 in src:
        m = copy.deepcopy(m0)
        tree = m if rng.random() < .5 else m.body
        plant(rng, tree, rng.randrange(7))
        inp = deepdump(tree)[:4000]; R.current_input = inp
        before = deepdump(tree)
        for C in CLS + [M4]:
            R.note((C.__name__, inp))
            got = get_markers(tree, C); want = ref_get(tree, C)
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)): R.fail(f"get_markers({C.__name__})", inp, (got, want))
            try: check_no_markers_remaining(tree, filename="file.py", cls=C); raised = False
            except MacroExpansionError as e: raised = True; msg = strip_ansi(str(e))
            if raised != bool(want): R.fail(f"check_no_markers_remaining({C.__name__})", inp, raised)
            elif raised and "file.py" not in msg: R.fail("the report does not name the file", inp, msg)
        if get_markers(tree) != ref_get(tree, ASTMarker): R.fail("get_markers()", inp)
        try: check_no_markers_remaining(tree, filename="f"); raised = False
        except MacroExpansionError: raised = True
        if raised != bool(ref_get(tree, ASTMarker)): R.fail("check_no_markers_remaining()", inp)
        if deepdump(tree) != before: R.fail("inspecting markers changed the tree", inp)
        C = rng.choice(CLS)
        want = deepdump(ref_del(tree, C))
        kept = {id(x) for t in (tree if isinstance(tree, list) else [tree]) for x in ast.walk(t) if isinstance(x, ast.AST) and not isinstance(x, C)}
        got = delete_markers(tree, C) if C is not ASTMarker or rng.random() < .5 else delete_markers(tree)
        if deepdump(got) != want: R.fail(f"delete_markers({C.__name__})", inp, f"got  {deepdump(got)[:1500]}\nwant {want[:1500]}")
        else:
            now = {id(x) for t in (got if isinstance(got, list) else [got]) for x in ast.walk(t)}
            if now != kept: R.fail("delete_markers replaced nodes it should keep", inp)
        if len(R.failures) > 3: break
    e = ast.Name(id="x")
    R.check(delete_markers(M1(e), M1) is e, "a marker at the root", "M1(x)")
    R.check(delete_markers(M1(M2(Done(e)))) is e, "nested markers at the root", "M1(M2(Done(x)))")
    m = Done(e); R.check(delete_markers(m, M1) is m and m.body is e, "markers of other classes stay", "Done(x)")
    l = [ast.Pass(), Done(None), M1([]), Done([ast.Break(), Done([ast.Continue()])])]
    r = delete_markers(l)
    R.check(r is l and [type(x).__name__ for x in l] == ["Pass", "Break", "Continue"], "markers without content in a list", "list", deepdump(l))
    m4 = ast.parse("a\nb").body; m4[0] = M4(m4[0], extra=ast.Name(id="q")); R.eq(len(get_markers(m4, M4)), 1, "markers with several fields", "M4")

# ---- expansion leaves no expander marker
def once(tree, *, expander, **kw): return expander.visit_once(tree)
def once2(tree, *, expander, **kw): return expander.visit_once(expander.visit_once(tree))
def rec(tree, *, expander, **kw): return expander.visit_recursively(tree)
def donewrap(tree, **kw): return Done(tree)
def drop(tree, **kw): return None
def ident(tree, **kw): return tree
def twice(tree, **kw): return [Done(x) for x in tree] + [copy.deepcopy(x) for x in tree] if isinstance(tree, list) else Done(ast.Tuple(elts=[Done(tree), tree]))
def nested(tree, **kw): return Done(Done(M3(tree)))
@namemacro
def nm(tree, *, syntax, **kw): return tree if syntax == "name" else Done(tree)
@namemacro
def nmdrop(tree, **kw): return None
@namemacro
def nmdone(tree, **kw): return Done(ast.Attribute(value=ast.Name(id="q"), attr="nm"))
BIND = dict(once=once, once2=once2, rec=rec, donewrap=donewrap, drop=drop, ident=ident, twice=twice, nested=nested, nm=nm, nmdrop=nmdrop, nmdone=nmdone)
def macro_program(rng, depth):
    ms = list(BIND)[:9]
    def e(d):
        k = rng.random()
        if d == 0 or k < .3: return rng.choice(["x", "nm", "nmdrop", "nmdone", "1"])
        if k < .7: return f"{rng.choice(ms)}[{e(d-1)}]"
        return f"f({e(d-1)}, [{e(d-1)}])[{e(d-1)}]"
    def s(d, ind):
        k = rng.random(); p = "    " * ind
        if d == 0 or k < .35: return p + rng.choice([e(2), f"y = {e(2)}", f"nmdone = {e(1)}", f"nm = {e(1)}", f"for nm in {e(1)}: pass", f"del nmdone", f"nm.z += 1"])
        if k < .65: return p + f"with {', '.join(rng.sample(ms, rng.randrange(1, 3)))}:\n" + "\n".join(s(d - 1, ind + 1) for _ in range(rng.randrange(1, 3)))
        if k < .8: return "".join(p + f"@{x}\n" for x in rng.sample(ms, rng.randrange(1, 3))) + p + f"def g(a={e(1)}):\n" + s(d - 1, ind + 1)
        return p + f"if {e(2)}:\n" + s(d - 1, ind + 1) + f"\n{p}    pass"
    return "\n".join(s(depth, 0) for _ in range(rng.randrange(1, 4)))

@case("C09", "random programs over 9 marker-making macros in every syntax, nesting <= 3, with and without source locations")
def expansion(R):
    rng = R.rng()
    for t in range(500 if not R.deep else 8000):
        src = macro_program(rng, 3)
        m = ast.parse(src)
        strip = rng.random() < .3
        if strip:
            for n in ast.walk(m):
                for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"): n.__dict__.pop(a, None)
        R.current_input = src; R.note((src, strip))
        try: got = quiet(expand_macros, m, dict(BIND), filename="vq.py")
        except Exception as e:
            R.fail("expansion fails", src, "".join(traceback.format_exception(e))[-2500:]); continue
        left = ref_get(got, MacroExpanderMarker)
        if left: R.fail("expander markers survive", src, [deepdump(x)[:200] for x in left])
        if len(R.failures) > 3: break
    # unrelated markers are not the expander's to delete
    def mark(tree, **kw): return M1(tree)
    got = expand_macros(ast.parse("mark[x]"), dict(mark=mark), filename="vq.py")
    R.check(len(get_markers(got, M1)) == 1, "a foreign marker was deleted", "mark[x]")

@case("C09", "random registration histories over 5 hooks and several expansions")
def postprocessors(R):
    rng = R.rng()
    saved = list(core.global_postprocessors) if hasattr(core, "global_postprocessors") else []
    calls = []
    def mk(i):
        def hook(tree):
            calls.append((i, type(tree).__name__))
            assert isinstance(tree, (ast.AST, list))
            if isinstance(tree, ast.Module): tree = ast.Module(body=tree.body + [ast.Expr(value=ast.Constant(value=i, lineno=1, col_offset=0, end_lineno=1, end_col_offset=0), lineno=1, col_offset=0, end_lineno=1, end_col_offset=0)], type_ignores=[])
            return tree
        return hook
    hooks = [mk(i) for i in range(5)]
    try:
        for t in range(200):
            reg = []
            for h in hooks: remove_postprocessor(h)
            log = []
            for _ in range(rng.randrange(1, 14)):
                i = rng.randrange(5); k = rng.random()
                if k < .45:
                    add_postprocessor(hooks[i]); log.append(("add", i))
                    if i not in reg: reg.append(i)
                elif k < .65:
                    remove_postprocessor(hooks[i]); log.append(("rm", i))
                    if i in reg: reg.remove(i)
                else:
                    calls.clear(); how = rng.choice(["expand", "post", "nobind"])
                    log.append(how); R.note(str(log))
                    m = ast.parse("a = ident[b]\nwith once:\n    c")
                    if how == "post": r = global_postprocess(m)
                    else: r = quiet(expand_macros, m, dict(ident=ident, once=once) if how == "expand" else {}, filename="f")
                    if [c[0] for c in calls] != reg: R.fail("postprocessors run", log, f"ran {calls} registered {reg}")
                    tail = [s.value.value for s in r.body if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)]
                    if tail != reg: R.fail("each postprocessor gets the previous one's result", log, (tail, reg))
            if len(R.failures) > 3: break
        # markers are deleted before the user's hooks run
        for h in hooks: remove_postprocessor(h)
        seen = []
        def look(tree): seen.append(len(ref_get(tree, MacroExpanderMarker))); return tree
        add_postprocessor(look)
        try: quiet(expand_macros, ast.parse("x = once[y]\ndonewrap[z]"), dict(BIND), filename="f")
        finally: remove_postprocessor(look)
        R.eq(seen, [0], "expander markers seen by a postprocessor", "once[y]")
        # whole pipeline: once per module
        from mcpyrate.compiler import expand
        for src in ("x = 1", "from mcpyrate.debug import macros\nx = 1"):
            calls.clear(); add_postprocessor(hooks[0])
            try: expand(src, "vqf.py")
            finally: remove_postprocessor(hooks[0])
            R.eq([c[0] for c in calls], [0], "postprocessor runs per expanded module", src)
    finally:
        for h in hooks: remove_postprocessor(h)
