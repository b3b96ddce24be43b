from rt.lib import *
from rt import corpus, gen
from mcpyrate.astdumper import dump as mdump
from mcpyrate.core import Done
from mcpyrate.markers import ASTMarker
import mcpyrate

NS = {k: v for k, v in vars(ast).items() if isinstance(v, type)}
for _k in ("Ellipsis", "Num", "Str", "Bytes", "NameConstant", "Index", "ExtSlice"): NS.pop(_k, None)
NS.update(Done=Done, ASTMarker=ASTMarker)

def one(R, tree, src, fid=None):
    R.current_input = src
    before = dump(tree)
    outs = {}
    for ml in (True, False):
        for at in (False, True):
            R.note((src, ml, at))
            try: t = mdump(tree, multiline=ml, include_attributes=at)
            except Exception as e: R.fail("dump fails", src, repr(e), fid); return
            if not isinstance(t, str): R.fail("not a string", src, repr(t), fid); return
            outs[ml, at] = t
            if not ml and "\n" in t: R.fail("single-line dump has several lines", src, t, fid)
            try: back = eval("(" + t + ")", dict(NS))
            except Exception as e: R.fail("the dump does not evaluate", src, f"{e!r}\n{t[:1500]}", fid); return
            d = ast_diff(tree, back, kind=True)
            if d: R.fail("the dump evaluates to a different tree", src, f"{d}\n{t[:1500]}", fid)
            pairs = zip([x for r in (tree if isinstance(tree, list) else [tree]) for x in ast.walk(r)], [x for r in (back if isinstance(back, list) else [back]) for x in ast.walk(r)])
            for a, b in pairs:
                for k in a._attributes:
                    if at and getattr(a, k, None) != getattr(b, k, None): R.fail("attributes are not included", src, (k, type(a).__name__, t[:800]), fid); break
                    if not at and k in b.__dict__: R.fail("attributes are included unasked", src, (k, t[:800]), fid); break
            try: c = mdump(tree, multiline=ml, include_attributes=at, color=True)
            except Exception as e: R.fail("coloured dump fails", src, repr(e), fid); continue
            if strip_ansi(c) != t: R.fail("coloured dump differs", src, f"{c!r}\n{t!r}"[:3000], fid)
            # ignoring layout, both forms are the same
    squash = lambda s: re.sub(r",\n +", ", ", s)
    if "\\n" not in outs[False, False] and squash(outs[True, False]) != outs[False, False]: R.fail("multi-line and single-line dumps differ in more than line breaks", src, outs[True, False][:800], fid)
    if dump(tree) != before: R.fail("dump modifies the tree", src)
    if mdump(tree) != outs[True, False]: R.fail("default options", src)

@case("C19", "all corpus snippets; all nodes of every 5th; the statement lists")
def snippets(R):
    for i, (s, m) in enumerate(corpus.trees()):
        one(R, m, s); one(R, m.body, "list " + s)
        if i % 5 == 0:
            for n in ast.walk(m): one(R, n, f"{type(n).__name__} in {s}")

@case("C19", "random modules and expressions")
def randoms(R):
    for m, s in gen.modules(R.rng(), 120 if not R.deep else 2500): one(R, m, s)
    for e, s in gen.exprs(R.rng(), 200 if not R.deep else 4000, 4): one(R, e, s)

@case("C19", "all constant values; nodes without location or with missing fields; markers; nested lists; bad input")
def corner(R):
    rng = R.rng()
    vals = list(gen.CONSTS) + [float("inf"), complex(0, float("inf")), 1e308, -1.5, -0.0, "[x", "[", " lead", "\n", "a\nb", ",\n  ", b"[", "'", '"', "\x1b[31m", ("t", 1), frozenset({1})]
    for v in vals:
        if isinstance(v, frozenset): continue
        one(R, ast.Constant(value=v), repr(v)); one(R, ast.List(elts=[ast.Constant(value=v), ast.Constant(value=v)], ctx=ast.Load()), "list of " + repr(v)); one(R, [ast.Constant(value=v)], "[Constant] " + repr(v))
        one(R, ast.Global(names=[str(v), "b"]), "Global " + repr(v))
    for t in (ast.Name(), ast.Name(id="x"), ast.Call(func=ast.Name(id="f")), ast.arguments(), [], [ast.Pass()], [ast.Pass(), ast.Break()], ast.List(elts=[]), Done(ast.Name(id="x")), [Done([ast.Pass()]), ASTMarker(None)], ast.Load(), ast.Dict(keys=[None, ast.Name(id="a")], values=[ast.Name(id="b"), ast.Name(id="c")]), ast.MatchSingleton(value=None), ast.Call(func=ast.Name(id="f"), args=[ast.List(elts=[[ast.Name(id="x")]])], keywords=[])):
        one(R, t, repr(t)[:60] + " " + dump(t)[:200])
    for bad in (None, 1, "x", (ast.Pass(),), {"a": 1}, ast.Name, object(), b"x", iter([])):
        R.raises(TypeError, lambda: mdump(bad), "non-AST accepted", repr(bad))
    R.check(mcpyrate.dump is mdump, "the top-level alias", "mcpyrate.dump")
