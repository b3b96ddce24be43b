from rt.lib import *
from rt import corpus, gen
import warnings
warnings.simplefilter("ignore")
from mcpyrate.unparser import unparse, unparse_with_fallbacks, UnparserError
from mcpyrate.markers import ASTMarker
from mcpyrate import core

def fid_of(src): return hashlib.sha1(src.encode("utf-8", "replace")).hexdigest()[:12]

def roundtrip(R, tree, src, what, mode="exec", fid=None):
    R.current_input = src[:3000]
    R.note(src)
    before = ast.dump(tree)
    try: text = unparse(tree)
    except RecursionError: raise
    except Exception as e:
        R.fail(f"{what}: unparse fails", src, "".join(traceback.format_exception(e)[-3:]), fid); return False
    try: back = ast.parse(text) if mode == "exec" else ast.parse("(" + text.strip("\n") + "\n)", mode="eval").body
    except Exception as e:
        R.fail(f"{what}: output does not parse", src, f"{e!r}\n--- unparsed:\n{text[:2500]}", fid); return False
    want = tree if mode == "exec" else tree
    d = ast_diff(want, back)
    if d: R.fail(f"{what}: output parses to a different tree", src, f"{d}\n--- unparsed:\n{text[:2500]}", fid); return False
    R.check(ast.dump(tree) == before, f"{what}: unparse modifies its input", src)
    return True

def color(R, tree, src):
    try: a = unparse(tree)
    except Exception: return
    try: b = unparse(tree, color=True)
    except Exception as e: R.fail("coloured unparse fails", src, repr(e)); return
    R.check(strip_ansi(b) == a, "coloured output differs in more than colour codes", src, lambda: f"{a!r}\n{strip_ansi(b)!r}")

@case("C01", "about 500 hand-written snippets, one per syntactic corner")
def snippets(R):
    for s, m in corpus.trees():
        roundtrip(R, m, s, "snippet", fid="snip-" + fid_of(s))
        color(R, m, s)

@case("C01", "every hand-written expression in 20 enclosing contexts")
def contexts(R):
    ctxs = ["x = E", "f(E)", "[E]", "E.a", "E[0]", "x[E]", "-E", "E + E", "E ** E", "E if E else E", "lambda: E", "(E for x in E if E)", "{E: E}", "f'{E}'", "return_(E, *[E], k=E)", "await_(E)",
            "with E as f: pass", "for x in E: pass", "if E: pass\nelse:\n    E", "assert E, E", "@(E)\ndef f(a=E, *, b: E = E) -> E: return E", "x: E = E", "raise E from E", "match E:\n    case 1 if E: pass", "E(E)", "not E", "E and E or E", "E < E in E", "{**E}", "(z := E)", "(yield E)", "await E", "[x async for x in E]", "class C(E, m=E): pass", "while E: pass", "del x[E]", "type A = E", "print(*E, **E)", "x[E:E:E, E]", "try: pass\nexcept E: pass"]
    es = corpus.expr_sources()
    if not R.deep: es = es[:: 3]
    for e in es:
        for c in ctxs:
            s = c.replace("E", "(" + e + ")")
            try: m = ast.parse(s)
            except SyntaxError: continue
            roundtrip(R, m, s, "context", fid="ctx-" + fid_of(s))

@case("C01", "pairs of operators/forms nested in each operand position")
def nesting(R):
    ops = ["a + b", "a * b", "a ** b", "-a", "~a", "not a", "a and b", "a or b", "a < b", "a if b else c", "lambda: a", "(yield)", "(yield a)", "await a", "(a := b)", "a, b", "a.b", "a(b)", "a[b]", "1", "1.5", "1j", "'s'", "[a]", "{a}", "{}", "a | b", "a & b", "a << b", "a @ b", "a // b", "a in b", "a is b", "f'{a}'", "(a for a in b)", "[a for a in b]", "{a: b for a in c}", "*a, b", "...", "()", "(yield from a)", "-1", "a == b"]
    ctx = ["{} + q", "q + {}", "{} - q", "q - {}", "{} ** q", "q ** {}", "{} * q", "q * {}", "-{}", "~{}", "not {}", "{} and q", "q and {}", "q or {}", "{} or q", "{} < q", "q < {}", "q < {} < r", "{} if q else r", "q if {} else r", "q if r else {}", "lambda: {}", "lambda x={}: x", "(yield {})", "await {}", "(q := {})", "{}, q", "{}.q", "{}(q)", "q({})", "q(x={})", "q(*{})", "q(**{})", "{}[q]", "q[{}]", "q[{}:{}:{}]", "q[{}, r]", "[{}]", "{{{}}}", "{{{}: q}}", "{{q: {}}}", "{{**{}}}", "[*{}]", "[{} for x in q]", "[q for x in {}]", "[q for x in r if {}]", "{} in q", "q is not {}", "f'{{({})}}'", "{} @ q", "q | {}", "{} & q", "{} >> q", "q << {}", "x = {}", "x: {} = q", "return_({})", "for x in {}: pass", "with {}: pass", "with {} as z: pass", "assert {}", "if {}: pass", "del q[{}]", "@({})\ndef f(): pass", "(yield from {})", "class C({}): pass", "{} += q" ]
    for c in ctx:
        for o in ops:
            s = c.replace("{{", "\1").replace("}}", "\2").replace("{}", "(" + o + ")").replace("\1", "{").replace("\2", "}")
            try: m = ast.parse(s)
            except SyntaxError: continue
            roundtrip(R, m, s, "nesting", fid="nest-" + fid_of(s))

@case("C01", "random modules over all statement/expression/pattern forms, depth <= 4")
def random_modules(R):
    n = 1500 if not R.deep else 12000
    bad = 0
    for m, src in gen.modules(R.rng(), n):
        if not roundtrip(R, m, src, "random module"): bad += 1
        elif R.evals % 5 == 0: color(R, m, src)
        if bad > 3 or R.left() < 5: break

@case("C01", "random expressions of depth <= 5, unparsed on their own")
def random_exprs(R):
    n = 4000 if not R.deep else 40000
    bad = 0
    for e, src in gen.exprs(R.rng(), n, 5):
        m = ast.Module(body=[ast.Expr(value=e)], type_ignores=[])
        if not roundtrip(R, m, src, "random expression"): bad += 1
        elif not isinstance(e, (ast.Starred, ast.Slice)):
            if not roundtrip(R, e, src, "bare expression", mode="eval"): bad += 1
        if bad > 3: break

@case("C01", "standard library source files")
def stdlib(R):
    for p in stdlib_files(R, 120 if not R.deep else 1500):
        s = read_source(p)
        if s is None or len(s) > 150000: continue
        try: m = ast.parse(s)
        except SyntaxError: continue
        R.current_input = p
        R.note(p)
        try:
            text = unparse(m); d = ast_diff(m, ast.parse(text))
        except Exception as e: d = repr(e)
        if d: R.fail("stdlib file", p, d)
        if R.left() < 3: break

@case("C01", "all constants in all string/number shapes")
def constants(R):
    rng = R.rng()
    vals = list(gen.CONSTS) + [float(x) for x in ("1e16", "1e22", "1.7976931348623157e308", "5e-324", "123456789.123")] + [complex(0, x) for x in (0.0, 1e400, 1e22, 0.1)]
    alpha = "ab'\"\\\n\r\t\0{}\x7f\x85\xa0\u2028é€😀 #\x1b"
    for _ in range(300 if not R.deep else 5000): vals.append("".join(rng.choice(alpha) for _ in range(rng.randint(0, 12))))
    for _ in range(100): vals.append(bytes(rng.randrange(256) for _ in range(rng.randint(0, 8))))
    for _ in range(50): vals.append(rng.choice([rng.randrange(10**rng.randint(1, 40)), rng.random() * 10.0**rng.randint(-300, 300), complex(0, rng.random() * 10.0**rng.randint(-30, 30))]))
    for v in vals:
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v < 0: continue
        for wrap in (lambda c: ast.Expr(value=c), lambda c: ast.Assign(targets=[ast.Name(id="x", ctx=ast.Store())], value=c, type_comment=None), lambda c: ast.Expr(value=ast.Attribute(value=c, attr="b", ctx=ast.Load())),
                     lambda c: ast.FunctionDef(name="f", args=ast.parse("def f(): pass").body[0].args, body=[ast.Expr(value=c)], decorator_list=[], type_params=[])):
            m = ast.fix_missing_locations(ast.Module(body=[wrap(ast.Constant(value=v))], type_ignores=[]))
            roundtrip(R, m, repr(v) + " in " + type(m.body[0]).__name__, "constant", fid="const-" + fid_of(repr(v)))
        if isinstance(v, str):
            for q in (v, ):
                m = ast.fix_missing_locations(ast.Module(body=[ast.Expr(value=ast.JoinedStr(values=([ast.Constant(value=q)] if q else []) + [ast.FormattedValue(value=ast.Name(id="a", ctx=ast.Load()), conversion=-1, format_spec=None)]))], type_ignores=[]))
                roundtrip(R, m, "f-string text " + repr(v), "f-string constant", fid="fconst-" + fid_of(repr(v)))

@case("C01", "every statement and expression node of the corpus unparsed on its own; Expression and Interactive roots; lists")
def parts(R):
    for s, m in corpus.trees():
        for n in ast.walk(m):
            if isinstance(n, ast.stmt):
                try: t = unparse(n)
                except Exception as e: R.fail("statement node: unparse fails", s, repr(e), "part-" + fid_of(s)); continue
                R.note(s)
                try: back = ast.parse(textwrap.dedent(t) if False else t)
                except SyntaxError as e:
                    R.fail("statement node: does not parse", s, f"{e!r}\n{t}", "part-" + fid_of(s)); continue
                d = ast_diff(ast.Module(body=[n], type_ignores=[]), back)
                if d: R.fail("statement node: different tree", s, f"{d}\n{t}", "part-" + fid_of(s))
        if len(m.body) == 1 and isinstance(m.body[0], ast.Expr):
            try: x = ast.parse(s, mode="eval")
            except SyntaxError: continue
            R.note("eval " + s)
            try: t = unparse(x); d = ast_diff(x, ast.parse(t.strip(), mode="eval"))
            except Exception as e: d = repr(e)
            if d: R.fail("Expression root", s, d, "Expression-root")
        R.note("list " + s)
        try: t = unparse(m.body); d = ast_diff(m, ast.parse(t))
        except Exception as e: d = repr(e)
        if d: R.fail("statement list", s, d, "list-" + fid_of(s))
        if not any(isinstance(x, (ast.AsyncFunctionDef, ast.Await)) for x in ast.walk(m)):
            try: x = ast.parse(s + "\n", mode="single")
            except SyntaxError: continue
            R.note("single " + s)
            try: t = unparse(x); d = ast_diff(x.body, ast.parse(t).body)
            except Exception as e: d = repr(e)
            if d: R.fail("Interactive root", s, d, "Interactive-root")

@case("C01", "markers in plain and debug mode, fallbacks, bad input")
def markers(R):
    class MyMarker(ASTMarker): pass
    from mcpyrate.core import Done
    def mk(C, body): return C(body)
    for C in (Done, MyMarker, ASTMarker):
        for src in ("x", "f(a, b)", "a + b"):
            e = ast.parse(src, mode="eval").body
            for tree in (mk(C, e), ast.Expr(value=mk(C, e)), ast.Module(body=[ast.Expr(value=mk(C, e))], type_ignores=[]), ast.Module(body=[mk(C, [ast.Expr(value=e)])], type_ignores=[]), ast.BinOp(left=mk(C, e), op=ast.Add(), right=e)):
                try: t = unparse(tree)
                except UnparserError: pass
                else:
                    try: ast.parse(t)
                    except SyntaxError: pass
                    else: R.fail("a marker is rendered as valid code", (C.__name__, src, ast.dump(tree)[:100]), t)
                t = None
                try: t = unparse(tree, debug=True)
                except Exception as e2: R.fail("debug mode rejects a marker", (C.__name__, src), repr(e2))
                if t is not None: R.check(C.__name__ in t and src in t, "debug mode does not show the marker", (C.__name__, src), t)
                try: t2 = unparse(tree, debug=True, color=True); R.check(strip_ansi(t2) == t, "coloured marker output", src, (t, t2))
                except Exception as e2: R.fail("coloured debug output fails", src, repr(e2))
    for s, m in corpus.trees()[::5]:
        try: want = unparse(m)
        except Exception: continue
        R.check(unparse_with_fallbacks(m) == want, "unparse_with_fallbacks differs from unparse", s)
    for bad in (MyMarker(None), ast.Name(), ast.Call(), object(), [MyMarker(ast.Name(id="x"))]):
        try: r = unparse_with_fallbacks(bad); R.check(isinstance(r, str), "fallback result", repr(bad))
        except Exception as e: R.fail("unparse_with_fallbacks raises", repr(bad), repr(e))
