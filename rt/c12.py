from rt.lib import *
from rt import corpus, gen
import uuid, keyword
from mcpyrate.utils import gensym, scrub_uuid, flatten, rename, extract_bindings, getdocstring, get_lineno, NestingLevelTracker
from mcpyrate.markers import ASTMarker
from mcpyrate.core import Done

@case("C12", "3000 names, 40 bases; the id source repeats ids")
def gensyms(R):
    bases = [None, "", "kitty", "x", "_", "a_b", "λ", "gensym", "macro_token"] + [f"b{i}" for i in range(30)]
    seen = set()
    rng = R.rng()
    def one(b):
        s = gensym() if b is None and rng.random() < .5 else gensym(b)
        R.note((b, len(seen) % 50))
        R.check(isinstance(s, str) and s not in seen, "repeated or non-str name", b, s)
        if b != "": R.check(s.isidentifier() and not keyword.iskeyword(s), "not an identifier", b, s)
        want = "gensym_" if b is None else (b + "_" if b else "")
        R.check(s.startswith(want) and len(s) > len(want), "base is not carried", b, s)
        R.check(scrub_uuid(s) == ("gensym" if b is None else b) if b != "" else True, "scrubbing a generated name does not give its base", b, (s, scrub_uuid(s)))
        seen.add(s)
    for _ in range(3000): one(rng.choice(bases))
    # force collisions: the uuid source yields repeated values
    real = uuid.uuid4
    pool = [real() for _ in range(6)]
    try:
        for b in bases[:9]:
            script = []
            for i in range(6): script += [pool[i]] + [pool[rng.randrange(i + 1)] for _ in range(rng.randrange(3))]
            # the same value repeatedly, then fresh ones
            it = iter(script + script + [real() for _ in range(50)])
            uuid.uuid4 = lambda: next(it)
            for _ in range(14):
                n0 = len(seen); one(b)
    except StopIteration:
        R.fail("names are not generated from fresh ids", b, "ran out")
    finally: uuid.uuid4 = real
    for bad in (1, ["a"], b"x", 2.5, ("a",)):
        R.raises(TypeError, lambda: gensym(bad), "non-str base accepted", repr(bad))

@case("C12", "all split positions and alphabets of id-like suffixes")
def scrub(R):
    rng = R.rng()
    hexd = "0123456789abcdef"
    for _ in range(3000):
        base = "".join(rng.choice("ab_1λ") for _ in range(rng.randrange(6)))
        n = rng.choice([32, 32, 32, 31, 33, 16, 0])
        kind = rng.choice(["hex", "HEX", "bad", "0x", "us", "sp", "sign"])
        sfx = "".join(rng.choice(hexd) for _ in range(n))
        isid = n == 32
        if n and kind == "HEX": sfx = sfx.upper()
        elif n and kind == "bad": i = rng.randrange(n); sfx = sfx[:i] + rng.choice("gz-é ") + sfx[i + 1:]; isid = False
        elif n > 2 and kind == "0x": sfx = "0x" + sfx[2:]; isid = False
        elif n > 2 and kind == "sp": sfx = " " + sfx[1:]; isid = False
        elif n > 2 and kind == "sign": sfx = "+" + sfx[1:]; isid = False
        elif n > 6 and kind == "us": sfx = sfx[:3] + "_" + sfx[4:]; isid = False
        s = base + rng.choice(["_", "_", "_", ""]) + sfx
        sep = s[len(base):len(base) + 1] == "_" and len(s) == len(base) + 1 + len(sfx)
        if not sep and (base.endswith("_") or (n == 32 and "_" in base)): pass
        i = s.rfind("_")
        tail = s[i + 1:]
        want = s[:i] if i >= 0 and re.fullmatch("[0-9a-fA-F]{32}", tail) else s
        R.eq(scrub_uuid(s), want, "scrub_uuid", s)

@case("C12", "random nested lists of depth <= 5")
def flattening(R):
    rng = R.rng()
    def mk(d):
        out = []
        for _ in range(rng.randrange(5)):
            k = rng.random()
            if k < .35 and d: out.append(mk(d - 1))
            elif k < .5: out.append(None)
            else: out.append(rng.choice([0, 1, "", "s", (), (1, [2]), {}, False, ast.Pass(), 3.5]))
        return out
    def ref(l):
        o = []
        for x in l:
            if isinstance(x, list): o += ref(x)
            elif x is not None: o.append(x)
        return o
    for _ in range(1500):
        l = mk(5); before = repr(l)
        got = flatten(l)
        want = ref(l)
        R.check(type(got) is list and len(got) == len(want) and all(a is b for a, b in zip(got, want)), "recursive flattening", before, repr(got))
        R.check(repr(l) == before, "flatten modifies its input", before)
        R.check([*flatten(x for x in l)] == want, "flatten of an iterable", before)
        noNone = lambda l: [noNone(x) if isinstance(x, list) else x for x in l if x is not None]
        m = noNone(l)
        one = []
        for x in m: one += x if isinstance(x, list) else [x]
        got = flatten(m, recursive=False)
        R.check(len(got) == len(one) and all(a is b for a, b in zip(got, one)), "one-level flattening", repr(m), repr(got))

IDENT = {"FunctionDef": ["name"], "AsyncFunctionDef": ["name"], "ClassDef": ["name"], "ImportFrom": ["module"], "Global": ["names"], "Nonlocal": ["names"], "Attribute": ["attr"], "Name": ["id"],
         "ExceptHandler": ["name"], "arg": ["arg"], "keyword": ["arg"], "alias": ["name", "asname"], "MatchMapping": ["rest"], "MatchClass": ["kwd_attrs"], "MatchStar": ["name"], "MatchAs": ["name"],
         "TypeVar": ["name"], "ParamSpec": ["name"], "TypeVarTuple": ["name"]}
def idents(tree):
    for n in ast.walk(tree):
        for f in IDENT.get(type(n).__name__, []):
            v = getattr(n, f, None)
            if isinstance(v, str): yield v
            elif isinstance(v, list): yield from v
def ref_rename(old, new, tree):
    tree = copy.deepcopy(tree)
    for n in ast.walk(tree):
        for f in IDENT.get(type(n).__name__, []):
            v = getattr(n, f, None)
            if isinstance(v, str) and v == old: setattr(n, f, new)
            elif isinstance(v, list): setattr(n, f, [new if x == old else x for x in v])
    return tree

@case("C12", "every identifier of every corpus snippet and of random modules; one name per identifier field")
def renaming(R):
    rng = R.rng()
    mods = [(s, m) for s, m in corpus.trees()] + [(s, m) for m, s in gen.modules(rng, 150 if not R.deep else 1500)]
    kinds = """
    def x(): pass
    async def x(x, /, x1=0, *x2, x3, **x4): pass
    class x(k=0): pass
    from x import y
    from z import x
    from z import y as x
    import x
    import y as x
    global x
    def f():
        nonlocal x, y, x
    a.x
    x
    try: pass
    except E as x: pass
    try: pass
    except* E as x: pass
    def g(x): pass
    def g(*x): pass
    def g(**x): pass
    lambda *, x: 0
    f(x=1)
    class C(x=1): pass
    match a:
        case {1: _, **x}: pass
    match a:
        case C(x=1, y=2, z=x): pass
    match a:
        case [*x]: pass
    match a:
        case 1 as x: pass
    match a:
        case x: pass
    type T[x: int] = 0
    type T[*x] = 0
    type T[**x] = 0
    type x = 0
    def g[x](a: x): pass
    class D[x]: pass
    x: int = 0
    (x := 1)
    [x for x in y]
    with a as x: pass
    for x in y: pass
    del x
    x += 1
    """
    src = textwrap.dedent(kinds).strip("\n")
    # each statement separately
    m = ast.parse(src)
    mods += [(ast.unparse(s), ast.Module(body=[s], type_ignores=[])) for s in m.body] + [(src, m)]
    for s, m in mods:
        names = sorted({x for x in idents(m) if x.isidentifier()})
        R.current_input = s
        for old in names[: 6 if not R.deep else 40] + (["x"] if "x" in names else []) + ["nosuch_name"]:
            t = copy.deepcopy(m)
            got = rename(old, "renamed_q", t)
            R.note(f"{old} in {s}")
            if got is not t: R.fail("rename does not return the tree it was given", (old, s))
            d = ast_diff(ref_rename(old, "renamed_q", m), got, locs=True)
            if d: R.fail("rename", f"{old} in {s}", d, fid="ren-" + hashlib.sha1(f"{old}|{s}".encode("utf-8", "replace")).hexdigest()[:10])
        l = copy.deepcopy(m.body)
        if names:
            got = rename(names[0], "renamed_q", l)
            d = ast_diff(ref_rename(names[0], "renamed_q", m).body, got)
            R.check(not d, "rename in a statement list", f"{names[0]} in {s}", d)

@case("C12", "docstring positions and constant types")
def docstrings(R):
    for src, want in [("'doc'", "doc"), ("''", ""), ("u'd'", "d"), ("'a' 'b'", "ab"), ("'''m\nl'''\nx = 1", "m\nl"), ("1", None), ("b'x'", None), ("...", None), ("None", None), ("True", None), ("2.5", None), ("1j", None), ("f'x'", None), ("f'{x}'", None), ("'a' + 'b'", None), ("x", None), ("pass\n'doc'", None), ("x = 'doc'", None), ("('doc')", "doc"), ("'d', ", None), ("", None), ("'doc'\n'other'", "doc"), ("-1", None), ("'x'.y", None), ("if 1:\n 'x'", None)]:
        b = ast.parse(src).body
        R.eq(getdocstring(b), want, "getdocstring", src)
    R.eq(getdocstring(None), None, "getdocstring(None)", "None")
    R.eq(getdocstring([]), None, "getdocstring([])", "[]")
    for bad in (ast.parse("'x'"), (1,), "abc", ast.Expr(value=ast.Constant(value="a"))):
        R.raises(TypeError, lambda: getdocstring(bad), "non-list body accepted", repr(bad))

def ref_lineno(t):
    if isinstance(t, ast.AST) and "lineno" in t.__dict__: return t.lineno
    if isinstance(t, ast.AST):
        for f, v in ast.iter_fields(t):
            r = ref_lineno(v)
            if r: return r
    elif isinstance(t, list):
        for v in t:
            r = ref_lineno(v)
            if r: return r
    return None

@case("C12", "corpus trees with random nodes losing their location, inside lists and markers")
def linenos(R):
    rng = R.rng()
    for s, m in corpus.trees():
        m = copy.deepcopy(m)
        for n in list(ast.walk(m)):
            if "lineno" in n.__dict__:
                if rng.random() < .6: del n.lineno
                else: n.lineno = rng.randrange(1, 500)
        if m.body and rng.random() < .3: m.body[0] = Done(m.body[0]) if rng.random() < .5 else ASTMarker([m.body[0]])
        for n in list(ast.walk(m))[:8]:
            R.eq(get_lineno(n), ref_lineno(n), "get_lineno", s)
        R.eq(get_lineno(m.body), ref_lineno(m.body), "get_lineno of a list", s)
        R.eq(get_lineno(Done(m.body)), ref_lineno(m.body), "get_lineno of a marker", s)
    for x in (None, [], "s", 3, ast.Name(id="x"), [None, ast.Load()]): R.eq(get_lineno(x), None, "get_lineno", repr(x))

@case("C12", "random binding tables over 6 functions")
def bindings(R):
    rng = R.rng()
    fs = [eval(f"lambda: {i}") for i in range(6)]
    class CallableEq:
        def __call__(self): pass
    fs.append(CallableEq())
    for _ in range(400):
        b = {f"n{i}": rng.choice(fs) for i in rng.sample(range(9), rng.randrange(9))}
        pick = rng.sample(fs, rng.randrange(4)); before = dict(b)
        got = extract_bindings(b, *pick)
        want = {k: v for k, v in b.items() if any(v is p for p in pick)}
        R.check(list(got.items()) == list(want.items()) and type(got) is dict and got is not b and b == before, "extract_bindings", (sorted(b), [fs.index(p) for p in pick]), got)

@case("C12", "random well-nested operation sequences, with and without exceptions")
def nesting(R):
    rng = R.rng()
    class Boom(Exception): pass
    for _ in range(500):
        start = rng.randrange(4)
        t = NestingLevelTracker(start) if start else NestingLevelTracker()
        log = [start]
        def go(d, level):
            R.check(t.value == level, "level", log, t.value)
            for _ in range(rng.randrange(3)):
                if d == 0: break
                if rng.random() < .5: v = rng.randrange(6); cm = (lambda: t.set_to(v)); log.append(("set", v)); new = v
                else:
                    dv = rng.randrange(-2, 4); cm = (lambda: t.changed_by(dv)); log.append(("chg", dv)); new = level + dv
                if new < 0:
                    R.raises(ValueError, cm, "negative level accepted", log)
                    R.check(t.value == level, "level after a rejected change", log, t.value); continue
                boom = rng.random() < .4
                try:
                    with cm():
                        R.check(t.value == new, "level inside", log, t.value)
                        go(d - 1, new)
                        R.check(t.value == new, "level inside after nested changes", log, t.value)
                        if boom: raise Boom()
                except Boom: pass
                log.append("exit")
                R.check(t.value == level, "level is not restored", log, t.value)
        go(4, start)
        for bad in ("1", 1.5, None, [1]):
            R.raises(TypeError, lambda: t.set_to(bad), "non-integer level accepted", repr(bad))
        R.raises((AttributeError, TypeError), lambda: setattr(t, "value", 3), "value is writable", "t.value = 3")
