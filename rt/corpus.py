"""Hand-written snippets: one per syntactic corner of Python 3.12."""
import ast
EXPRS = r'''
a
a.b
a.b.c(d)(e)
(1).real
1.5.real
-1 .real
(-1).real
(1+2j).imag
-1**2
(-1)**2
2**-1
2**3**4
(2**3)**4
-a**-b
not a
not (a and b)
(not a) in b
not a in b
a and b or c
(a or b) and c
a and (b and c)
a or (b or c) or d
a < b < c
(a < b) < c
a < (b < c)
a if b else c
(a if b else c) if d else e
a if b else (c if d else e)
a if (b if c else d) else e
lambda: 0
lambda x: (yield)
lambda x, /, y=1, *a, z, w=2, **k: x
lambda *, k: k
lambda *a: a
lambda **k: k
lambda x=1, /: x
lambda x, y=2, /, z=3: x
(lambda: 0)()
(lambda x: x) if a else b
lambda: (a, b)
lambda: (yield a, b)
[lambda: x for x in y]
[x for x in y if (lambda: 0)]
a + b + c
a / b / (c / d)
a > b
a + (b + c)
a - (b - c)
a * (b + c)
a @ b @ c
a // b % c
a << b >> c
a | b ^ c & d
(a | b) & c
~a
~~a
-(-a)
+-a
- - 1
-(1)
-1
-1j
1-2j
-(1+2j)
10000000000000000000000000000000
1e400
1e400j
-1e400
0.1
1e-10
1_000
0xff
'str'
"it's"
'say "hi"'
'''+"'''both ' and \\\" quotes'''"+r'''
'\n\t\\'
'\x00\x1b'
'😀'
b'bytes'
b'\xff\'"'
r'raw\d'
u'unicode'
'a' 'b'
...
None
True
()
(a,)
(a, b)
((a, b), c)
(*a,)
(*a, b)
[]
[a]
[*a, b]
{a}
{*a}
{*a, b}
{}
{a: b}
{**a}
{a: b, **c, d: e}
{**a, 'b': 1}
a[b]
a[()]
a[b,]
a[b, c]
a[(b, c)]
a[b:c]
a[b:c:d]
a[:]
a[::]
a[:, b]
a[b:c, d]
a[..., None]
a[*b]
a[*b, c]
a[b:c, *d]
a[b := c]
a[lambda: 0]
a[b if c else d]
a[(yield)]
a()[b]
f()
f(a)
f(*a)
f(**a)
f(a, *b, c, *d, k=1, **e, l=2)
f(x for x in y)
f((x for x in y), a)
f(a := 1)
f(k=(a := 1))
f(*a or b)
f(**a or b)
f(lambda: 0, k=lambda x: x)
f((yield))
f(await a)
(await a)(b)
await a.b
await a ** 2
(await a) ** 2
-await a
(yield)
(yield a)
(yield a, b)
(yield from a)
[(yield)]
(a := 1)
(a := (b := 1))
(a := b, c)
((a := b), c)
[a := 1, 2]
{a := 1}
x[(a := 1)]
[x for x in y]
[x async for x in y]
[x for x in y if a if b]
[x for x in y for z in x]
[x for x in (lambda: y, 1)]
[x for x in (a if b else c)]
[x for x, in y]
[x for x, *y in z]
[x for x.a in y]
[x for x[0] in y]
[(x, y) for x in a]
[(a := x) for x in y]
[x for x in y if (a := x)]
{x for x in y}
{x: y for x, y in z}
{x: y for x in (a, b) if x}
(x for x in y)
(x for x in (y for z in w))
f''
f'a'
f'{a}'
f'{a}{b}'
f'{a!r}'
f'{a!s:>10}'
f'{a:{b}}'
f'{a:{b}.{c}}'
f'{a:x{b!r}y}'
f'{{}}'
f'{{{a}}}'
f'a{{b'
f'{a["k"]}'
f"{a['k']}"
f"{a['k']!r:>{w['q']}}"
f'{ {1: 2} }'
f'{ {x for x in y} }'
f'{(lambda: 0)}'
f'{(a := 1)}'
f'{a if b else c}'
f'{a, b}'
f'{(yield)}'
f'{*a, b}'
f'{a=}'
f'{a = !r}'
f'{a!r:^{width}.{prec}}'
f'{"nested"}'
f"{f'{a}'}"
f"{f'{f"{a}"}'}"
f'\n{a}\t'
f'{a}\\'
f'\{a}'
f"it's {a}"
f'say "{a}"'
f\'\'\'tri ' " {a}\'\'\'
f'{a}' 'b' f'{c}'
'b' f'{c}'
f'{chr(10)}'
f'{"\n"}'
f'{"\\"}'
f'{a:\n}'
f'{a:{{}}}'
f'{-1}'
f'{a.b()[0]}'
f'{not a}'
f'{x:=5}'
f'{x!r}}}'
f'{"}"}'
f'{"{"}'
f'{b"x"}'
f'{1:0>{2}d}'
f'{dt:%Y-%m-%d}'
a.b[c](d).e
not a == b
(not a) == b
a == (not b)
a is not b
a not in b
a in (b, c)
a == b != c <= d >= e is f
(a, b) == c
a, b
*a, b
(a for a in b), c
a if b else lambda: c
(a if b else lambda: c)()
(yield a) + b
a + (yield b)
await (a + b)
(a, b)[0]
[a, b][0]
{a: b}[c]
'a'.join(b)
f'{a}'.b
b'a'.c
(a + b).c
(a + b)(c)
(a + b)[c]
(-a).b
(-a)[b]
(not a).b
(lambda: 0).b
(a if b else c).d
(a := 1).b
(yield).b
(await a).b
(a < b).c
(a and b).c
(*a,).b
().b
(x for x in y).z
....__class__
None.x
True.x
1j.imag
1e5.real
0xf.real
'''.replace("f\\'\\'\\'", "f'''").replace("\\'\\'\\'", "'''")
STMTS = r'''
a
---
a = b
---
a = b = c
---
a, b = c
---
a, = b
---
(a,) = b
---
[a, b] = c
---
[] = a
---
() = a
---
*a, b = c
---
[*a] = c
---
a.b = c
---
a[b] = c
---
a[b, c] = d
---
a[b:c] = d
---
a = b, c
---
a = *b, c
---
a = yield
---
a = yield b
---
a = yield b, c
---
a = yield from b
---
a = await b
---
a = (yield)
---
a = lambda: 0
---
a += b
---
a.b -= yield c
---
a[b] **= c, d
---
a @= b
---
a //= b
---
a >>= b
---
a: b
---
a: b = c
---
(a): b
---
(a): b = c
---
a.b: c
---
a.b: c = d
---
a[b]: c = d
---
a: b = yield
---
a: b = c, d
---
a: (b, c)
---
a: (yield)
---
del a
---
del a, b
---
del (a, b)
---
del (a), b
---
del [a]
---
del ()
---
del a.b, c[d], e[f:g]
---
del (a,)
---
pass
---
assert a
---
assert a, b
---
assert (a, b)
---
assert (a, b), (c, d)
---
raise
---
raise a
---
raise a from b
---
raise a from None
---
import a
---
import a.b.c as d, e
---
from a import b
---
from a import *
---
from . import a
---
from .. import a as b
---
from .a.b import c, d as e
---
from ....a import b
---
from a import (b)
---
global a, b
---
def f():
    nonlocal a
---
def f():
    return
---
def f():
    return a, b
---
def f():
    return *a, b
---
def f():
    return (yield)
---
def f(): pass
---
def f(a, b=1, /, c=2, *d, e, f=3, **g): pass
---
def f(a: b, c: d = e, *f: g, h: i = j, **k: l) -> m: pass
---
def f(*, a): pass
---
def f(*a: *b): pass
---
def f(a, /): pass
---
def f(a=1, /, b=2): pass
---
def f() -> (yield): pass
---
def f() -> (a, b): pass
---
def f(a=lambda x=1: x): pass
---
def f(a=(b, c)): pass
---
def f(a: (b, c)): pass
---
@a
@b.c(d)
@(lambda: 0)
@(x if y else z)
@a[b]
@(a, b)
@(yield)
@(a := b)
def f(): pass
---
@a
async def f():
    await b
    async for c in d:
        pass
    else:
        pass
    async with e as f, g:
        pass
    return [x async for x in y]
---
@a
class C: pass
---
class C(): pass
---
class C(A, B, metaclass=M, **kw): pass
---
class C(*a, **b): pass
---
class C:
    """doc"""
    x: int = 1
    def f(self): pass
---
class C[T]: pass
---
class C[T: int, *Ts, **P](A[T]): pass
---
def f[T](a: T) -> T: pass
---
def f[T: (int, str), *Ts, **P](*a: *Ts) -> P: pass
---
async def f[T](): pass
---
type A = b
---
type A[T] = b
---
type A[T: int, *Ts, **P] = (b, c)
---
type A = yield_
---
if a: pass
---
if a:
    b
elif c:
    d
else:
    e
---
if a:
    b
else:
    if c:
        d
---
if a:
    b
else:
    if c:
        d
    e
---
if a:
    if b:
        c
else:
    d
---
if (a := b): pass
---
if a, b: pass
---
if (a, b): pass
---
if (yield): pass
---
for a in b: pass
---
for a, b in c: pass
---
for (a, b), c in d: pass
---
for a, in b: pass
---
for [a, b] in c: pass
---
for *a, b in c: pass
---
for a.b in c: pass
---
for a[b] in c: pass
---
for a in b, c: pass
---
for a in *b, c: pass
---
for a in (yield): pass
---
for a in lambda: 0: pass
---
for a in b:
    break
    continue
else:
    c
---
while a: pass
---
while a:
    b
else:
    c
---
while (a := b): pass
---
with a: pass
---
with a as b: pass
---
with a as b, c as d: pass
---
with a as (b, c): pass
---
with a as [b, c]: pass
---
with a as b.c, d as e[f]: pass
---
with (a, b): pass
---
with ((a, b)): pass
---
with ((a, b)) as c: pass
---
with (a, b) as c: pass
---
with (a): pass
---
with (a as b): pass
---
with (a as b, c as d): pass
---
with (a, b), c: pass
---
with (yield): pass
---
with (yield a) as b: pass
---
with (a := b): pass
---
with (a := b) as c: pass
---
with lambda: 0: pass
---
with a if b else c: pass
---
with (a, b,): pass
---
with (a for a in b): pass
---
with (a).b: pass
---
with (a)(b) as c: pass
---
with ((yield)): pass
---
with (*a, b): pass
---
try: a
except: b
---
try: a
except b: c
---
try: a
except b as c: d
except (e, f): g
except: h
else: i
finally: j
---
try: a
finally: b
---
try: a
except* b: c
---
try: a
except* b as c: d
except* (e, f): g
else: h
finally: i
---
try:
    try: a
    except: b
finally:
    c
---
match a:
    case 1: pass
---
match a, b:
    case 1, 2: pass
---
match (a, b):
    case (1, 2): pass
---
match *a, b:
    case _: pass
---
match a:
    case -1: pass
    case 1.5: pass
    case -2j: pass
    case 1+2j: pass
    case -1-2j: pass
    case 1 - 2j: pass
    case 's': pass
    case b's': pass
    case 's' 't': pass
    case None: pass
    case True: pass
    case a.b: pass
    case a.b.c: pass
    case x: pass
---
match a:
    case _: pass
---
match a:
    case (x): pass
---
match a:
    case []: pass
    case (): pass
    case [x]: pass
    case x,: pass
    case (x,): pass
    case [x, y]: pass
    case (x, y): pass
    case [x, *y]: pass
    case *x, y: pass
    case [*_]: pass
    case [[x], [y, *_]]: pass
    case [x, [y, z]], w: pass
---
match a:
    case {}: pass
    case {'k': v}: pass
    case {'k': v, **rest}: pass
    case {**rest}: pass
    case {-1: x}: pass
    case {1+2j: x}: pass
    case {-1-2j: x}: pass
    case {a.b: x}: pass
    case {None: x, True: y}: pass
    case {'a': 1 | 2}: pass
    case {'a': [x, y] as z}: pass
    case {'a': {'b': c}}: pass
---
match a:
    case C(): pass
    case C(x): pass
    case C(x, y=z): pass
    case C(x=1, y=2): pass
    case a.b.C(x, [y]): pass
    case C(1 | 2): pass
    case C(x=1 | 2): pass
    case C((1 | 2) as y): pass
    case C(x=[1] as y): pass
    case C(D(x) as y, z=E()): pass
---
match a:
    case 1 | 2: pass
    case (1 | 2) as x: pass
    case 1 | 2 as x: pass
    case [1 | 2, 3]: pass
    case [(1 | 2) as x, 3]: pass
    case 1 as x: pass
    case (1 as x) | (2 as x): pass
    case ((1 as x)) as y: pass
    case [1 as x, 2 as y]: pass
    case 1 as x, 2 as y: pass
    case (1, 2) as x: pass
    case (1, 2) | (3, 4): pass
    case [1, 2] | {'a': 3} | C(): pass
    case (1 | 2) | 3: pass
    case None | True: pass
---
match a:
    case x if b: pass
    case x if (b := x): pass
    case x if b, : pass
---
match a:
    case x if b: pass
    case x if (b := x): pass
    case [x, y] if x and y:
        if x: pass
        else: pass
---
match (yield):
    case 1: pass
---
match (a := b):
    case 1: pass
---
match -a:
    case 1: pass
---
match lambda: 0:
    case 1: pass
---
match = 1; case = 2; type = 3; _ = 4
---
match(a)
---
match[a] = b
---
type(a)
---
print(match, case, type)
---
"""docstring"""
---
"""doc
string
"""
a
---
def f():
    """doc"""
---
def f():
    'single'
    return 1
---
class C:
    'doc \n with \\ escapes'
---
x = 'multi\nline'
---
x = """a
b"""
---
if a:
    x = """a
b"""
---
f'{a}'
---
f'not doc'
---
b'not doc'
---
def f():
    x = """a
    b"""
    return f"""{x}
    {y}"""
---
if a: b; c; d
---
a; b
---
async def f():
    async with a as b: pass
    async for a, b in c: pass
    await a
    x = [await y async for z in w]
---
from __future__ import annotations
a: b
---
(yield)
---
(yield a)
---
(yield from a)
---
yield
---
yield a, b
---
(a := b)
---
lambda: 0
---
a, b
---
*a, b
---
a if b else c
---
not a
---
-1
---
(a, b)[c]
---
{}
---
{a: b}
---
x = {**a}
---
x = a[()]
---
print(*a, sep='')
---
global x
x = 1
---
while 1:
    if a: break
    else: continue
else:
    pass
---
x = (a
     + b)
---
x = [
    1,
    2,
]
---
try:
    pass
except (A, B) as e:
    raise X from e
---
with a, b as c, d: pass
---
with (a, b, c): pass
---
with (a as b), c: pass
---
def f(a, *, b: int = 1, **c: str) -> None: ...
---
assert isinstance(a, b), f"msg {a!r}"
---
class A(B, C): x = 1; y = 2
---
@property
def f(self): return self._x
---
for i in range(10): print(i, end='')
---
def f(): x = yield; y = yield x; return (yield from z)
---
def g():
    x = [y := f(x), y**2]
    return (a := 1) + a
---
return_ = a
'''
def expr_sources():
    return [l for l in EXPRS.split("\n") if l.strip()]
def stmt_sources():
    return [s.strip("\n") for s in STMTS.split("\n---\n") if s.strip()]
def trees():
    """(source, Module) of every snippet the running Python accepts."""
    import warnings
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s in expr_sources() + stmt_sources():
            try: out.append((s, ast.parse(s)))
            except SyntaxError: pass
    return out
