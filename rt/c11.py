from rt.lib import *
from rt import corpus, gen
from mcpyrate.splicing import splice_expression, splice_statements, splice_dialect
from mcpyrate.markers import ASTMarker
from mcpyrate.core import Done
from mcpyrate.utils import getdocstring

TAG = "__paste_here__"
def P(tag=TAG): return ast.parse(tag).body[0]
def put_stmt(rng, tree, tag, n):
    """Insert n placeholders at random statement positions; returns how many."""
    lists = [getattr(x, f) for x in ast.walk(tree) for f, v in ast.iter_fields(x) if isinstance(v, list) and v and isinstance(v[0], ast.stmt)]
    for _ in range(n):
        l = rng.choice(lists)
        l.insert(rng.randrange(len(l) + 1), P(tag))
def put_expr(rng, tree, tag, n):
    slots = []
    for x in ast.walk(tree):
        if isinstance(x, (ast.JoinedStr, ast.pattern, ast.MatchValue)): continue
        for f, v in ast.iter_fields(x):
            if isinstance(v, ast.expr) and isinstance(getattr(v, "ctx", ast.Load()), ast.Load): slots.append((x, f, None))
            elif isinstance(v, list):
                for i, y in enumerate(v):
                    if isinstance(y, ast.expr) and isinstance(getattr(y, "ctx", ast.Load()), ast.Load): slots.append((x, f, i))
    k = 0
    for x, f, i in rng.sample(slots, min(n, len(slots))):
        nm = ast.Name(id=tag, ctx=ast.Load())
        if i is None: setattr(x, f, nm)
        else: getattr(x, f)[i] = nm
        k += 1
    return k

def ref_splice(tree, is_here, make):
    """Copy of tree with placeholders replaced by copies of the code."""
    class X(ast.NodeTransformer):
        def visit(self, n):
            if is_here(n): return make()
            return self.generic_visit(n)
    t = copy.deepcopy(tree)
    if isinstance(t, list):
        out = []
        for x in t:
            r = X().visit(x)
            out += r if isinstance(r, list) else [r]
        return out
    return X().visit(t)

@case("C11", "random templates with 0..4 placeholders at random expression slots; random spliced expressions")
def expressions(R):
    rng = R.rng()
    exprs = [e for e, s in gen.exprs(R.rng("e"), 60, 3) if not isinstance(e, (ast.Starred, ast.Slice))]
    for m, src in gen.modules(R.rng("m"), 300 if not R.deep else 4000):
        tag = rng.choice([TAG, TAG, "foo_tag"])
        n = put_expr(rng, m, tag, rng.randrange(5))
        e = copy.deepcopy(rng.choice(exprs))
        if rng.random() < .3:   # the spliced code may mention the tag
            e = ast.Call(func=e, args=[ast.Name(id=tag, ctx=ast.Load())], keywords=[])
        code = Done(e) if rng.random() < .2 else e
        here = lambda x: type(x) is ast.Name and x.id == tag
        tmpl = m if rng.random() < .5 else m.body
        inp = dict(template=dump(tmpl)[:3000], expr=dump(code), tag=tag)
        R.current_input = inp; R.note(str(inp))
        want = ref_splice(tmpl, here, lambda: copy.deepcopy(code))
        before = dump(code)
        got = splice_expression(code, tmpl, tag) if tag != TAG or rng.random() < .5 else splice_expression(code, tmpl)
        if got is not tmpl: R.fail("the template is not edited in place", inp, repr(got))
        d = ast_diff(want, got, locs=True)
        if d: R.fail("spliced expression", inp, d)
        if dump(code) != before: R.fail("the spliced code is changed", inp, before)
        occ = [x for t in (got if isinstance(got, list) else [got]) for x in ast.walk(t) if dump(x) == before]
        if n:
            if not any(x is code for x in occ): R.fail("the first placeholder does not get the code itself", inp)
            ids = [id(y) for x in occ for y in ast.walk(x) if type(y) not in (ast.Load, ast.Store) and not isinstance(y, (ast.operator, ast.unaryop, ast.boolop, ast.cmpop))]
            if len(occ) == n and len(ids) != len(set(ids)): R.fail("copies share nodes", inp)
        if len(R.failures) > 3: break
    # roots
    e = ast.parse("f(x)", mode="eval").body
    R.check(splice_expression(e, ast.Name(id=TAG)) is e, "the template is itself the placeholder", "Name")
    for empty in (None, []): R.check(splice_expression(e, empty) is e, "empty template", repr(empty))
    for bad in (ast.parse("x = 1").body[0], ast.parse("x"), "x", [e], None, Done(ast.Pass()), 42):
        t = ast.parse(TAG); b = ast.dump(t)
        R.raises(TypeError, lambda: splice_expression(bad, t), "non-expression accepted", repr(bad))
        R.check(ast.dump(t) == b, "template changed by a rejected call", repr(bad))
    for bad in ("x", 42, (ast.Pass(),)):
        R.raises(TypeError, lambda: splice_expression(e, bad), "bad template accepted", repr(bad))

@case("C11", "random templates with 0..4 placeholders at random statement positions; lists of 1..4 spliced statements")
def statements(R):
    rng = R.rng()
    pool = [s for _, m in corpus.trees() for s in m.body]
    for m, src in gen.modules(R.rng("m"), 400 if not R.deep else 5000):
        tag = rng.choice([TAG, TAG, "foo_tag"])
        n = rng.randrange(5)
        put_stmt(rng, m, tag, n)
        if rng.random() < .4: put_expr(rng, m, tag, 2)     # in expression positions: not placeholders, unless the whole statement
        body = [copy.deepcopy(s) for s in rng.sample(pool, rng.randrange(1, 5))]
        if rng.random() < .2: body.append(P(tag)); body.append(ast.parse("if x:\n    %s\n    y" % tag).body[0])
        here = lambda x: type(x) is ast.Expr and type(x.value) is ast.Name and x.value.id == tag
        tmpl = m.body
        inp = dict(template=dump(tmpl)[:3000], body=dump(body)[:1500], tag=tag)
        R.current_input = inp; R.note(str(inp))
        want = ref_splice(tmpl, here, lambda: copy.deepcopy(body))
        orig = list(body); before = dump(body)
        k = sum(1 for t in tmpl for x in ast.walk(t) if here(x))
        others = {id(x): dump(x) for t in tmpl for x in ast.walk(t) if isinstance(x, ast.stmt) and not any(here(y) for y in ast.walk(x))}
        got = splice_statements(body, tmpl, tag) if tag != TAG or rng.random() < .5 else splice_statements(body, tmpl)
        if got is not tmpl: R.fail("the template is not edited in place", inp, repr(got))
        d = ast_diff(want, got, locs=True)
        if d: R.fail("spliced statements", inp, d)
        if dump(body) != before or any(a is not b for a, b in zip(orig, body)): R.fail("the spliced code is changed", inp, before)
        allnodes = [x for t in got for x in ast.walk(t) if isinstance(x, (ast.stmt, ast.expr))]
        ids = [id(x) for x in allnodes]
        if len(ids) != len(set(ids)): R.fail("the result shares nodes between placeholders", inp)
        if k and not all(any(x is s for x in allnodes) for s in orig): R.fail("the first placeholder does not get the given statements themselves", inp)
        have = {id(x) for x in allnodes}
        if any(i not in have for i in others): R.fail("a template statement was replaced by a copy", inp)
        if len(R.failures) > 3: break
    one = ast.parse("x = 1").body[0]
    t = ast.parse("a\n%s\nb" % TAG).body
    splice_statements(one, t)
    R.check(ast.unparse(ast.Module(body=t, type_ignores=[])) == "a\nx = 1\nb", "a single statement as the body", "x = 1", dump(t))
    t = ast.parse("if a:\n    %s\n    b" % TAG).body[0]
    r = splice_statements([one], t)
    r = r if isinstance(r, list) else [r]
    R.check(ast.unparse(ast.Module(body=r, type_ignores=[])) == "if a:\n    x = 1\n    b", "a single statement as the template", "if a: ...", dump(r))
    R.eq(splice_statements([one], []), [one], "empty template", "[]")
    R.eq(splice_statements([one], None), [one], "no template", "None")
    for bad in ([], None): R.raises(ValueError, lambda: splice_statements(bad, ast.parse(TAG).body), "empty body accepted", repr(bad))

SPECIAL = ["from {p}m import dialects, D{i}", "from {p}m import macros, k{i}", "from {p}m import macros, k{i} as z{i}"]
def mkmod(rng, p, tag, nest):
    """A module body as (docstring, futures, all, dialects, macros, rest) in random order of the last four."""
    doc = rng.choice([None, None, f"{p} doc", ""])
    fut = [f"from __future__ import {x}" for x in rng.sample(["annotations", "division", "generators"], rng.randrange(3))]
    rest = []
    i = 0
    for _ in range(rng.randrange(1, 7)):
        k = rng.random(); i += 1
        if k < .2: rest.append(("dia", f"from {p}m import dialects, D{i}"))
        elif k < .45: rest.append(("mac", f"from {p}m import macros, k{i}" + rng.choice(["", f" as z{i}"])))
        elif k < .55: rest.append(("all", f"__all__ = ['{p}{i}']"))
        elif k < .6: rest.append(("x", f"from {p}m import macros as mm{i}, k"))
        elif k < .65: rest.append(("x", f"import macros, dialects"))
        elif k < .7: rest.append(("x", f"from {p}m import k{i}, macros"))
        else: rest.append(("x", rng.choice([f"{p}x{i} = {i}", f"def {p}f{i}():\n    __all__ = 1\n    return {i}", f"{p}zz\n'{p}string'", f"if {p}c:\n    from {p}n import k\n    {p}y = 1", f"__all__ += ['{p}']", f"{p}a = __all__ = [{i}]"])))
    if not (p == "u" and rng.random() < .25): rest.append(("x", f"{p}last = 1"))                # a user body may consist of imports and docstring only
    if nest:   # imports inside a block are lifted as well
        rest.insert(rng.randrange(len(rest) + 1), ("nest", p))
    return doc, fut, rest

@case("C11", "random dialect templates and module bodies: docstrings, future-imports, __all__, macro- and dialect-imports in every combination")
def dialect(R):
    rng = R.rng()
    for t in range(900 if not R.deep else 9000):
        tag = rng.choice([TAG, "tagg"])
        B, T = mkmod(rng, "u", tag, rng.random() < .2), mkmod(rng, "t", tag, rng.random() < .2)
        def text(M, paste):
            doc, fut, rest = M
            ls = ([repr(doc)] if doc is not None else []) + fut
            for k, s in rest:
                if k == "nest": ls.append(f"with {s}ctx:\n    from {s}q import macros, nk\n    from {s}q import dialects, nd\n    {s}inner = 1")
                else: ls.append(s)
            return ls
        bl, tl = text(B, False), text(T, True)
        nplace = rng.choice([1, 1, 1, 0, 2])
        nested = rng.random() < .3
        for _ in range(nplace): tl.insert(rng.randrange((1 if T[0] is not None else 0) + len(T[1]), len(tl) + 1), f"with tctx2:\n    t0\n    {tag}\n    t1" if nested else tag)
        bsrc, tsrc = "\n".join(bl), "\n".join(tl)
        body, tmpl = ast.parse(bsrc).body, ast.parse(tsrc).body
        loc = rng.choice([None, (77, 3)])
        inp = dict(body=bsrc, template=tsrc, loc=loc, tag=tag)
        R.current_input = inp; R.note(str(inp))
        # ---- expected, from the documentation
        def lift(l, magic):
            out = []
            class L(ast.NodeTransformer):
                def visit_ImportFrom(self, n):
                    if n.names[0].name == magic and n.names[0].asname is None: out.append(n); return None
                    return n
            m = ast.Module(body=l, type_ignores=[]); L().visit(m)
            return out, m.body
        def parts(src, M):
            m = ast.parse(src).body
            doc = None
            if M[0] is not None: doc, m = m[0], m[1:]
            k = len(M[1]); fut, m = m[:k], m[k:]
            isall = lambda s: isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "__all__"
            al = [s for s in m if isall(s)]; m = [s for s in m if not isall(s)]
            dia, m = lift(m, "dialects"); mac, m = lift(m, "macros")
            return doc, fut, al, dia, mac, m
        ud, uf, ua, udi, um, ur = parts(bsrc, B)
        td, tf, ta, tdi, tm, tr = parts(tsrc, T)
        if ud is not None and td is not None and (B[0] and T[0]): want_doc = [B[0] + "\n" + "-" * 79 + "\n" + T[0]]
        elif ud is not None or td is not None:
            ds = [x for x in (B[0], T[0]) if x is not None]
            want_doc = None if len(ds) == 2 else [ds[0]]
        else: want_doc = []
        here = lambda x: type(x) is ast.Expr and type(x.value) is ast.Name and x.value.id == tag
        if not (ud or uf or ua or udi or um or ur): continue
        rest = ref_splice(tr, here, lambda: copy.deepcopy(ur) or [ast.Pass()])
        want = tf + uf + ua + tdi + udi + tm + um + rest
        b0loc = (body[0].lineno, body[0].col_offset)
        try: got = splice_dialect(body, tmpl, tag, *(loc or ()))
        except Exception as e:
            R.fail("splice_dialect fails", inp, "".join(traceback.format_exception(e))[-1500:]); continue
        if want_doc != []:
            g = getdocstring(got[:1]) if got and isinstance(got[0], ast.stmt) else repr(got[:1])
            if want_doc is None: ok = isinstance(g, str) and (B[0] in g and T[0] in g)
            else: ok = g == want_doc[0]
            if not ok: R.fail("module docstring", inp, (g, want_doc))
            got = got[1:]
        d = ast_diff(want, got)
        if d: R.fail("spliced module", inp, f"{d}\n--- got\n" + "\n".join(ast.unparse(x) if isinstance(x, ast.stmt) else repr(x) for x in got))
        # it still compiles as far as the layout is concerned
        if nplace:
            try: compile(ast.Module(body=copy.deepcopy(got), type_ignores=[]), "<vq>", "exec")
            except Exception as e: R.fail("the spliced module does not compile", inp, repr(e))
        # locations of template code
        L = loc or b0loc
        bad = [ast.dump(x)[:80] for s in got for x in ast.walk(s) if hasattr(x, "lineno") and any(isinstance(y, ast.Name) and y.id.startswith("t") and (y.lineno, y.col_offset) != L for y in [x]) and isinstance(x, ast.Name) and x.id != tag]
        if bad: R.fail("template code does not carry the given location", inp, (L, bad))
        if len(R.failures) > 3: break
    st = ast.parse("x = 1").body
    for bad in ([], None): R.raises(ValueError, lambda: splice_dialect(bad, ast.parse(TAG).body), "empty body accepted", repr(bad))
    R.check(splice_dialect(st, []) is st or splice_dialect(st, []) == st, "empty template", "[]")
