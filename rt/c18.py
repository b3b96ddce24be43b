from rt.lib import *
from mcpyrate.bunch import Bunch, bunchify
from collections.abc import Mapping, MutableMapping, Container, Iterable, Sized
import collections

NAMES = ["a", "b", "c", "x1", "_p", "self", "name", "other", "data", "bindings", "_datax", "reserved", "λ"]
RES = ["get", "pop", "keys", "items", "values", "copy", "update", "clear", "replace", "setdefault", "popitem", "__len__", "_data", "_reserved_names", "__class__", "__eq__"]
VALS = [0, 1, None, "", "s", (), (1, 2), [], [3], 2.5, False, True]

def state(b): return list(b.items())

@case("C18", "random operation sequences of length <= 40 against a dict; names/values from fixed pools")
def model(R):
    rng = R.rng()
    for t in range(400 if not R.deep else 6000):
        d = {}
        init = {k: rng.choice(VALS) for k in rng.sample(NAMES, rng.randrange(4)) if k != "self"}
        b = Bunch(**init); d.update(init)
        if rng.random() < .3:
            d2 = dict(d); b = bunchify(d2)
        log = [f"Bunch(**{init})"]
        for _ in range(rng.randrange(1, 40)):
            op = rng.choice(["seta", "geta", "dela", "set", "get", "del", "get2", "get3", "pop", "popd", "popitem", "setdef", "setdef1", "update", "clear", "in", "len", "iter", "views", "eq", "ne", "copy", "replace", "reserved", "hasattr", "repr"])
            k = rng.choice(NAMES); v = rng.choice(VALS); v2 = rng.choice(VALS)
            log.append((op, k, v))
            R.current_input = log
            def both(f, g, exc_ok=False):
                try: x = ("ok", f())
                except Exception as e: x = ("exc", type(e))
                try: y = ("ok", g())
                except Exception as e: y = ("exc", type(e))
                R.note(str(log))
                if x != y or (x[0] == "ok" and type(x[1]) is not type(y[1]) and not isinstance(x[1], Bunch)):
                    R.fail(f"{op} disagrees with dict", log, f"bunch: {x}\ndict: {y}")
            if op == "seta": both(lambda: setattr(b, k, v), lambda: d.__setitem__(k, v))
            elif op == "geta":
                try: x = ("ok", getattr(b, k))
                except (AttributeError, KeyError): x = ("miss",)
                R.check(x == (("ok", d[k]) if k in d else ("miss",)), "attribute read", log, x)
            elif op == "dela":
                try: delattr(b, k); x = True
                except (AttributeError, KeyError): x = False
                R.check(x == (k in d), "attribute deletion", log, x); d.pop(k, None)
            elif op == "set": both(lambda: b.__setitem__(k, v), lambda: d.__setitem__(k, v))
            elif op == "get": both(lambda: b[k], lambda: d[k])
            elif op == "del": both(lambda: b.__delitem__(k), lambda: d.__delitem__(k))
            elif op == "get2": both(lambda: b.get(k), lambda: d.get(k))
            elif op == "get3": both(lambda: b.get(k, v2), lambda: d.get(k, v2))
            elif op == "pop": both(lambda: b.pop(k), lambda: d.pop(k))
            elif op == "popd": both(lambda: b.pop(k, v2), lambda: d.pop(k, v2))
            elif op == "popitem": both(lambda: b.popitem(), lambda: d.popitem())
            elif op == "setdef": both(lambda: b.setdefault(k, v), lambda: d.setdefault(k, v))
            elif op == "setdef1": both(lambda: b.setdefault(k), lambda: d.setdefault(k))
            elif op == "update":
                u = {n: rng.choice(VALS) for n in rng.sample(NAMES, 2)}
                log.append(u); both(lambda: b.update(**u), lambda: d.update(u))
            elif op == "clear":
                if rng.random() < .4: both(lambda: b.clear(), lambda: d.clear())
            elif op == "in": both(lambda: k in b, lambda: k in d)
            elif op == "len": both(lambda: len(b), lambda: len(d)); both(lambda: bool(b), lambda: bool(d))
            elif op == "iter": both(lambda: list(b), lambda: list(d))
            elif op == "views":
                both(lambda: list(b.keys()), lambda: list(d.keys())); both(lambda: list(b.values()), lambda: list(d.values())); both(lambda: list(b.items()), lambda: list(d.items()))
                kv = b.keys(); iv = b.items(); vv = b.values()
                b["zz"] = 5; d["zz"] = 5
                R.check(list(kv) == list(d) and list(iv) == list(d.items()) and list(vv) == list(d.values()), "views are live", log, (list(kv), list(d)))
            elif op == "eq":
                o = dict(d)
                if rng.random() < .5: o[k] = v
                ob = bunchify(dict(o))
                both(lambda: b == o, lambda: d == o); both(lambda: o == b, lambda: o == d); both(lambda: b == ob, lambda: d == o); both(lambda: ob == b, lambda: o == d)
                both(lambda: b == 5, lambda: d == 5)
            elif op == "ne":
                o = dict(d)
                if rng.random() < .5: o[k] = v
                ob = bunchify(dict(o))
                both(lambda: b != o, lambda: d != o); both(lambda: b != ob, lambda: d != o); both(lambda: b != None, lambda: d != None)
            elif op == "copy":
                c = b.copy()
                R.check(type(c) is Bunch and c is not b and state(c) == list(d.items()), "copy content", log, state(c))
                c["copied"] = 1; c.pop(k, None); 
                R.check(state(b) == list(d.items()), "copy is independent", log, state(b))
                c2 = b.copy(); b["orig"] = 1; d["orig"] = 1
                R.check("orig" not in c2 or ("orig", 1) in c2.items() and len(c2) <= len(d), "copy is independent (2)", log)
            elif op == "replace":
                o = Bunch(); od = {n: rng.choice(VALS) for n in rng.sample(NAMES, 3)}
                for q, w in od.items(): o[q] = w
                b.replace(o); d = dict(od)
                o["later"] = 1
                R.check(state(b) == list(d.items()), "replace copies shallowly", log, state(b))
                b["mine"] = 2; d["mine"] = 2
                R.check("mine" not in o, "replace does not share storage", log)
            elif op == "reserved":
                r = rng.choice([x for x in RES if x not in ("_data", "_reserved_names")])
                before = state(b)
                try: setattr(b, r, 5); ok = False
                except AttributeError: ok = True
                R.check(ok and state(b) == before, f"reserved name {r} writable", log)
                R.check(not isinstance(getattr(b, r), int), f"reserved {r} stays a method", log)
            elif op == "hasattr":
                R.check(hasattr(b, k) == (k in d), "hasattr", (k, d), fid="hasattr")
                R.check(getattr(b, k, "dflt") == d.get(k, "dflt"), "getattr default", (k, d), fid="hasattr")
            elif op == "repr": R.check(all(n in repr(b) for n in d), "repr mentions items", log, repr(b))
            R.check(state(b) == list(d.items()) and list(b) == list(d), "items", log, f"{state(b)} vs {list(d.items())}")
            if R.failures and len(R.failures) > 4: return

@case("C18", "reserved names given as items or keywords")
def reserved_items(R):
    for r in RES:
        b = Bunch()
        b[r] = 42
        R.check(b[r] == 42 and r in b and list(b) == [r], "reserved name as an item", r)
        R.check(getattr(b, r) != 42, "reserved attribute stays", r)
        if r not in ("_data", "_reserved_names"):
            b2 = Bunch(**{r: 42})
            R.check(b2[r] == 42 and not isinstance(getattr(b2, r), int), "reserved keyword", r)
    R.raises(TypeError, lambda: Bunch().replace({"a": 1}), "replace rejects non-bunch", "dict")
    R.raises(TypeError, lambda: Bunch().replace(None), "replace rejects non-bunch", "None")

class MyMap(MutableMapping):
    def __init__(self, d): self.d = d
    def __getitem__(self, k): return self.d[k]
    def __setitem__(self, k, v): self.d[k] = v
    def __delitem__(self, k): del self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)

@case("C18", "bunchify on dict, OrderedDict, defaultdict, UserDict, a custom MutableMapping, Bunch, and on non-mappings")
def wrap(R):
    for mk in (dict, collections.OrderedDict, collections.UserDict, lambda d: collections.defaultdict(int, d), MyMap, lambda d: collections.ChainMap(d)):
        d = mk({"foo": 1, "bar": 2})
        b = bunchify(d)
        R.check(type(b) is Bunch and b.foo == 1 and b["bar"] == 2, "wrapped items", repr(mk))
        b.foo = 10; d["baz"] = 3
        R.check(d["foo"] == 10 and b.baz == 3 and b["baz"] == 3, "shared storage", repr(mk))
        del b.bar
        R.check("bar" not in d, "shared deletion", repr(mk))
        c = b.copy(); c.foo = 11
        R.check(d["foo"] == 10 and type(c) is Bunch, "copy of wrapped is independent", repr(mk))
    b = Bunch(a=1)
    R.check(bunchify(b) is b, "bunchify(bunch) is the bunch", "Bunch(a=1)")
    e = Bunch()
    R.check(bunchify(e) is e, "bunchify(empty bunch) is it", "Bunch()")
    ed = {}
    be = bunchify(ed); be.x = 1
    R.check(ed == {"x": 1}, "empty mapping is shared", "{}")
    for bad in ([], (), set(), "abc", 5, None, [("a", 1)], frozenset(), types.MappingProxyType({"a": 1})):
        R.raises(TypeError, lambda: bunchify(bad), "non-mapping rejected", repr(bad))
    for bad in ({"a b": 1}, {"": 1}, {"1a": 1}, {"ok": 1, "not-ok": 2}, {"a.b": 1}):
        R.raises(ValueError, lambda: bunchify(bad), "bad key rejected", repr(bad))
    R.raises(ValueError, lambda: bunchify({1: 2}), "non-string key rejected", "{1: 2}", fid="nonstr-key")
    for cls in (Mapping, MutableMapping, Container, Iterable, Sized):
        R.check(issubclass(Bunch, cls), "virtual base", cls.__name__)

@case("C18", "copy module")
def copymod(R):
    b = Bunch(a=[1], b=2)
    c = copy.copy(b)
    R.check(type(c) is Bunch and c == b and c.a is b.a, "copy.copy", "Bunch(a=[1], b=2)")
    c.b = 3
    R.check(b.b == 2, "copy.copy independent", "Bunch(a=[1], b=2)")
    d = copy.deepcopy(b)
    R.check(type(d) is Bunch and d == b and d.a is not b.a, "copy.deepcopy", "Bunch(a=[1], b=2)")
    d.a.append(1)
    R.check(b.a == [1], "deepcopy independent", "Bunch")
