from rt.lib import *
import pathlib
from mcpyrate.coreutils import resolve_package, relativize, match_syspath

def within(p, root):
    return p == root or root == "/" or p.startswith(root + "/")
def ref_match(f, path):
    p = os.path.realpath(os.path.expanduser(f))
    best = None
    for e in path:
        r = os.path.realpath(os.path.expanduser(e) if e else ".")
        if within(p, r) and (best is None or len(r.rstrip("/").split("/")) > len(best.rstrip("/").split("/"))): best = r
    return best, p

@case("C17", "random sys.path lists over a directory tree with prefix-named siblings, symlinks and relative entries")
def resolution(R):
    rng = R.rng()
    oldpath, oldcwd, oldhome = sys.path, os.getcwd(), os.environ.get("HOME")
    with scratch() as d:
        d = os.path.realpath(d)
        names = ["a", "ab", "a.b", "lib", "libx", "λ"]
        dirs = [d]
        for depth in range(4):
            for b in [x for x in dirs if x.count("/") - d.count("/") == depth]:
                for n in rng.sample(names, 3): dirs.append(os.path.join(b, n))
        dirs = dirs[:90]
        for x in dirs: os.makedirs(x, exist_ok=True)
        links = []
        for i in range(6):
            l = os.path.join(d, f"link{i}")
            os.symlink(rng.choice(dirs[1:]), l); links.append(l)
        files = [os.path.join(x, n) for x in dirs for n in ("m.py", "abc.py")] + [os.path.join(l, "m.py") for l in links]
        try:
            os.environ["HOME"] = rng.choice(dirs[1:])
            for _ in range(1200 if not R.deep else 12000):
                os.chdir(rng.choice(dirs))
                es = []
                for _ in range(rng.randrange(0, 6)):
                    x = rng.choice(dirs + links)
                    k = rng.random()
                    if k < .15: x = os.path.relpath(x)
                    elif k < .2: x = ""
                    elif k < .3: x = x + "/"
                    elif k < .4: x = os.path.join(x, "..", os.path.basename(x))
                    elif k < .45: x = "~"
                    elif k < .5: x = x + "/nonexistent"
                    elif k < .55: x = x + ".zip"
                    elif k < .57: x = "/"
                    elif k < .6: x = "~/" + rng.choice(names)
                    es.append(x)
                f = rng.choice(files)
                k = rng.random()
                if k < .15: f = os.path.relpath(f)
                elif k < .25: f = pathlib.Path(f)
                elif k < .35: f = os.path.join(os.path.dirname(f), "new", "x", "__init__.py")
                elif k < .4: f = "/usr/lib/nowhere/" + os.path.basename(f)
                elif k < .45: f = "~/m.py"
                sys.path = list(es)
                want, p = ref_match(str(f), es)
                inp = dict(file=str(f), path=es, cwd=os.getcwd())
                R.note(str(inp)); R.current_input = inp
                try: got = ("ok", match_syspath(f))
                except ValueError: got = ("ValueError",)
                finally: sys.path = oldpath
                if want is None:
                    if got != ("ValueError",): R.fail("a file outside every entry is attributed to one", inp, got)
                elif got[0] != "ok" or str(got[1]) != want or not isinstance(got[1], pathlib.Path): R.fail("wrong path entry", inp, (got, want))
                sys.path = list(es)
                try: got = ("ok", relativize(f))
                except ValueError: got = ("ValueError",)
                finally: sys.path = oldpath
                if want is None: ok = got == ("ValueError",)
                else:
                    rel = p[len(want):].lstrip("/")
                    ok = got[0] == "ok" and str(got[1][0]) == want and got[1][1] == rel
                if not ok: R.fail("relativize", inp, (got, want))
                # package
                cont = os.path.dirname(p)
                want2, _ = ref_match(cont, es)
                sys.path = list(es)
                try: got = ("ok", resolve_package(f))
                except ValueError: got = ("ValueError",)
                except ImportError: got = ("ImportError",)
                finally: sys.path = oldpath
                if want2 is None: exp = ("ValueError",)
                elif want2 == cont: exp = ("ImportError",)
                else: exp = ("ok", cont[len(want2):].lstrip("/").replace("/", "."))
                if got != exp: R.fail("package name", inp, f"got {got} expected {exp}")
        finally:
            sys.path = oldpath; os.chdir(oldcwd)
            if oldhome is not None: os.environ["HOME"] = oldhome
