from rt.lib import *
from mcpyrate.pycachecleaner import getpycachedirs, deletepycachedirs

NAMES = ["__pycache__", "a", "b", "__pycache__x", "_pycache_", "__PYCACHE__", "pkg", "__pycache__.bak", ".hidden"]
def build(rng, d, depth, links, files):
    for n in rng.sample(NAMES, rng.randrange(1, 5)):
        p = os.path.join(d, n)
        k = rng.random()
        if k < .18:
            with open(p if n != "__pycache__" or rng.random() < .3 else p + "_f", "w") as f: f.write("x")
        elif k < .3: links.append(p)
        elif depth:
            os.mkdir(p); build(rng, p, depth - 1, links, files)
            for i in range(rng.randrange(3)):
                with open(os.path.join(p, f"m{i}.pyc"), "w") as f: f.write("x")
            if rng.random() < .2:
                os.chmod(os.path.join(p), 0o755)
        else: os.mkdir(p)

def snap(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(r, x)
            out[p] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",) if os.path.isdir(p) else ("file", open(p).read())
    return out
def under_cache(p, d):
    """p is, or is inside, a real __pycache__ directory under d (no component of the way is a link)"""
    rel = os.path.relpath(p, d).split("/")
    cur = d
    for i, c in enumerate(rel):
        cur = os.path.join(cur, c)
        if os.path.islink(cur): return False
        if c == "__pycache__" and os.path.isdir(cur): return True
    return False

@case("C20", "random directory trees of depth <= 4 with files, links and look-alike names, in a scratch directory")
def trees(R):
    rng = R.rng()
    for t in range(150 if not R.deep else 1500):
        with scratch() as top:
            top = os.path.realpath(top)
            d, outside = os.path.join(top, "root"), os.path.join(top, "outside")
            os.mkdir(d); os.mkdir(outside); os.makedirs(os.path.join(outside, "sub", "__pycache__"))
            os.makedirs(os.path.join(outside, "__pycache__"))
            for x in ("keep.txt", "sub/keep.py", "__pycache__/k.pyc", "sub/__pycache__/k.pyc"):
                with open(os.path.join(outside, x), "w") as f: f.write("k")
            links = []
            build(rng, d, 4, links, [])
            for p in links:
                if os.path.lexists(p): continue
                os.symlink(rng.choice([outside, os.path.join(outside, "sub"), os.path.join(outside, "keep.txt"), os.path.join(outside, "__pycache__"), "/nonexistent/x", d]), p)
            before = snap(top)
            desc = sorted((os.path.relpath(p, top), v) for p, v in before.items())
            R.current_input = desc
            doomed = {p for p in before if p.startswith(d + "/") and under_cache(p, d)}
            caches = {p for p in doomed if os.path.basename(p) == "__pycache__" and before[p] == ("dir",)}
            arg = d
            k = rng.random()
            cwd = os.getcwd()
            try:
                if k < .2: os.chdir(top); arg = "root"
                elif k < .3: os.chdir(d); arg = "."
                elif k < .4: arg = d + "/"
                got = getpycachedirs(arg)
                R.note(str(desc))
                R.check(sorted(os.path.realpath(x) for x in got) == sorted(caches) and len(got) == len(caches), "listed cache directories", desc, (got, sorted(caches)))
                R.check(all(x.startswith(arg) for x in got), "entries start with the given path", desc, got)
                R.check(snap(top) == before, "listing changed the file system", desc)
                try: r = deletepycachedirs(arg)
                except OSError as e:
                    R.fail("cleaning fails", desc, repr(e)); continue
            finally: os.chdir(cwd)
            after = snap(top)
            want = {p: v for p, v in before.items() if p not in doomed}
            if after != want:
                R.fail("cleaning removed the wrong things", desc, dict(missing=sorted(set(want) - set(after)), left=sorted(set(after) - set(want))))

@case("C20", "missing paths, files, links; a clean tree; concurrent disappearance")
def arguments(R):
    with scratch() as d:
        f = write(d, "file.txt", "x"); os.makedirs(os.path.join(d, "t", "__pycache__"))
        os.symlink(os.path.join(d, "nowhere"), os.path.join(d, "dangling"))
        for bad in (os.path.join(d, "missing"), f, os.path.join(d, "dangling"), os.path.join(d, "missing", "__pycache__")):
            b = snap(d)
            R.raises(OSError, lambda: getpycachedirs(bad), "non-directory accepted by listing", bad)
            R.raises(OSError, lambda: deletepycachedirs(bad), "non-directory accepted by cleaning", bad)
            R.check(snap(d) == b, "something was deleted", bad)
        os.makedirs(os.path.join(d, "u"))
        R.eq(getpycachedirs(os.path.join(d, "u")), [], "listing an empty directory", "u")
        deletepycachedirs(os.path.join(d, "u"))
        R.check(os.path.isdir(os.path.join(d, "u")), "the given directory itself is removed", "u")
        p = os.path.join(d, "t", "__pycache__"); write(d, "t/__pycache__/x.pyc", "x")
        # another process removes things while we do
        real_unlink, real_rmdir = os.unlink, os.rmdir
        def gone_unlink(x, *a, **k): real_unlink(x, *a, **k); raise FileNotFoundError(2, "gone", x)
        def gone_rmdir(x, *a, **k): real_rmdir(x, *a, **k); raise FileNotFoundError(2, "gone", x)
        os.makedirs(os.path.join(p, "sub"))
        os.unlink, os.rmdir = gone_unlink, gone_rmdir
        try:
            try: deletepycachedirs(os.path.join(d, "t"))
            except FileNotFoundError as e: R.fail("a file that disappeared stops the cleaning", "race", repr(e))
        finally: os.unlink, os.rmdir = real_unlink, real_rmdir
        R.check(not os.path.exists(p), "race: not cleaned", "race")
