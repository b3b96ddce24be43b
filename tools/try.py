import sys, importlib, os
sys.path.insert(0, "/verif"); sys.path.insert(0, os.environ.get("REPO", "/repo"))
sys.dont_write_bytecode = True
from pyvc.verify import *
from pyvc.engine import Source
m = importlib.import_module("contracts." + sys.argv[1])
only = sys.argv[2:] 
src = Source("/repo")
for C in m.CONTRACTS:
    if only and C.__name__ not in only: continue
    r = run_contract(C(), src, Registry, verbose=True)
    print(f"{C.__name__:28s} {r.status:8s} paths={r.paths} obl={r.ok}/{r.total} {r.wall:.2f}s {r.reach} {r.backends} {r.reason[:200]}")
