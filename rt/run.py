"""python -m rt.run PID OUT.json [case]   -- run the bounded checks of one property."""
import faulthandler
import importlib
import json
import os
import signal
import sys
import time
import traceback

def main():
    pid, out = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    sys.dont_write_bytecode = True
    repo = os.environ.get("VQ_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.setrecursionlimit(3000)
    from rt import lib
    tier, seed = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VQ_BUDGET", "60" if tier == "quick" else "500"))
    R = lib.Reporter(pid, tier, seed, budget)
    def save(current=None):
        with open(out + ".tmp", "w") as f:
            json.dump({"failures": R.failures, "evals": R.evals, "distinct": len(R.keys), "samples": R.samples, "bounds": R.bounds,
                       "skipped": R.skipped, "cases": done, "current": current, "wall": time.time() - R.t0}, f)
        os.replace(out + ".tmp", out)
    done = []
    save("import")
    try:
        importlib.import_module("rt." + pid.lower())
    except Exception as e:
        R.case = "import"
        R.fail("the package under test cannot be imported or used", "import", "".join(traceback.format_exception(e))[-3000:], "import")
        save(); return
    import os as _os
    for name, f, bound in lib.CASES.get(pid, []):
        if only and name != only: continue
        R.case = name
        if bound: R.bounds[name] = bound
        save(name)
        e0 = R.evals
        class Hang(BaseException): pass
        def alarm(*a): raise Hang()
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(os.environ.get("VQ_CASE_LIMIT", "150" if tier == "quick" else "700")))
        t = time.time()
        try:
            f(R)
        except Hang:
            R.fail("does not terminate", getattr(R, "current_input", name), "".join(traceback.format_stack())[-1500:], "hang")
        except RecursionError as e:
            R.fail("unbounded recursion", getattr(R, "current_input", name), "".join(traceback.format_exception(e)[-8:])[-3000:], "recursion")
        except Exception as e:
            R.fail(f"unexpected {type(e).__name__}", getattr(R, "current_input", name), "".join(traceback.format_exception(e))[-4000:], f"exc-{type(e).__name__}")
        finally:
            signal.alarm(0)
        done.append([name, R.evals - e0, round(time.time() - t, 2)])
    save()

if __name__ == "__main__": main()
