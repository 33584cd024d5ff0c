#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source."""
import importlib, os, sys, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "analysis"))
sys.path.insert(0, os.path.join(VERIF, "analysis", "checks"))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    import checklib, threading
    mod = importlib.import_module(pid.lower())
    ck = checklib.Check(pid, mod.RULE, getattr(mod, "ASSUMPTIONS", ()))
    try:
        mod.check(ck)
    except Exception as e:
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ck.viol.setdefault("analysis-incomplete", (f"the analysis could not be completed: {type(e).__name__}: {e} "
                                                   f"[{os.path.basename(tb.filename)}:{tb.name}]", None))
    return ck.finish()


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(100000)
    rc = [1]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
