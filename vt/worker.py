import importlib
import os
import sys

if __name__ == "__main__":
    prop, seed, rfd, wfd, errpath = sys.argv[1:6]
    p = os.environ.get("VT_OT_PATH")
    if p:
        sys.path.insert(0, p)
    from vt import core

    mod = importlib.import_module("vt.checks." + prop.lower())
    core.worker_loop(mod, prop, int(seed), int(rfd), int(wfd), errpath)
