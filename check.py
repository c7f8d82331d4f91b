#!/usr/bin/env python3
"""check.py C07            run the check of a property (VERIF_TIER, VERIF_SEED)
check.py --replay FILE    re-execute a recorded violation
check.py --exec C07       execute the case on stdin in this process, print the outcome
"""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gsim import core


def main(a):
    if a and a[0] == "--replay":
        return core.replay(a[1])
    if a and a[0] == "--exec":
        mod = core.load(a[1])
        env = core.Env(98)
        try:
            r = core.execute(mod, env, json.load(sys.stdin), trace="--trace" in a)
        finally:
            env.close()
        json.dump(r, sys.stdout)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for i, x in enumerate(a):
        if x == "--tier":
            tier = a[i + 1]
    return core.check(a[0], tier if tier in ("quick", "thorough") else "quick", seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
