#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   run the rules of one property on /repo's working tree
check.py --setup                        build the driver and dump the program once"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis"))
import framework                              # noqa: E402


if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main(a):
    if a and a[0] == "--setup":
        framework.dump()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return framework.check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
