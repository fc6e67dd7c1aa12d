#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier T] [--case SUBSTRING] [-v]   decide a property
   check.py replay FILE                                   replay a counterexample"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VT = "/opt/veriftools/pyvenv/bin/python"


def main():
    try:
        import z3
    except ImportError:
        os.execv(VT, [VT] + sys.argv)
    from symx import runner
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("-j", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.what == "replay":
        return runner.replay_file(a.file)
    return runner.check(a.what, a.tier, int(os.environ.get("VERIF_SEED", "0") or 0), a.case, a.j, a.v)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
