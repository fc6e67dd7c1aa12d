#!/usr/bin/env python3
"""Runs the checks against planted bugs: each bug is applied to a scratch clone
of the repository and the check of its property (or the ones given) runs on it.

usage: matrix.py [-a] [BUG ...]     (-a: every check, not only the bug's own)"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    every = "-a" in args
    only = [a for a in args if a != "-a"]
    checks = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
    for d in sorted(glob.glob(HERE + "/seeded/*")):
        name = os.path.basename(d)
        if only and name not in only:
            continue
        prop = json.load(open(d + "/meta.json"))["property"]
        wt = tempfile.mkdtemp(prefix="matrix-", dir="/tmp")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", wt + "/r"], check=True)
            subprocess.run(["git", "apply", d + "/patch.diff"], cwd=wt + "/r", check=True)
            for p in checks if every else [prop]:
                t0 = time.time()
                r = subprocess.run(["python3-vt", HERE + "/check.py", p], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, EPCPY_REPO=wt + "/r"))
                v = re.search(r"VIOLATION property=(\S+)", r.stdout)
                ce = re.search(r"counterexample (.*)", r.stdout)
                print("%-26s %s exit %d %-9s %4.0f s  %s" % (
                    name, p, r.returncode, "CAUGHT" if r.returncode == 1 and v and v[1] == p else
                    "quiet" if r.returncode == 0 else "ERROR", time.time() - t0,
                    (ce[1] if ce else r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:])[:170]),
                    flush=True)
        finally:
            shutil.rmtree(wt)


if __name__ == "__main__":
    main()
