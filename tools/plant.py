#!/usr/bin/env python3
"""Builds planted bugs under seeded/ and keeps those that build, pass the
stable tests and whose demonstration tells the difference.

usage: plant.py DEFINITIONS.py   (a list BUGS of dicts: id, property, edits,
demo, needs, breaks)"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
ENV.pop("PYTHONPATH", None)
DEMO_SH = """#!/bin/bash
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)" /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)




def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        wt = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        try:
            sh(["git", "clone", "-q", "/repo", wt + "/r"], "/tmp")
            r = wt + "/r"
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "SKIP: %d matches in %s for %r" % (s.count(old), f, old))
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            diff = sh(["git", "diff"], r).stdout
            d = os.path.join(wt, "seed")
            os.mkdir(d)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
            open(d + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "tests"], r)
            last = t.stdout.strip().splitlines()[-1]
            bad = sh(["bash", d + "/demo.sh"], r)
            good = sh(["bash", d + "/demo.sh"], "/repo")
            verdict = "889 passed" in last and "failed" not in last and bad.returncode != 0 and good.returncode == 0
            print(b["id"], b["property"], "KEPT" if verdict else "DROPPED", "|", last, "| demo bad", bad.returncode,
                  "good", good.returncode, "" if verdict else (good.stderr + bad.stdout + bad.stderr)[-400:])
            if verdict:
                dst = os.path.join(HERE, "seeded", b["id"])
                if os.path.isdir(dst):
                    shutil.rmtree(dst)
                shutil.copytree(d, dst)
        finally:
            shutil.rmtree(wt)


if __name__ == "__main__":
    main()
