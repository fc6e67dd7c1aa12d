#!/usr/bin/env python3
"""Runs checks on behaviour-preserving rewritings of the library: each set of
tools/refactorings.py is applied to a scratch clone, the tests must pass, and
every check must stay quiet with nothing inconclusive.

usage: refactor.py [-p C01,C02] [SET ...]"""
import ast
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import textwrap
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def locate(tree, qual):
    body = tree.body
    node = None
    for part in qual.split("."):
        node = next(n for n in body if getattr(n, "name", None) == part)
        body = node.body
    return node


def replace_function(path, qual, new):
    src = open(path).read()
    node = locate(ast.parse(src), qual)
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    lines = src.split("\n")
    new = textwrap.indent(textwrap.dedent(new).strip("\n"), " " * node.col_offset)
    lines[first - 1:node.end_lineno] = new.split("\n")
    open(path, "w").write("\n".join(lines))


def apply(repo, edits):
    for e in edits:
        f = os.path.join(repo, e[0])
        if len(e) == 3 and re.fullmatch(r"[\w.]+", e[1]):
            replace_function(f, e[1], e[2])
        else:
            s = open(f).read()
            assert s.count(e[1]) >= 1, (e[0], e[1])
            open(f, "w").write(s.replace(e[1], e[2]))


def main():
    args = sys.argv[1:]
    props = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
    if "-p" in args:
        k = args.index("-p")
        props = args[k + 1].split(",")
        del args[k:k + 2]
    sets = runpy.run_path(os.path.join(HERE, "tools", "refactorings.py"))["SETS"]
    for name, edits in sets.items():
        if args and name not in args:
            continue
        wt = tempfile.mkdtemp(prefix="refac-", dir="/tmp")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", wt + "/r"], check=True)
            apply(wt + "/r", edits)
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore",
                                "tests"], cwd=wt + "/r", capture_output=True, text=True,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
            last = t.stdout.strip().splitlines()[-1]
            print("== %s: %s" % (name, last), flush=True)
            if "failed" in last or "error" in last:
                print(t.stdout[-3000:])
                continue
            for p in props:
                t0 = time.time()
                r = subprocess.run(["python3-vt", "-W", "ignore", HERE + "/check.py", p] + (["-j", os.environ["J"]] if "J" in os.environ else []), cwd=HERE,
                                   capture_output=True, text=True, env=dict(os.environ, EPCPY_REPO=wt + "/r"))
                out = r.stdout.strip().splitlines()
                odd = r.returncode or "INCONCLUSIVE" in r.stdout
                print("%-12s %s exit %d %4.0f s %s" % (name, p, r.returncode, time.time() - t0,
                                                      " | ".join(out[-3:])[:700] + r.stderr[-300:] if odd else ""),
                      flush=True)
        finally:
            shutil.rmtree(wt)


if __name__ == "__main__":
    main()
