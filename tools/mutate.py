#!/usr/bin/env python3
"""Small mechanical changes to the library that its tests do not notice, to
find out which of them the checks notice.

usage: mutate.py list OUT.jsonl [FILE ...]    mutants that pass the tests
       mutate.py run IN.jsonl OUT.jsonl       first check that catches each"""
import ast
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!=", ">=", "<="],
        ast.NotEq: ["==", ">", "<"], ast.In: ["not in"], ast.NotIn: ["in"]}


class Source:
    def __init__(self, text):
        self.text = text
        self.raw = text.encode()
        self.starts = [0]
        for l in self.raw.split(b"\n"):
            self.starts.append(self.starts[-1] + len(l) + 1)

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def get(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, n, new):
        a, b = self.span(n)
        return (self.raw[:a] + new.encode() + self.raw[b:]).decode()


def regex_variants(s):
    for m in re.finditer(r"\{(\d+)(,(\d*))?\}", s):
        lo = int(m[1])
        hi = m[3]
        alts = ["{%d%s}" % (lo + d, m[2] or "") for d in (-1, 1) if lo + d >= 0]
        if hi:
            alts += ["{%d,%d}" % (lo, int(hi) + d) for d in (-1, 1)]
        for a in alts:
            yield s[:m.start()] + a + s[m.end():]
    for m in re.finditer(r"[+*?](?!:)", s):
        for r in "+*?":
            if r != m[0]:
                yield s[:m.start()] + r + s[m.end():]
    for m in re.finditer(r"\^|\$", s):
        yield s[:m.start()] + s[m.end():]
    for m in re.finditer(r"(\w)-(\w)", s):
        yield s[:m.start()] + "%s-%s" % (m[1], chr(ord(m[2]) - 1)) + s[m.end():]
        yield s[:m.start()] + "%s-%s" % (chr(ord(m[1]) + 1), m[2]) + s[m.end():]


def mutants(text):
    src = Source(text)
    tree = ast.parse(text)
    doc = set()
    ann = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value)
        for f in ("annotation", "returns"):
            v = getattr(n, f, None)
            if v is not None:
                ann.update(ast.walk(v))
        if isinstance(n, ast.Raise):
            ann.update(ast.walk(n))
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
            ann.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in doc or n in ann:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = src.get(n.left), src.get(n.comparators[0])
            for o in SWAP.get(type(n.ops[0]), []):
                yield n.lineno, src.put(n, "%s %s %s" % (a, o, b))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (-1, 1):
                yield n.lineno, src.put(n, str(n.value + d) if n.value + d >= 0 else "(%d)" % (n.value + d))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield n.lineno, src.put(n, str(not n.value))
        elif isinstance(n, ast.Constant) and type(n.value) is str and src.get(n)[:1] in tuple("\"'r"):
            raw = src.get(n)
            if re.search(r"\[|\\d|\{\d", raw):
                for v in regex_variants(raw):
                    yield n.lineno, src.put(n, v)
            elif re.fullmatch(r"[\"'][01]{2,}[\"']", raw):
                yield n.lineno, src.put(n, raw[:-2] + ("1" if raw[-2] == "0" else "0") + raw[-1])
            elif re.fullmatch(r"[\"']\d+[\"']", raw):
                yield n.lineno, src.put(n, '"%d"' % (int(n.value) + 1))
            elif len(n.value) > 0:
                yield n.lineno, src.put(n, repr(n.value[:-1]))
        elif isinstance(n, ast.BoolOp):
            parts = [src.get(v) for v in n.values]
            op = "or" if isinstance(n.op, ast.And) else "and"
            yield n.lineno, src.put(n, "(" + (" %s " % op).join("(%s)" % p for p in parts) + ")")
            for k in range(len(parts)):
                rest = parts[:k] + parts[k + 1:]
                j = " and " if op == "or" else " or "
                yield n.lineno, src.put(n, "(" + j.join("(%s)" % p for p in rest) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n.lineno, src.put(n, src.get(n.operand))
        elif isinstance(n, ast.BinOp):
            a, b = src.get(n.left), src.get(n.right)
            for t, o in ((ast.Add, "-"), (ast.Sub, "+"), (ast.Mult, "+"), (ast.Pow, "*")):
                if isinstance(n.op, t):
                    yield n.lineno, src.put(n, "%s %s %s" % (a, o, b))
            yield n.lineno, src.put(n, a)
            yield n.lineno, src.put(n, b)
        elif isinstance(n, ast.If):
            if not n.orelse:
                yield n.lineno, src.put(n, "pass")
            else:
                yield n.lineno, src.put(n.test, "True")
                yield n.lineno, src.put(n.test, "False")
        elif isinstance(n, ast.IfExp):
            yield n.lineno, src.put(n, "(%s)" % src.get(n.body))
            yield n.lineno, src.put(n, "(%s)" % src.get(n.orelse))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield n.lineno, src.put(n, "pass")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 1 and not isinstance(n.args[0], ast.Starred):
                yield n.lineno, src.put(n, "(%s)" % src.get(n.args[0]))
            if len(n.args) == 2:
                yield n.lineno, src.put(n, "%s(%s, %s)" % (src.get(n.func), src.get(n.args[1]), src.get(n.args[0])))
            if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name):
                yield n.lineno, src.put(n, src.get(n.func.value))
            elif isinstance(n.func, ast.Attribute) and n.func.value.id not in ("self", "cls", "super", "re"):
                yield n.lineno, src.put(n, src.get(n.func.value))
        elif isinstance(n, ast.FormattedValue):
            pass
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" \
                and isinstance(n.ctx, ast.Load) and n.attr.startswith("_"):
            others = sorted(set(re.findall(r"self\.(_[a-z]\w*)\b(?!\()", text)) - {n.attr})
            for o in others:
                yield n.lineno, src.put(n, "self." + o)


def worker_dir():
    d = os.path.join(BASE, "w%d" % os.getpid())
    if not os.path.isdir(d):
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    return d


def passes(job):
    f, line, new = job
    d = worker_dir()
    p = os.path.join(d, f)
    old = open(p).read()
    try:
        open(p, "w").write(new)
        r = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
                            "no:cacheprovider", "-W", "ignore", "tests"], cwd=d, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        return job, r.returncode == 0
    finally:
        open(p, "w").write(old)


def caught(m):
    """Runs the checks on one mutant, the cases of its scheme first."""
    d = worker_dir()
    p = os.path.join(d, m["file"])
    old = open(p).read()
    out = tempfile.mkdtemp(dir=BASE)
    stem = os.path.basename(m["file"])[:-3]
    m = dict(m)
    try:
        open(p, "w").write(m["text"])
        props = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
        order = os.environ.get("ORDER", "").split(",") if os.environ.get("ORDER") else props
        odd = []
        for prop in order:
            cmd = ["timeout", "1500", "python3-vt", "-W", "ignore", HERE + "/check.py", prop, "-j", os.environ.get("J", "1")]
            if "epc_schemes" in m["file"] and stem != "base_scheme":
                cmd += ["--case", stem]
            r = subprocess.run(cmd, cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, EPCPY_REPO=d, SYMX_OUT=out))
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                m["caught"] = prop
                m["how"] = [l for l in r.stdout.splitlines() if l.startswith("counterexample")][:1]
                break
            if r.returncode or "INCONCLUSIVE" in r.stdout:
                odd.append((prop, r.returncode, (r.stdout[-300:] + r.stderr[-300:])))
        else:
            m["caught"] = None
        m["odd"] = odd
        return m
    finally:
        open(p, "w").write(old)
        shutil.rmtree(out)


def main():
    global BASE
    BASE = tempfile.mkdtemp(prefix="mutate-", dir="/tmp")
    try:
        with cf.ProcessPoolExecutor(int(os.environ.get("W", "8"))) as ex:
            if sys.argv[1] == "list":
                files = sys.argv[3:] or subprocess.run(
                    ["git", "-C", "/repo", "ls-files", "epcpy/*.py"], capture_output=True, text=True).stdout.split()
                jobs = []
                for f in files:
                    text = open("/repo/" + f).read()
                    seen = {ast.dump(ast.parse(text))}
                    for line, new in mutants(text):
                        try:
                            k = ast.dump(ast.parse(new))
                        except (SyntaxError, ValueError):
                            continue
                        if k not in seen:
                            seen.add(k)
                            jobs.append((f, line, new))
                print(len(jobs), "mutants", flush=True)
                with open(sys.argv[2], "w") as o:
                    n = 0
                    for (f, line, new), ok in ex.map(passes, jobs, chunksize=8):
                        if ok:
                            n += 1
                            a, b = open("/repo/" + f).read().split("\n"), new.split("\n")
                            i = next(k for k in range(len(a)) if k >= len(b) or a[k] != b[k])
                            o.write(json.dumps({"file": f, "line": i + 1, "old": a[i].strip(), "new": b[i].strip(),
                                                "text": new}) + "\n")
                print(n, "pass the tests")
            else:
                ms = [json.loads(l) for l in open(sys.argv[2])]
                with open(sys.argv[3], "w") as o:
                    for fu in cf.as_completed([ex.submit(caught, m) for m in ms]):
                        m = fu.result()
                        o.write(json.dumps(m) + "\n")
                        o.flush()
    finally:
        shutil.rmtree(BASE)


if __name__ == "__main__":
    main()
