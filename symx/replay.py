"""Replay worker: runs harness functions on the untouched library with
concrete inputs.  Reads one JSON request per line, answers one per line."""
import importlib
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")


class Outcome:
    def __init__(self, value=None, exc=None, refusal=None):
        self.ok = exc is None
        self.value = value
        self.exc = exc
        self.refused = exc is not None and isinstance(exc, refusal)
        self.kind = "ok" if exc is None else "refused" if self.refused else type(exc).__name__


class Assumption(BaseException):
    pass


class ConcreteHarness:
    symbolic = False

    def __init__(self, refusal):
        self.refusal = refusal
        self.observed = []
        self.failed = []

    def require(self, cond, label):
        if not cond:
            self.failed.append(label)

    def observe(self, label, value):
        self.observed.append((label, value))

    def assume(self, cond):
        if not cond:
            raise Assumption()

    def attempt(self, fn):
        try:
            v = fn()
        except Exception as e:
            return Outcome(None, e, self.refusal)
        return Outcome(v)

    def fresh(self, fn):
        return json.loads(in_child(lambda: json.dumps(fn())))

    def member(self, enum, value):
        return enum(value)

    def same(self, a, b):
        return a == b


def show(v):
    if isinstance(v, (str, int, float, type(None), bool)):
        return v
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if isinstance(v, bytes):
        return v.hex()
    return type(v).__name__


def run(req):
    import epcpy
    mod, fn = req["fn"].split(":")
    f = getattr(importlib.import_module(mod), fn)
    hx = ConcreteHarness(epcpy.ConvertException)
    out = {"met": True, "exc": None}
    try:
        f(hx, req["params"], req["inputs"])
    except Assumption:
        out["met"] = False
    except Exception as e:
        out["exc"] = "%s: %s" % (type(e).__name__, e)
    out["failed"] = hx.failed
    out["observed"] = [[k, show(v)] for k, v in hx.observed]
    return out


def in_child(fn):
    """Text returned by fn, run in a forked child so that no state survives."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = fn().encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    return buf.decode()


def isolate(req):
    return in_child(lambda: json.dumps(run(req))) or \
        json.dumps({"met": True, "exc": "child died", "failed": [], "observed": []})


def serve():
    import epcpy
    import epcpy.utils.parsers
    stdin, stdout = sys.stdin, sys.stdout
    for m in os.environ.get("VHARNESS_PRELOAD", "").split(","):
        if m:
            importlib.import_module(m)
    for line in stdin:
        req = json.loads(line)
        if req.get("isolate", True):
            stdout.write(isolate(req) + "\n")
        else:
            stdout.write(json.dumps(run(req)) + "\n")
        stdout.flush()


def setup_path():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("EPCPY_REPO", "/repo")
    sys.path[:0] = [repo, here]
    sys.dont_write_bytecode = True
    import epcpy
    assert os.path.abspath(epcpy.__file__).startswith(os.path.abspath(repo) + os.sep), epcpy.__file__


if __name__ == "__main__":
    setup_path()
    serve()
