"""Runs the cases of a property: symbolic exploration, replay, evidence."""
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EPCPY_REPO", "/repo")
OUT = os.environ.get("SYMX_OUT", HERE)      # set by tools/mutate.py only

LIMITS = {
    # seconds per case, seconds for the whole run, paths per case
    "quick": (60, 420, 3000),
    "thorough": (400, 840, 40000),
}


def setup():
    """Load the library under test and the harnesses through the rewriter."""
    from . import rewrite
    sys.setrecursionlimit(20000)
    rewrite.install({"epcpy": os.path.join(REPO, "epcpy"), "vharness": os.path.join(HERE, "vharness")})
    import epcpy
    import epcpy.utils.parsers


class Replayer:
    def __init__(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pyc",
                   EPCPY_REPO=REPO)
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "symx", "replay.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
        self.n = 0

    def __call__(self, fn, params, inputs):
        self.n += 1
        self.p.stdin.write(json.dumps({"fn": fn, "params": params, "inputs": inputs}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("replay worker died")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


_replayer = None
_state = None
_budget = None


def replayer():
    global _replayer
    if _replayer is None:
        _replayer = Replayer()
    return _replayer


def norm(v):
    from .replay import show
    return json.loads(json.dumps(show(v)))


def run_case(job):
    """Explore one case completely; returns a JSON-able report."""
    case, limits, stop_at, seed = job
    from . import core, terms, inputs, harness, rewrite, models
    import z3
    global _state
    import epcpy
    z3.set_param("smt.random_seed", seed % 1000)
    z3.set_param("sat.random_seed", seed % 1000)
    mod, fname = case["fn"].split(":")
    m = importlib.import_module(mod)
    fn = getattr(m, fname)
    if _state is None:
        _state = rewrite.State(["epcpy", "vharness"])
    core.STATS = harness.STATS = models.core.STATS = core.Stats()
    st = core.STATS
    t0 = time.time()
    deadline = min(t0 + limits[0], stop_at)
    ex = core.Explorer(limits[2], deadline)
    models.MemoModel.enabled = bool(case.get("memo"))
    rep = {"id": case["id"], "replays": 0, "matched": 0, "mismatch": [], "confirmed": [], "unconfirmed": [],
           "unknown": 0, "reached": 0, "complete_paths": 0, "partial": 0, "sample": None, "error": None}
    if t0 > stop_at:
        rep["error"] = "not run: time budget used up"
        rep["stats"] = stats_dict(st)
        rep["exhausted"] = False
        rep["wall"] = 0
        return rep
    rp = replayer()

    def concrete(model, ins):
        return {k: terms.model_value(model, v) for k, v in ins.items()}

    def body(c):
        _state.restore()
        ins = {}
        for name, spec in case["inputs"]:
            ins[name] = inputs.build(name, spec)
        c.hx = hx = harness.SymHarness(c, epcpy.ConvertException, _state.restore)
        c.ins = ins
        c.crash = None
        try:
            fn(hx, case["params"], ins)
        except Exception as e:
            c.crash = "%s: %s" % (type(e).__name__, e)
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
        return hx

    try:
        for c, hx in ex.run(body):
            hx = getattr(c, "hx", None)
            if hx is None:
                continue
            rep["reached"] += hx.reached
            rep["unknown"] += len(hx.unknown) + bool(c.unknown)
            core.CTX = c
            try:
                for label, model in hx.candidates:
                    ci = concrete(model, c.ins)
                    r = rp(case["fn"], case["params"], ci)
                    rep["replays"] += 1
                    if r["met"] and (r["failed"] or r["exc"]):
                        rep["confirmed"].append({"label": label, "inputs": ci, "got": r})
                    else:
                        rep["unconfirmed"].append({"label": label, "inputs": ci, "got": r})
                model = c.get_model()
                if model is None:
                    continue
                ci = concrete(model, c.ins)
                obs = norm([[k, terms.model_value(model, v)] for k, v in hx.observed])
                r = rp(case["fn"], case["params"], ci)
                rep["replays"] += 1
                if not r["met"]:
                    rep["mismatch"].append({"inputs": ci, "why": "assumption"})
                elif r["failed"] or (r["exc"] and c.crash):
                    rep["confirmed"].append({"label": ",".join(r["failed"]) or r["exc"], "inputs": ci, "got": r})
                elif r["exc"] or c.crash:
                    rep["mismatch"].append({"inputs": ci, "why": "exception", "sym": c.crash, "real": r["exc"]})
                elif r["observed"] != obs:
                    rep["mismatch"].append({"inputs": ci, "why": "value", "sym": obs, "real": r["observed"]})
                else:
                    rep["matched"] += 1
                    rep["complete_paths"] += 1
                    if c.partial:
                        rep["partial"] += 1
                    if rep["sample"] is None:
                        rep["sample"] = {"inputs": ci, "observed": obs}
            except core.Control:
                pass
            finally:
                core.CTX = None
            if rep["confirmed"] and len(rep["confirmed"]) >= 3:
                break
    except AssertionError as e:
        rep["error"] = "engine: %s" % (e,)
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
    except Exception as e:
        rep["error"] = "engine: %s: %s" % (type(e).__name__, e)
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
    rep["exhausted"] = ex.exhausted and not ex.work
    rep["stats"] = stats_dict(st)
    rep["wall"] = time.time() - t0
    return rep


def stats_dict(st):
    d = dict(st.__dict__)
    d["functions"] = sorted(d["functions"])
    return d


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            out = [k for k in json.load(f)["findings"] if k.get("status") == "known"]
    return out


def known_match(known, prop, case, v):
    for k in known:
        if k["property"] == prop and k["case"] == case["id"] and k["label"] == v["label"] \
                and all(v["inputs"].get(n) == x for n, x in k.get("inputs", {}).items()):
            return k
    return None


def check(prop, tier, seed, only=None, jobs=None, verbose=False):
    t0 = time.time()
    setup()
    mod = importlib.import_module("vharness.%s" % prop.lower())
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if only in c["id"]]
    ids = [c["id"] for c in cases]
    assert len(ids) == len(set(ids)), "duplicate case ids"
    rnd = random.Random(seed)
    rnd.shuffle(cases)
    cases.sort(key=lambda c: -c.get("weight", 1))
    limits = LIMITS[tier]
    stop_at = t0 + limits[1]
    known = load_known()
    reports = []
    bad = []
    knownhits = []
    jobs = jobs or min(8, os.cpu_count() or 8)
    by_id = {c["id"]: c for c in cases}
    ctxm = mp.get_context("fork")
    with ctxm.Pool(jobs) as pool:
        it = pool.imap_unordered(run_case, [(c, limits, stop_at, seed) for c in cases])
        for rep in it:
            reports.append(rep)
            if verbose:
                s = rep["stats"]
                print("%-60s %6.2fs paths=%d obl=%d q=%d match=%d/%d%s%s%s%s" % (
                    rep["id"], rep["wall"], s["paths"], s["obligations"], s["queries"], rep["matched"],
                    rep["replays"], "" if rep["exhausted"] else " NOT-EXHAUSTED",
                    " UNKNOWN=%d" % rep["unknown"] if rep["unknown"] else "",
                    " UNCONF=%d" % len(rep["unconfirmed"]) if rep["unconfirmed"] else "",
                    " MISMATCH=%d" % len(rep["mismatch"]) if rep["mismatch"] else ""), flush=True)
                if rep["error"]:
                    print("   ERROR", rep["error"])
                for x in rep["unconfirmed"][:1] + rep["mismatch"][:1]:
                    print("   ", json.dumps(x)[:1500])
            for v in rep["confirmed"]:
                case = by_id[rep["id"]]
                k = known_match(known, prop, case, v)
                if k:
                    knownhits.append((k, v))
                else:
                    bad.append((case, v))
                    if verbose:
                        print("    VIOL", v["label"], json.dumps(v["inputs"])[:500], json.dumps(v["got"])[:700])
            if bad and not verbose:
                pool.terminate()
                break
    wall = time.time() - t0
    ev, problems = evidence(prop, tier, seed, mod, cases, reports, bad, wall)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in {id(k): (k, v) for k, v in knownhits}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for case, v in bad[:1]:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", "%s-%s.json" % (prop, "".join(
            ch if ch.isalnum() else "_" for ch in case["id"])))
        with open(path, "w") as f:
            json.dump({"property": prop, "case": case["id"], "fn": case["fn"], "params": case["params"],
                       "inputs": v["inputs"], "label": v["label"], "got": v["got"],
                       "rerun": "python3-vt /verif/check.py replay %s" % path}, f, indent=1)
        print("counterexample (%s): %s" % (v["label"], json.dumps(v["inputs"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    c = ev["coverage"]
    print("%s %s: %d cases, %d paths, %d obligations (%d by solver, %d by term identity), %d queries, "
          "solver %.1fs, %d replays matched, wall %.1fs%s" % (
              prop, tier, c["cases"], c["states"], c["obligations"], c["discharged_by_solver"],
              c["discharged_by_term_identity"], c["queries"], c["solver_s"], c["traces_validated_against_impl"],
              wall, "" if not problems else "; INCONCLUSIVE: " + "; ".join(problems)))
    if bad:
        return 1
    return 2 if ev["coverage"]["inconclusive_share"] > 0.34 else 0


def evidence(prop, tier, seed, mod, cases, reports, bad, wall):
    S = {}
    funcs = set()
    for r in reports:
        for k, v in r["stats"].items():
            if k == "functions":
                funcs.update(f for f in v if f.startswith("epcpy"))
            else:
                S[k] = S.get(k, 0) + v
    problems = []
    incon = set(r["id"] for r in reports if r["mismatch"] or r["unconfirmed"] or r["unknown"]
                or not r["exhausted"] or r["error"] or not r["complete_paths"])
    incon -= set(r["id"] for r in reports if r["confirmed"])
    for name, test in (("replay disagreed with the symbolic run", lambda r: r["mismatch"]),
                       ("counterexample not confirmed by replay", lambda r: r["unconfirmed"]),
                       ("solver unknown", lambda r: r["unknown"]),
                       ("not all paths explored", lambda r: not r["exhausted"]),
                       ("engine error", lambda r: r["error"]),
                       ("no complete path", lambda r: not r["complete_paths"])):
        ids = [r["id"] for r in reports if test(r) and not r["confirmed"]]
        if ids:
            problems.append("%s in %d case(s), e.g. %s" % (name, len(ids), ids[0]))
    samples = [{"case": r["id"], **r["sample"]} for r in reports if r["sample"]]
    samples.sort(key=lambda s: s["case"])
    cov = {
        "states": S.get("paths", 0),
        "transitions": S.get("decisions", 0) + S.get("forced", 0) + S.get("merged", 0),
        "traces_validated_against_impl": sum(r["matched"] for r in reports),
        "samples": samples[:: max(1, len(samples) // 5)][:6],
        "meaning": "states: symbolic paths executed to their end; transitions: branch conditions on symbolic data "
                   "taken (forked, implied by the path, or merged); traces_validated_against_impl: path models "
                   "replayed on the untouched library with identical observed results",
        "cases": len(cases),
        "cases_run": len(reports),
        "cases_decided": len(reports) - len(incon),
        "inconclusive_share": round((len(incon) + len(cases) - len(reports)) / max(1, len(cases)), 4) if not bad else 0,
        "inconclusive_cases": sorted(incon)[:50],
        "obligations": S.get("obligations", 0),
        "discharged_by_solver": S.get("discharged_solver", 0),
        "discharged_by_term_identity": S.get("discharged_simplifier", 0),
        "queries": S.get("queries", 0),
        "queries_sat": S.get("sat", 0),
        "queries_unsat": S.get("unsat", 0),
        "queries_unknown": S.get("unknown", 0),
        "solver_s": round(S.get("solver_time", 0.0), 3),
        "forks": S.get("decisions", 0),
        "merged_branches": S.get("merged", 0),
        "pinned_values": S.get("concretized", 0),
        "cache_hits_not_explored": S.get("ruled_out", 0),
        "functions_encoded": len(funcs),
        "functions": sorted(funcs),
        "bounds": getattr(mod, "BOUNDS", ""),
        "outside": getattr(mod, "OUTSIDE", ""),
        "exhaustive": not incon and len(reports) == len(cases),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": len(bad)}
    return ev, problems


COMMON_ASSUMPTIONS = [
    "z3 decides QF_BV queries correctly",
    "symx models of str/int/re/base64 operations agree with CPython (cross-checked by replaying every path's model)",
]


def replay_file(path):
    with open(path) as f:
        r = json.load(f)
    out = Replayer()(r["fn"], r["params"], r["inputs"])
    print(json.dumps(out, indent=1))
    return 1 if out["met"] and (out["failed"] or out["exc"]) else 0
