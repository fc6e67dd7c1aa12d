"""C17: objects are equal exactly when their identity URIs are equal."""
from epcpy.utils.parsers import epc_pure_identity_to_scheme
from vharness.common import case, cls_of, identity
from vharness.shapes import shapes
from vharness.tds import SCHEMES

BOUNDS = ("all 21 schemes; two identities of the same shape, all contents symbolic and independent, company prefix "
          "lengths 6-12; pairs of different schemes or lengths; equality after different ways of obtaining the object; "
          "nine kinds of foreign operands")
OUTSIDE = "operands whose own comparison methods misbehave"


class Lookalike:
    def __init__(self, uri):
        self.epc_uri = uri


def pair(hx, p, i):
    ins1 = {k[2:]: v for k, v in i.items() if k.startswith("a.")}
    ins2 = {k[2:]: v for k, v in i.items() if k.startswith("b.")}
    s1, s2 = p["s1"], p["s2"]
    u1, _ = identity(hx, s1, ins1)
    u2, _ = identity(hx, s2, ins2)
    a = hx.attempt(lambda: cls_of(s1)(u1))
    b = hx.attempt(lambda: cls_of(s2)(u2))
    if not (a.ok and b.ok):
        return
    a, b = a.value, b.value
    want = u1 == u2
    same = a == b
    hx.observe("same", True if same else False)
    hx.require(hx.same(same, want), "equal exactly when the URIs are equal")
    hx.require(hx.same(b == a, want), "equal in the other order")
    hx.require(hx.same(a != b, not want), "unequal is the opposite of equal")
    # obtained another way
    c = epc_pure_identity_to_scheme(u1) if s1 != "lgtin" else cls_of(s1).from_epc_uri(u1)
    hx.require(a == c and c == a, "equal to the same identity obtained from the generic parser")
    hx.require(hx.same(c == b, want), "equality does not depend on how the object was obtained")


def foreign(hx, p, i):
    uri, comps = identity(hx, p["scheme"], i)
    made = hx.attempt(lambda: cls_of(p["scheme"])(uri))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    a = made.value
    for name, x in (("none", None), ("text", uri), ("number", 5), ("bytes", b"urn"), ("list", [uri]),
                    ("lookalike", Lookalike(uri)), ("type", cls_of(p["scheme"])), ("tuple", (uri,)), ("true", True)):
        got = hx.attempt(lambda: a == x)
        hx.observe(name, got.kind)
        hx.require(got.ok, name + ": comparison never fails")
        if got.ok:
            hx.require(hx.same(got.value, False), name + ": unequal to anything that is not an identity")
        got = hx.attempt(lambda: a != x)
        hx.require(got.ok and (True if got.value else False), name + ": reported as different")


def small(scheme, tier):
    """A few shapes of a scheme."""
    shs = shapes(scheme, "quick")
    keep, seen = [], set()
    for s in shs:
        key = tuple(tuple(x[1][:1]) for x in s["inputs"])
        texts = [x[1][1] for x in s["inputs"] if x[1][0] == "cells"]
        if all(len(str(t)) <= 3 for t in texts) and "=" not in "".join(map(str, texts)):
            keep.append(s)
    keep = keep or shs[:2]
    return keep if tier == "thorough" else keep[::max(1, len(keep) // 4)][:6]


def renamed(sh, pre):
    return [[pre + n, spec] for n, spec in sh["inputs"]]


def cases(tier):
    out = []
    picks = {s: small(s, tier) for s in SCHEMES}
    for s in SCHEMES:
        for sh in picks[s]:
            out.append({"id": "same/" + sh["text"], "fn": "vharness.c17:pair", "params": {"s1": s, "s2": s},
                        "inputs": renamed(sh, "a.") + renamed(sh, "b.")})
            out.append(case("foreign/" + sh["text"], "vharness.c17:foreign", sh))
        a, b = picks[s][0], picks[s][-1]
        if a["text"] != b["text"]:
            out.append({"id": "lengths/%s,%s" % (a["text"], b["text"]), "fn": "vharness.c17:pair",
                        "params": {"s1": s, "s2": s}, "inputs": renamed(a, "a.") + renamed(b, "b.")})
        names = list(SCHEMES)
        for t in names if tier == "thorough" else [names[(names.index(s) + 1) % len(names)],
                                                   names[(names.index(s) + 6) % len(names)]]:
            if t != s:
                a, b = picks[s][0], picks[t][0]
                out.append({"id": "other/%s,%s" % (a["text"], b["text"]), "fn": "vharness.c17:pair",
                            "params": {"s1": s, "s2": t}, "inputs": renamed(a, "a.") + renamed(b, "b.")})
    return out
