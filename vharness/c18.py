"""C18: identity patterns give the key shared by the identities they cover."""
from epcpy import get_gs1_key
from vharness.c14 import typed
from vharness.common import case, cls_of, identity
from vharness.shapes import ALL_L, shapes
from vharness.tds import KEYED, SCHEMES

BOUNDS = ("all keyed schemes with a pattern syntax; company prefix lengths 6-12; component lengths of "
          "vharness/shapes.py; contents symbolic; every placement of wildcards over whole components")
OUTSIDE = ("wildcards in place of a serial that is part of the key (GRAI, GDTI, SGCN, GIAI, GINC); range patterns")

PATTERNED = [s for s in KEYED if s != "lgtin"]


def plain(hx, p, i):
    """Without wildcard."""
    scheme = p["scheme"]
    uri, comps = identity(hx, scheme, i)
    pat = "urn:epc:idpat:" + uri[len("urn:epc:id:"):]
    got = hx.attempt(lambda: get_gs1_key(pat))
    hx.observe("key", got.value if got.ok else got.kind)
    hx.require(got.ok, "a pattern without wildcard has a key")
    if got.ok:
        hx.require(got.value == cls_of(scheme)(uri).gs1_key(), "the key of the identity")
    if scheme == "sgtin":
        typed(hx, cls_of(scheme)(uri), "pattern", lambda **kw: get_gs1_key(pat, **kw))


def serial(hx, p, i):
    """Wildcard in place of the serial (SGTIN and SGLN)."""
    scheme = p["scheme"]
    uri, comps = identity(hx, scheme, i)
    ref = comps["item"] if scheme == "sgtin" else comps["ref"]
    pat = "urn:epc:idpat:" + scheme + ":" + comps["cp"] + "." + ref + ".*"
    got = hx.attempt(lambda: get_gs1_key(pat))
    hx.observe("key", got.value if got.ok else got.kind)
    hx.require(got.ok, "a pattern over all serials has a key")
    if got.ok:
        hx.require(got.value == cls_of(scheme)(uri).gs1_key(), "the key of any covered identity")
    if scheme == "sgtin":
        typed(hx, cls_of(scheme)(uri), "pattern over all serials", lambda **kw: get_gs1_key(pat, **kw))


def inside(hx, p, i):
    """Wildcards over the company prefix or the reference."""
    parts = []
    for c in p["form"].split(" "):
        if c == "*":
            parts.append("*")
        else:
            v = i[c]
            parts.append(v["uri"] if isinstance(v, dict) else v)
    pat = "urn:epc:idpat:" + p["scheme"] + ":" + ".".join(parts)
    for n in (None, 7):
        got = hx.attempt(lambda: get_gs1_key(pat, n))
        hx.observe("key", got.value if got.ok else got.kind)
        hx.require(got.refused, "a pattern that leaves the key open is refused")


def cases(tier):
    out = []
    for s in PATTERNED:
        for sh in shapes(s, tier):
            out.append(case("plain/" + sh["text"], "vharness.c18:plain", sh))
            if s in ("sgtin", "sgln"):
                out.append(case("serial/" + sh["text"], "vharness.c18:serial", sh))
    for s in SCHEMES:
        parts = SCHEMES[s]["parts"].split()
        if parts[0] != "cp" or s == "lgtin":
            continue
        forms = []
        for k in range(len(parts)):
            forms.append(parts[:k] + ["*"] * (len(parts) - k))
            forms.append(parts[:k] + ["*"] + parts[k + 1:])
        for f in forms:
            # leave out wildcards that only cover a serial
            if "*" not in f[:1 if s in ("giai", "ginc", "cpi") else 2]:
                if s in KEYED:
                    continue
            for L in ALL_L:
                ins = []
                for part, c in zip(parts, f):
                    if c == "*":
                        continue
                    if part == "cp":
                        ins.append(["cp", ["digits", L]])
                    elif part in ("item", "ref"):
                        n = SCHEMES[s]["total"] - L
                        ins.append([part, ["digits", n]])
                    elif part in ("piece", "total"):
                        ins.append([part, ["digits", 2]])
                    elif part in ("num", "dser"):
                        ins.append([part, ["nozero", 3]])
                    elif part == "cpref":
                        ins.append([part, ["cells", "UU"]])
                    else:
                        ins.append([part, ["cells", "GG"]])
                out.append({"id": "inside/%s:%s,L=%d" % (s, ".".join(f), L), "fn": "vharness.c18:inside",
                            "params": {"scheme": s, "form": " ".join(f)}, "inputs": ins})
    seen = {}
    for c in out:
        seen[c["id"]] = c
    return list(seen.values())
