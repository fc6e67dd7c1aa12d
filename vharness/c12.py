"""C12: shorter GTIN forms are given exactly when the GTIN allows them."""
from epcpy.epc_schemes.sgtin import GTIN_TYPE
from vharness.common import case, cls_of, identity
from vharness.shapes import ALL_L, shapes
from vharness.tds import check_digit, gtin

BOUNDS = ("SGTIN and LGTIN; company prefix lengths 6-12; all four GTIN types; all digits symbolic; building from GTIN "
          "texts of 2 to 14 digits with prefix lengths 0 to 14")
OUTSIDE = "GTIN texts with a wrong check digit; serials given unescaped to the GTIN constructor"

TYPES = [8, 12, 13, 14]


def forms(hx, p, i):
    cls = cls_of(p["scheme"])
    uri, comps = identity(hx, p["scheme"], i)
    made = hx.attempt(lambda: cls(uri))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    full = gtin(comps)
    for t in TYPES:
        kind = GTIN_TYPE(t)
        zero = True
        for ch in full[:14 - t]:
            zero = zero & (ch == "0")
        can = True if zero else False
        for name, fn in (("gtin", made.value.gtin), ("key", made.value.gs1_key)):
            got = hx.attempt(lambda: fn(gtin_type=kind))
            hx.observe("%s%d" % (name, t), got.value if got.ok else got.kind)
            if can:
                hx.require(got.ok, "%s%d must be given" % (name, t))
                if got.ok:
                    hx.require(got.value == full[14 - t:], "%s%d must be the trailing digits" % (name, t))
            else:
                hx.require(got.refused, "%s%d must be refused" % (name, t))
    got = hx.attempt(lambda: made.value.gtin())
    hx.require(got.ok and got.value == full, "the 14 digits by default")


def from_gtin(hx, p, i):
    cls = cls_of("sgtin")
    body = i["body"]
    full = "0" * (13 - len(body)) + body
    full = full + check_digit(full)
    n = p["n"]
    for name, text in (("stripped", full[13 - len(body):]), ("full", full)):
        got = hx.attempt(lambda: cls.from_gtin_plus_serial(text, i["ser"]["uri"], n))
        hx.observe(name, got.value.epc_uri if got.ok else got.kind)
        if 6 <= n <= 12:
            hx.require(got.ok, name + ": must be accepted")
            if got.ok:
                parts = got.value.epc_uri.split(":", 4)[4].split(".", 2)
                hx.require(len(parts[0]) == n, name + ": prefix length")
                hx.require(parts[2] == i["ser"]["uri"], name + ": serial")
                hx.require(got.value.gtin() == full, name + ": GTIN")
                hx.require(parts[0] == full[1:1 + n], name + ": company prefix digits")
        else:
            hx.require(got.refused, name + ": a prefix length that does not fit must be refused")


def cases(tier):
    th = tier == "thorough"
    out = []
    for scheme in ("sgtin", "lgtin"):
        for sh in shapes(scheme, tier):
            if th or any(s[1] in (["cells", "G"], ["cells", "E"], ["cells", "G" * 20]) for s in sh["inputs"]):
                out.append(case(sh["text"], "vharness.c12:forms", sh))
    for n in range(0, 15):
        for k in range(1, 14):
            for t in (("G", "E", "GG", "GE", "GGGG", "G" * 20) if th else ("GE", "GG", "G" * 20) if n in (6, 7, 12) else ("GE",)):
                out.append({"id": "from_gtin/n=%d,digits=%d,%s" % (n, k + 1, t), "fn": "vharness.c12:from_gtin",
                            "params": {"n": n}, "inputs": [["body", ["nozero", k]], ["ser", ["cells", t]]]})
    return out
