"""C09: GS1 keys are composed correctly and carry the right check digit."""
from vharness.common import case, cls_of, identity
from vharness.shapes import shapes
from vharness.tds import KEYED, key

BOUNDS = ("13 keyed schemes; company prefix lengths 6-12; component lengths and escape positions as enumerated in "
          "vharness/shapes.py; all digits and characters symbolic")
OUTSIDE = "more than two symbolic escapes in one serial; non-canonical escapes"


def composed(hx, p, i):
    cls = cls_of(p["scheme"])
    uri, comps = identity(hx, p["scheme"], i)
    made = hx.attempt(lambda: cls(uri))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    k = hx.attempt(lambda: made.value.gs1_key())
    hx.observe("key", k.value if k.ok else k.kind)
    hx.require(k.ok, "a key must be given")
    if k.ok:
        hx.require(k.value == key(p["scheme"], comps), "components in order with the right check digit")


def cases(tier):
    out = []
    for scheme in KEYED:
        for sh in shapes(scheme, tier):
            out.append(case(sh["text"], "vharness.c09:composed", sh))
    return out
