"""C07: every valid pure identity URI is accepted and kept verbatim."""
from epcpy.utils.parsers import epc_pure_identity_to_scheme
from vharness.common import case, cls_of, identity
from vharness.shapes import NUMERIC_DIGITS, shapes
from vharness.tds import SCHEMES

BOUNDS = ("all 21 schemes; company prefix lengths 6-12; component lengths and escape positions as enumerated in "
          "vharness/shapes.py; all digits and characters symbolic")
OUTSIDE = "more than two symbolic escapes in one serial; non-canonical escapes such as %41 or %2f"


def accepted(hx, p, i):
    cls = cls_of(p["scheme"])
    uri, comps = identity(hx, p["scheme"], i)
    for name, fn in (("constructor", cls), ("from_epc_uri", cls.from_epc_uri)):
        made = hx.attempt(lambda: fn(uri))
        hx.observe(name, made.kind)
        hx.require(made.ok, name + ": a valid URI must be accepted")
        if made.ok:
            hx.require(made.value.epc_uri == uri, name + ": the URI must be kept verbatim")


def cases(tier):
    out = []
    for scheme in SCHEMES:
        for sh in shapes(scheme, tier, numeric=NUMERIC_DIGITS.get(scheme)):
            out.append(case(sh["text"], "vharness.c07:accepted", sh))
    return out
