"""C10: identity to GS1 element string and back is the identity."""
from epcpy.utils.parsers import epc_pure_identity_to_gs1_element_string, gs1_element_string_to_gs1_element
from vharness.common import case, cls_of, identity
from vharness.shapes import shapes
from vharness.tds import ELEMENT, element

BOUNDS = ("16 schemes with element strings; company prefix lengths 6-12; component lengths and escape positions as "
          "enumerated in vharness/shapes.py; all digits and characters symbolic")
OUTSIDE = "more than two symbolic escapes in one serial; non-canonical escapes"


def there_and_back(hx, p, i):
    cls = cls_of(p["scheme"])
    uri, comps = identity(hx, p["scheme"], i)
    made = hx.attempt(lambda: cls(uri))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    want = element(p["scheme"], comps)
    for name, fn in (("own", lambda: made.value.gs1_element_string()),
                     ("generic", lambda: epc_pure_identity_to_gs1_element_string(uri))):
        e = hx.attempt(fn)
        hx.observe(name, e.value if e.ok else e.kind)
        hx.require(e.ok, name + ": an element string must be given")
        if e.ok:
            hx.require(e.value == want, name + ": identifiers, order and check digit")
    L = len(comps["cp"])
    for name, fn in (("scheme", cls.from_gs1_element_string), ("parser", gs1_element_string_to_gs1_element)):
        back = hx.attempt(lambda: fn(want, L))
        hx.observe(name, back.kind)
        hx.require(back.ok, name + ": the element string must be readable")
        if back.ok:
            hx.require(back.value.epc_uri == uri, name + ": the element string gives the identity back")
            hx.require(isinstance(back.value, cls), name + ": object of the scheme")


def cases(tier):
    out = []
    for scheme in ELEMENT:
        for sh in shapes(scheme, tier):
            out.append(case(sh["text"], "vharness.c10:there_and_back", sh))
    return out
