"""C01: a tag decodes to exactly the identity it was encoded from."""
from vharness.common import case, cls_of, filter_inputs, identity, tag_kwargs
from vharness.shapes import tag_shapes
from vharness.tds import CODINGS

BOUNDS = ("company prefix lengths 6-12; serial/reference lengths and escape positions as enumerated in "
          "vharness/shapes.py (quick: boundary lengths, thorough: all lengths); all digits, characters and filter "
          "values symbolic")
OUTSIDE = "more than two symbolic escapes in one serial; non-canonical escapes such as %41 or %2f"


def roundtrip(hx, p, i):
    cls = cls_of(p["scheme"])
    uri, comps = identity(hx, p["scheme"], i)
    kw = tag_kwargs(hx, p["coding"], i)
    made = hx.attempt(lambda: cls(uri))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    obj = made.value
    for form in ("binary", "hex", "base64"):
        enc = hx.attempt(lambda: getattr(obj, form)(**kw))
        hx.observe(form, enc.value if enc.ok else enc.kind)
        hx.require(enc.ok or enc.refused, form + ": only the conversion error may be raised")
        if not enc.ok:
            continue
        dec = hx.attempt(lambda: getattr(cls, "from_" + form)(enc.value))
        hx.observe("from_" + form, dec.kind)
        hx.require(dec.ok, form + ": the tag must be readable")
        if dec.ok:
            hx.require(dec.value.epc_uri == uri, form + ": the tag must give the identity back")


def cases(tier):
    out = []
    for coding, (scheme, _h, total, _f) in CODINGS.items():
        for fname, fin in filter_inputs(coding):
            for n, sh in enumerate(tag_shapes(coding, scheme, tier)):
                if fname == "f2" and n > 1 and tier == "quick":
                    continue
                out.append(case("%s/%s%s" % (coding, sh["text"], fname), "vharness.c01:roundtrip", sh,
                                {"coding": coding}, fin))
    return out
