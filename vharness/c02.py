"""C02: encoded tags have the bit layout the Tag Data Standard prescribes."""
from vharness.common import case, cls_of, filter_inputs, identity, tag_kwargs
from vharness.shapes import tag_shapes
from vharness.tds import CODINGS, encode, fits

BOUNDS = ("company prefix lengths 6-12; serial/reference lengths and escape positions as enumerated in "
          "vharness/shapes.py (quick: boundary lengths, thorough: all lengths); all digits, characters and filter "
          "values symbolic")
OUTSIDE = "more than two symbolic escapes in one serial; non-canonical escapes; identities that do not fit (C06)"


def layout(hx, p, i):
    cls = cls_of(p["scheme"])
    uri, comps = identity(hx, p["scheme"], i)
    kw = tag_kwargs(hx, p["coding"], i)
    made = hx.attempt(lambda: cls(uri))
    hx.observe("constructed", made.kind)
    if not made.ok or not fits(p["coding"], comps):
        return
    enc = hx.attempt(lambda: made.value.binary(**kw))
    hx.observe("binary", enc.value if enc.ok else enc.kind)
    if not enc.ok:
        return
    total = CODINGS[p["coding"]][2]
    if total is not None:
        hx.require(len(enc.value) == total, "prescribed total size")
    hx.require(enc.value == encode(p["coding"], i.get("flt"), comps), "prescribed bits")


def cases(tier):
    out = []
    for coding, (scheme, _h, total, _f) in CODINGS.items():
        for fname, fin in filter_inputs(coding):
            for n, sh in enumerate(tag_shapes(coding, scheme, tier)):
                if fname == "f2" and n > 1 and tier == "quick":
                    continue
                out.append(case("%s/%s%s" % (coding, sh["text"], fname), "vharness.c02:layout", sh,
                                {"coding": coding}, fin))
    return out
