"""C06: encoding succeeds exactly for representable identities."""
from vharness.common import case, cls_of, filter_inputs, identity, tag_kwargs
from vharness.shapes import tag_shapes
from vharness.tds import CODINGS, fits

BOUNDS = ("company prefix lengths 6-12; serial/reference lengths and escape positions as enumerated in "
          "vharness/shapes.py (quick: boundary lengths, thorough: all lengths), in particular numeric serials one "
          "digit below, at and above every field's capacity; all digits, characters and filter values symbolic")
OUTSIDE = "more than two symbolic escapes in one serial; non-canonical escapes"


def exact(hx, p, i):
    cls = cls_of(p["scheme"])
    uri, comps = identity(hx, p["scheme"], i)
    kw = tag_kwargs(hx, p["coding"], i)
    made = hx.attempt(lambda: cls(uri))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    can = True if fits(p["coding"], comps) else False
    for form in ("tag_uri", "binary", "hex", "base64"):
        enc = hx.attempt(lambda: getattr(made.value, form)(**kw))
        hx.observe(form, enc.kind)
        if can:
            hx.require(enc.ok, form + ": representable, so it must be produced")
        else:
            hx.require(enc.refused, form + ": not representable, so it must be refused")


def cases(tier):
    out = []
    for coding, (scheme, _h, total, _f) in CODINGS.items():
        for fname, fin in filter_inputs(coding):
            for n, sh in enumerate(tag_shapes(coding, scheme, tier)):
                if fname == "f2" and n > 1 and tier == "quick":
                    continue
                out.append(case("%s/%s%s" % (coding, sh["text"], fname), "vharness.c06:exact", sh,
                                {"coding": coding}, fin))
    return out
