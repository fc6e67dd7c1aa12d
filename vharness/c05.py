"""C05: tag URIs state the identity verbatim and convert back to it."""
from epcpy.utils.parsers import tag_uri_to_tag_encodable
from vharness.common import case, cls_of, filter_inputs, identity, tag_kwargs
from vharness.shapes import tag_shapes
from vharness.tds import CODINGS, PREFIX, fits

BOUNDS = ("company prefix lengths 6-12; serial/reference lengths and escape positions as enumerated in "
          "vharness/shapes.py (quick: boundary lengths, thorough: all lengths); all digits, characters and filter "
          "values symbolic")
OUTSIDE = "more than two symbolic escapes in one serial; non-canonical escapes; identities that do not fit (C06)"


def verbatim(hx, p, i):
    cls = cls_of(p["scheme"])
    uri, comps = identity(hx, p["scheme"], i)
    kw = tag_kwargs(hx, p["coding"], i)
    made = hx.attempt(lambda: cls(uri))
    hx.observe("constructed", made.kind)
    if not made.ok or not fits(p["coding"], comps):
        return
    tag = hx.attempt(lambda: made.value.tag_uri(**kw))
    hx.observe("tag_uri", tag.value if tag.ok else tag.kind)
    body = uri[len(PREFIX[p["scheme"]]):]
    flt = i["flt"] + "." if "flt" in i else ""
    want = "urn:epc:tag:" + p["coding"] + ":" + flt + body
    if tag.ok:
        hx.require(tag.value == want, "prefix, coding scheme, filter and unaltered body")
    for name, fn in (("scheme", cls.from_tag_uri), ("generic", tag_uri_to_tag_encodable)):
        back = hx.attempt(lambda: fn(want))
        hx.observe(name, back.value.epc_uri if back.ok else back.kind)
        hx.require(back.ok, name + ": the tag URI must be readable")
        if back.ok:
            hx.require(back.value.epc_uri == uri, name + ": the tag URI gives the identity back")
            hx.require(isinstance(back.value, cls), name + ": object of the scheme")


def cases(tier):
    out = []
    for coding, (scheme, _h, total, _f) in CODINGS.items():
        for fname, fin in filter_inputs(coding):
            for n, sh in enumerate(tag_shapes(coding, scheme, tier)):
                if fname == "f2" and n > 1 and tier == "quick":
                    continue
                out.append(case("%s/%s%s" % (coding, sh["text"], fname), "vharness.c05:verbatim", sh,
                                {"coding": coding}, fin))
    return out
