"""C14: the GS1 key is the same whichever representation it is taken from."""
from epcpy import epc_pure_identity_to_gs1_key, get_gs1_key
from epcpy.epc_schemes.sgtin import GTIN_TYPE
from vharness.common import case, cls_of, filter_inputs, identity, tag_kwargs
from vharness.shapes import shapes, tag_shapes
from vharness.tds import CODINGS, ELEMENT, KEYED, SCHEMES, element

BOUNDS = ("13 keyed and 8 other schemes; company prefix lengths 6-12, component lengths of vharness/shapes.py, contents "
          "and filter values symbolic; all coding schemes; texts of up to 6 arbitrary Unicode characters, also after "
          "the beginning of each representation")
OUTSIDE = "more than two symbolic escapes in one serial; non-canonical escapes; other malformed texts (see C15)"


def from_uri(hx, p, i):
    scheme = p["scheme"]
    uri, comps = identity(hx, scheme, i)
    made = hx.attempt(lambda: cls_of(scheme)(uri))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    got = hx.attempt(lambda: get_gs1_key(uri))
    hx.observe("uri", got.value if got.ok else got.kind)
    if scheme in KEYED:
        own = made.value.gs1_key()
        hx.require(got.ok, "the key of a URI must be given")
        if got.ok:
            hx.require(got.value == own, "the key of a URI is the identity's key")
    else:
        hx.require(got.refused, "a scheme without key is refused")
    if scheme in ELEMENT:
        text = element(scheme, comps)
        got = hx.attempt(lambda: get_gs1_key(text, len(comps["cp"])))
        hx.observe("element", got.value if got.ok else got.kind)
        if scheme in KEYED:
            hx.require(got.ok, "the key of an element string must be given")
            if got.ok:
                hx.require(got.value == own, "the key of an element string is the identity's key")
        else:
            hx.require(got.refused, "an element string of a scheme without key is refused")
        got = hx.attempt(lambda: get_gs1_key(text))
        hx.require(got.refused, "an element string without prefix length is refused")
    n = 13 - len(comps.get("cp", "1234567"))
    got2 = hx.attempt(lambda: get_gs1_key(uri, n))
    hx.require(got2.kind == ("ok" if scheme in KEYED else "refused"), "the prefix length is of no account for a URI")
    if got2.ok and scheme in KEYED:
        hx.require(got2.value == made.value.gs1_key(), "the key is the same whichever prefix length is given")
    if scheme in ("sgtin", "lgtin"):
        L = len(comps["cp"])
        typed(hx, made.value, "URI", lambda **kw: get_gs1_key(uri, **kw))
        typed(hx, made.value, "URI function", lambda **kw: epc_pure_identity_to_gs1_key(uri, **kw))
        typed(hx, made.value, "element string", lambda **kw: get_gs1_key(element(scheme, comps), L, **kw))


def typed(hx, o, what, fn):
    """The key of each GTIN type is the object's, or refused with it."""
    for t in GTIN_TYPE:
        own = hx.attempt(lambda: o.gs1_key(gtin_type=t))
        got = hx.attempt(lambda: fn(gtin_type=t))
        hx.require(got.kind == own.kind, "%s: the requested GTIN type is passed on" % what)
        if got.ok and own.ok:
            hx.require(got.value == own.value, "%s: the requested GTIN type is returned" % what)


def from_tag(hx, p, i):
    scheme = p["scheme"]
    uri, comps = identity(hx, scheme, i)
    kw = tag_kwargs(hx, p["coding"], i)
    made = hx.attempt(lambda: cls_of(scheme)(uri))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    own = made.value.gs1_key() if scheme in KEYED else None
    for form in ("tag_uri", "binary", "hex"):
        t = hx.attempt(lambda: getattr(made.value, form)(**kw))
        hx.observe(form, t.kind)
        if not t.ok:
            continue
        got = hx.attempt(lambda: get_gs1_key(t.value))
        hx.observe("key of " + form, got.value if got.ok else got.kind)
        if scheme in KEYED:
            hx.require(got.ok, form + ": the key must be given")
            if got.ok:
                hx.require(got.value == own, form + ": the identity's key")
            got = hx.attempt(lambda: get_gs1_key(t.value, 5))
            hx.require(got.ok, form + ": the key must be given, prefix length given")
            if got.ok:
                hx.require(got.value == own, form + ": the identity's key, prefix length given")
        else:
            hx.require(got.refused, form + ": a scheme without key is refused")
        if scheme == "sgtin":
            typed(hx, made.value, form, lambda **kw: get_gs1_key(t.value, **kw))
    if scheme in KEYED and t.ok:
        got = hx.attempt(lambda: get_gs1_key(t.value.lower()))
        hx.observe("lower", got.kind)
        hx.require(got.ok and got.value == own, "lower-case hexadecimal: the identity's key")


def nothing(hx, p, i):
    text = p["pre"] + i["text"]
    got = hx.attempt(lambda: get_gs1_key(text))
    hx.observe("short", got.kind)
    hx.require(got.refused, "a text that is no representation is refused")
    got = hx.attempt(lambda: get_gs1_key(text, 7))
    hx.observe("short7", got.kind)
    hx.require(got.refused, "a text that is no representation is refused, prefix length given")


def cases(tier):
    out = []
    for s in SCHEMES:
        for sh in shapes(s, tier):
            out.append(case("uri/" + sh["text"], "vharness.c14:from_uri", sh))
    for coding, (scheme, _h, total, _f) in CODINGS.items():
        for fname, fin in filter_inputs(coding):
            shs = tag_shapes(coding, scheme, tier)
            if tier == "quick":
                shs = shs[1::2]
            for sh in shs:
                out.append(case("tag/%s/%s%s" % (coding, sh["text"], fname), "vharness.c14:from_tag", sh,
                                {"coding": coding}, fin))
    for pre in ("", "urn:epc:id:", "urn:epc:id:sgtin:", "urn:epc:tag:sgtin-96:", "urn:epc:idpat:sgtin:", "(01)", "30",
                "2C", "001100", "(8004)", "urn:epc:raw:96.x", "urn:epc:pat:sgtin-96:3."):
        for n in range(0, 4 if tier == "quick" else 7):
            out.append({"id": "nothing/%s+%d" % (pre, n), "fn": "vharness.c14:nothing", "params": {"pre": pre},
                        "inputs": [["text", ["any", n]]]})
    return out
