"""C13: generic parsers agree with the specific scheme."""
from epcpy.utils import parsers
from vharness.common import case, cls_of, filter_inputs, identity, tag_kwargs
from vharness.shapes import shapes, tag_shapes
from vharness.tags import tag_bits, tag_families
from vharness.tds import CODINGS, ELEMENT, KEYED, SCHEMES, TAGGED, element

BOUNDS = ("all 21 schemes and 21 coding schemes; company prefix lengths 6-12, component lengths of vharness/shapes.py, "
          "contents and filter values symbolic; the bit string families of vharness/tags.py; every 8-bit header; "
          "scheme names of up to 5 arbitrary characters")
OUTSIDE = "more than two symbolic escapes in one serial; non-canonical escapes"


def agree(hx, name, generic, own, cls):
    """Outcome of the generic parser against that of the scheme's own one."""
    g = hx.attempt(generic)
    o = hx.attempt(own)
    hx.observe(name, g.value.epc_uri if g.ok else g.kind)
    hx.require(g.kind == o.kind, name + ": accepted or refused alike")
    if g.ok and o.ok:
        hx.require(isinstance(g.value, cls), name + ": object of the scheme")
        hx.require(g.value.epc_uri == o.value.epc_uri, name + ": same identity")
        hx.require(g.value == o.value, name + ": equal objects")
    return g


def uris(hx, p, i):
    scheme = p["scheme"]
    cls = cls_of(scheme)
    uri, comps = identity(hx, scheme, i)
    if scheme == "lgtin":
        # a class URI; the generic parser knows it by its scheme name
        hx.observe("class", True)
    agree(hx, "scheme", lambda: parsers.epc_pure_identity_to_scheme(uri), lambda: cls(uri), cls)
    for name, fn, able in (("element", parsers.epc_pure_identity_to_gs1_element, scheme in ELEMENT),
                           ("keyed", parsers.epc_pure_identity_to_gs1_keyed, scheme in KEYED),
                           ("tag", parsers.epc_pure_identity_to_tag_encodable, scheme in TAGGED)):
        if able:
            agree(hx, name, lambda: fn(uri), lambda: cls.from_epc_uri(uri), cls)
        else:
            got = hx.attempt(lambda: fn(uri))
            hx.observe(name, got.kind)
            hx.require(got.refused, name + ": a scheme without this capability is refused")
    made = hx.attempt(lambda: cls(uri))
    if not made.ok:
        return
    for name, fn, own in (("string", parsers.epc_pure_identity_to_gs1_element_string,
                           made.value.gs1_element_string if scheme in ELEMENT else None),
                          ("key", parsers.epc_pure_identity_to_gs1_key,
                           made.value.gs1_key if scheme in KEYED else None)):
        got = hx.attempt(lambda: fn(uri))
        hx.observe(name, got.value if got.ok else got.kind)
        if own is None:
            hx.require(got.refused, name + ": a scheme without it is refused")
        else:
            want = hx.attempt(own)
            hx.require(got.kind == want.kind, name + ": given or refused alike")
            if got.ok and want.ok:
                hx.require(got.value == want.value, name + ": same as the object's own")
    if scheme in ELEMENT:
        text = element(scheme, comps)
        L = len(comps["cp"])
        agree(hx, "element string", lambda: parsers.gs1_element_string_to_gs1_element(text, L),
              lambda: cls.from_gs1_element_string(text, L), cls)


def tags(hx, p, i):
    scheme = p["scheme"]
    cls = cls_of(scheme)
    uri, comps = identity(hx, scheme, i)
    kw = tag_kwargs(hx, p["coding"], i)
    made = hx.attempt(lambda: cls(uri))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    for form, fn in (("tag_uri", parsers.tag_uri_to_tag_encodable), ("binary", parsers.binary_to_tag_encodable),
                     ("hex", parsers.hex_to_tag_encodable), ("base64", parsers.base64_to_tag_encodable)):
        t = hx.attempt(lambda: getattr(made.value, form)(**kw))
        hx.observe(form + " made", t.kind)
        if t.ok:
            agree(hx, form, lambda: fn(t.value), lambda: getattr(cls, "from_" + form)(t.value), cls)


def bits(hx, p, i):
    cls = cls_of(p["scheme"])
    b = tag_bits(p, i)
    agree(hx, "binary", lambda: parsers.binary_to_tag_encodable(b), lambda: cls.from_binary(b), cls)


HEADERS = [c[1] for c in CODINGS.values()]


def header(hx, p, i):
    """Any header, with a body every 96 bit scheme would take."""
    known = False
    for h in HEADERS:
        known = known | (i["head"] == h)
    b = i["head"] + p["body"]
    want_known = True if known else False
    got = hx.attempt(lambda: parsers.binary_to_tag_encodable(b))
    hx.observe("known", [want_known, got.value.epc_uri if got.ok else got.kind])
    if not want_known:
        hx.require(got.refused, "an unknown header is refused")
        low = hx.attempt(lambda: parsers.hex_to_tag_encodable(format(int("1" + b, 2), "x")[1:]))
        hx.require(low.refused, "an unknown header is refused in hexadecimal")
    if want_known and got.ok:
        for coding, (scheme, h, _t, _f) in CODINGS.items():
            if i["head"] == h:
                hx.require(isinstance(got.value, cls_of(scheme)), "the header decides the scheme")


def names(hx, p, i):
    """Pure identity and tag URIs with an arbitrary scheme name."""
    name = i["name"]
    hx.assume(name != "")
    for ch in name:
        hx.assume((ch != ":") & (ch != "-"))
    known = False
    for s in SCHEMES:
        known = known | (name == s)
    tagged = False
    for s in TAGGED:
        tagged = tagged | (name == s)
    k = True if known else False
    t = True if tagged else False
    hx.observe("known", [k, t])
    got = hx.attempt(lambda: parsers.epc_pure_identity_to_scheme("urn:epc:id:" + name + ":" + p["rest"]))
    hx.observe("id", got.kind)
    if not k:
        hx.require(got.refused, "an unknown scheme name is refused")
    got = hx.attempt(lambda: parsers.tag_uri_to_tag_encodable("urn:epc:tag:" + name + "-96:3." + p["rest"]))
    hx.observe("tag", got.kind)
    if not t:
        hx.require(got.refused, "an unknown or not encodable scheme name is refused")


def cases(tier):
    out = []
    for s in SCHEMES:
        for sh in shapes(s, tier):
            out.append(case("uri/" + sh["text"], "vharness.c13:uris", sh))
    for coding, (scheme, _h, total, _f) in CODINGS.items():
        for fname, fin in filter_inputs(coding):
            shs = tag_shapes(coding, scheme, tier)
            if tier == "quick":
                shs = shs[::3]
            for sh in shs:
                out.append(case("tag/%s/%s%s" % (coding, sh["text"], fname), "vharness.c13:tags", sh,
                                {"coding": coding}, fin))
    for f in tag_families("small" if tier == "quick" else "quick"):
        out.append({"id": "bits/" + f["id"], "fn": "vharness.c13:bits", "params": f["params"], "inputs": f["inputs"]})
    for n, body in enumerate(["000101" + "0" * 98, "001100" + "1" + "0" * 105, "0" * 104, "1" * 104,
                              "000110000000000000000011" + "0110001" * 12]):
        out.append({"id": "header/%d" % n, "fn": "vharness.c13:header", "params": {"scheme": "", "body": body},
                    "inputs": [["head", ["bits", 8]]]})
    for rest in ("0614141.112345.400", "0614141.1234567890", "5ABCD.77"):
        for n in range(1, 6):
            out.append({"id": "name/%d/%s" % (n, rest), "fn": "vharness.c13:names",
                        "params": {"scheme": "", "rest": rest}, "inputs": [["name", ["any", n]]]})
    return out
