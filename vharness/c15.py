"""C15: malformed input raises only the library's conversion error."""
from epcpy import get_gs1_key
from epcpy.utils import parsers
from vharness.c08 import MODELS
from vharness.common import cls_of
from vharness.tds import CODINGS, ELEMENT, PREFIX, SCHEMES, TAGGED, coding_names

BOUNDS = ("constructors and parsing functions of all 21 schemes and all generic parsers; texts of 0 to 3 (thorough 5) "
          "arbitrary Unicode characters; a model of every representation with one arbitrary Unicode character in "
          "place of or before any character and cut off at any place (thorough: two characters); every header "
          "followed by 0 to 64 arbitrary bits or digits; company prefix lengths 0 to 14")
OUTSIDE = ("arguments that are not strings; lone surrogates; several distant faults in one text; negative company "
           "prefix lengths; arguments of the encoding functions")

TAGS = {
    "sgtin-96": "0614141.112345.400", "sgtin-198": "0614141.112345.4a%2F", "sscc-96": "0614141.1234567890",
    "sgln-96": "0614141.12345.400", "sgln-195": "0614141.12345.4a%2F", "grai-96": "0614141.12345.400",
    "grai-170": "0614141.12345.4a%2F", "giai-96": "0614141.12345400", "giai-202": "0614141.1b%2F",
    "gsrn-96": "0614141.1234567890", "gsrnp-96": "0614141.1234567890", "gdti-96": "0614141.12345.400",
    "gdti-174": "0614141.12345.4a%2F", "cpi-96": "0614141.123.456", "cpi-var": "0614141.5P%2F.123",
    "sgcn-96": "4012345.67890.04711", "itip-110": "4012345.012345.01.02.987", "itip-212": "4012345.012345.01.02.9a%2F",
    "gid-96": "95100000.12345.400", "usdod-96": "CJ123.12345", "adi-var": "W81X9C.3K%2F.%23PN7",
}
ELEMENTS = {
    "sgtin": "(01)10614141123459(21)4a/", "sscc": "(00)106141412345678908", "sgln": "(414)0614141123452(254)4a/",
    "grai": "(8003)006141411234524a/", "giai": "(8004)06141411b/", "gsrn": "(8018)061414112345678902",
    "gsrnp": "(8017)061414112345678902", "gdti": "(253)06141411234524a/", "cpi": "(8010)06141415P/(8011)123",
    "sgcn": "(255)401234567890104711", "ginc": "(401)0614141xy/", "gsin": "(402)06141411234567890",
    "itip": "(8006)040123451234560102(21)9a/", "upui": "(01)01234567894568(235)5qI/", "pgln": "(417)1234567890128",
    "lgtin": "(01)04012345123456(10)9a/",
}


def only(hx, name, fn):
    got = hx.attempt(fn)
    hx.observe(name, got.kind)
    hx.require(got.ok or got.refused, name + ": a valid object or the conversion error")


def text_of(p, i):
    return p["pre"] + i["x"] + p["post"]


def everywhere(hx, p, i):
    t = text_of(p, i)
    for n in (None, 7):
        only(hx, "key", lambda: get_gs1_key(t, n))
    for name in ("epc_pure_identity_to_scheme", "epc_pure_identity_to_gs1_element", "epc_pure_identity_to_gs1_keyed",
                 "epc_pure_identity_to_tag_encodable", "epc_pure_identity_to_gs1_key",
                 "epc_pure_identity_to_gs1_element_string", "tag_uri_to_tag_encodable", "binary_to_tag_encodable",
                 "hex_to_tag_encodable", "base64_to_tag_encodable"):
        only(hx, name, lambda: getattr(parsers, name)(t))
    only(hx, "gs1_element_string_to_gs1_element", lambda: parsers.gs1_element_string_to_gs1_element(t, 7))


def scheme_all(hx, p, i):
    t = text_of(p, i)
    cls = cls_of(p["scheme"])
    only(hx, "constructor", lambda: cls(t))
    only(hx, "from_epc_uri", lambda: cls.from_epc_uri(t))
    if p["scheme"] in TAGGED:
        for name in ("from_tag_uri", "from_binary", "from_hex", "from_base64"):
            only(hx, name, lambda: getattr(cls, name)(t))
        only(hx, "from_tag_uri without filter", lambda: cls.from_tag_uri(t, includes_filter=False))
    if p["scheme"] in ELEMENT:
        only(hx, "from_gs1_element_string", lambda: cls.from_gs1_element_string(t, 7))
    if p["scheme"] == "sgtin":
        only(hx, "from_gtin_plus_serial", lambda: cls.from_gtin_plus_serial(t, "1", 7))
        only(hx, "from_gtin_plus_serial serial", lambda: cls.from_gtin_plus_serial("10614141123459", t, 7))


def uri(hx, p, i):
    t = text_of(p, i)
    only(hx, "constructor", lambda: cls_of(p["scheme"])(t))
    only(hx, "generic", lambda: parsers.epc_pure_identity_to_scheme(t))
    only(hx, "gs1_key", lambda: parsers.epc_pure_identity_to_gs1_key(t))
    only(hx, "key", lambda: get_gs1_key(t))


def pattern(hx, p, i):
    t = text_of(p, i)
    only(hx, "key", lambda: get_gs1_key(t))


def tag(hx, p, i):
    t = text_of(p, i)
    cls = cls_of(p["scheme"])
    only(hx, "from_tag_uri", lambda: cls.from_tag_uri(t))
    only(hx, "without filter", lambda: cls.from_tag_uri(t, includes_filter=False))
    only(hx, "generic", lambda: parsers.tag_uri_to_tag_encodable(t))
    only(hx, "key", lambda: get_gs1_key(t))


def elem(hx, p, i):
    t = text_of(p, i)
    cls = cls_of(p["scheme"])
    for n in p["lengths"]:
        only(hx, "from_gs1_element_string", lambda: cls.from_gs1_element_string(t, n))
        only(hx, "generic", lambda: parsers.gs1_element_string_to_gs1_element(t, n))
        only(hx, "key", lambda: get_gs1_key(t, n))


def binary(hx, p, i):
    t = text_of(p, i)
    only(hx, "from_binary", lambda: cls_of(p["scheme"]).from_binary(t))
    only(hx, "generic", lambda: parsers.binary_to_tag_encodable(t))
    only(hx, "key", lambda: get_gs1_key(t))


def hexa(hx, p, i):
    t = text_of(p, i)
    only(hx, "from_hex", lambda: cls_of(p["scheme"]).from_hex(t))
    only(hx, "generic", lambda: parsers.hex_to_tag_encodable(t))
    only(hx, "key", lambda: get_gs1_key(t))


def sixtyfour(hx, p, i):
    t = text_of(p, i)
    only(hx, "from_base64", lambda: cls_of(p["scheme"]).from_base64(t))
    only(hx, "generic", lambda: parsers.base64_to_tag_encodable(t))


def model_tag(coding):
    """Bits, hexadecimal and base64 of the model identity."""
    import base64
    from vharness.tds import encode
    scheme, header, total, fbits = CODINGS[coding]
    parts = SCHEMES[scheme]["parts"].split()
    vals = TAGS[coding].split(".")
    comps = {}
    for n, v in zip(parts, vals):
        comps[n] = v.replace("%2F", "/").replace("%23", "#")
    b = encode(coding, "3", comps)
    pad = b + "0" * (-len(b) % 16)
    h = "%0*X" % (len(pad) // 4, int(pad, 2))
    return b, h, base64.b64encode(bytes.fromhex(h)).decode()


def cases(tier):
    out = []
    th = tier == "thorough"

    def win(fn, scheme, pre, n, post, kind="", spec="any", **more):
        out.append({"id": "%s/%s/%s<%s%d>%s" % (fn, scheme, pre, kind or spec, n, post), "fn": "vharness.c15:" + fn,
                    "params": dict({"scheme": scheme, "pre": pre, "post": post}, **more),
                    "inputs": [["x", [spec, n]]]})

    def around(fn, scheme, text, start=0, step=1, **more):
        for k in range(start, len(text), step):
            win(fn, scheme, text[:k], 1, text[k + 1:], **more)
            win(fn, scheme, text[:k], 1, text[k:], **more)
            win(fn, scheme, text[:k], 0, "", **more)
            win(fn, scheme, text[:k], 0, text[k + 1:], **more)
            if th:
                win(fn, scheme, text[:k], 2, text[k + 2:], **more)
        win(fn, scheme, text, 1, "", **more)
        win(fn, scheme, text, 2, "", **more)

    for n in range(0, 3 if not th else 6):
        win("everywhere", "", "", n, "")
    for s in SCHEMES:
        for n in range(0, 3 if not th else 5):
            win("scheme_all", s, "", n, "")
        for body in MODELS[s]:
            around("uri", s, PREFIX[s] + body, len(PREFIX[s]) - 2 if not th else 0)
            if s != "lgtin":
                around("pattern", s, "urn:epc:idpat:%s:%s" % (s, body), 14 + len(s) if not th else 0, 1 if th else 2)
        body = MODELS[s][0].split(".")
        if s != "lgtin":
            for k in range(len(body)):
                around("pattern", s, "urn:epc:idpat:%s:%s" % (s, ".".join(body[:k] + ["*"] * (len(body) - k))),
                       14 + len(s) if not th else 0, 1 if th else 2)
    for s, text in ELEMENTS.items():
        around("elem", s, text, lengths=[0, 7, 14] if not th else list(range(0, 15)))
    for coding, body in TAGS.items():
        s = CODINGS[coding][0]
        around("tag", s, "urn:epc:tag:%s:%s%s" % (coding, "" if s == "gid" else "3.", body), 12 if not th else 0)
        b, h, b64 = model_tag(coding)
        around("binary", s, b, 0, 1 if th else 9)
        around("hexa", s, h, 0, 1 if th else 3)
        around("sixtyfour", s, b64, 0, 1 if th else 3)
        for n in (0, 1, 2, 3, 5, 6, 7, 11, 24, 50) if not th else range(0, 65):
            if s == "gid" and n > 28 or s in ("cpi", "adi") and n > (36 if th else 24):
                continue
            win("binary", s, CODINGS[coding][1], n, "", spec="bits")
        for n in (1, 2, 3, 4, 7, 12):
            if n == 12 and s in ("cpi", "adi"):
                continue
            out.append({"id": "hexa/%s/%s<hex%d>" % (s, h[:2], n), "fn": "vharness.c15:hexa",
                        "params": {"scheme": s, "pre": h[:2], "post": ""}, "inputs": [["x", ["hex", n, "m"]]]})
    return list({c["id"]: c for c in out}.values())
