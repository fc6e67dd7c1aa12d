"""C03: binary, hexadecimal and base64 forms carry the same bits."""
import base64

from vharness.common import case, cls_of, filter_inputs, identity, tag_kwargs
from vharness.shapes import tag_shapes
from vharness.tags import tag_bits, tag_families
from vharness.tds import CODINGS

BOUNDS = ("encoding: company prefix lengths 6-12, component lengths of vharness/shapes.py, all contents and filter "
          "values symbolic; decoding: the bit string families of vharness/tags.py, padded to whole bytes, in all forms "
          "and in upper, lower and mixed case")
OUTSIDE = "base64 text with line breaks or missing padding; hexadecimal text of an odd number of digits"


def to_hex(b, upper):
    """Hexadecimal digits of a bit string (a multiple of four bits)."""
    out = ""
    for k in range(0, len(b), 4):
        out = out + format(int(b[k:k + 4], 2), "X" if upper else "x")
    return out


def padded(b, unit):
    return b + "0" * ((-len(b)) % unit)


def encoding(hx, p, i):
    cls = cls_of(p["scheme"])
    uri, comps = identity(hx, p["scheme"], i)
    kw = tag_kwargs(hx, p["coding"], i)
    made = hx.attempt(lambda: cls(uri))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    b = hx.attempt(lambda: made.value.binary(**kw))
    h = hx.attempt(lambda: made.value.hex(**kw))
    t = hx.attempt(lambda: made.value.base64(**kw))
    hx.observe("outcomes", [b.kind, h.kind, t.kind])
    hx.require(b.ok == h.ok and b.ok == t.ok, "all forms are available or none")
    if not (b.ok and h.ok and t.ok):
        return
    hx.observe("hex", h.value)
    hx.observe("base64", t.value)
    want = to_hex(padded(b.value, 16), True)
    hx.require(h.value == want, "hexadecimal is the zero padded binary form in upper-case digits")
    hx.require(t.value == base64.b64encode(bytes.fromhex(want)).decode("ascii"), "base64 of exactly those bytes")


def decoding(hx, p, i):
    cls = cls_of(p["scheme"])
    b = padded(tag_bits(p, i), 8)
    up = to_hex(b, True)
    low = to_hex(b, False)
    mixed = up[:len(up) // 2] + low[len(up) // 2:]
    text = base64.b64encode(bytes.fromhex(up)).decode("ascii")
    first = hx.attempt(lambda: cls.from_binary(b))
    hx.observe("binary", first.value.epc_uri if first.ok else first.kind)
    for name, fn in (("upper", lambda: cls.from_hex(up)), ("lower", lambda: cls.from_hex(low)),
                     ("mixed", lambda: cls.from_hex(mixed)), ("base64", lambda: cls.from_base64(text))):
        got = hx.attempt(fn)
        hx.observe(name, got.kind)
        hx.require(got.kind == first.kind, name + ": same outcome as the binary form")
        if got.ok and first.ok:
            hx.require(got.value.epc_uri == first.value.epc_uri, name + ": same identity as the binary form")


def cases(tier):
    out = []
    for coding, (scheme, _h, total, _f) in CODINGS.items():
        for fname, fin in filter_inputs(coding):
            for n, sh in enumerate(tag_shapes(coding, scheme, tier)):
                if fname == "f2" and n > 1 and tier == "quick":
                    continue
                out.append(case("encode/%s/%s%s" % (coding, sh["text"], fname), "vharness.c03:encoding", sh,
                                {"coding": coding}, fin))
    for f in tag_families("small" if tier == "quick" else "quick"):
        out.append({"id": "decode/" + f["id"], "fn": "vharness.c03:decoding", "params": f["params"],
                    "inputs": f["inputs"], "weight": f["weight"]})
    return out
