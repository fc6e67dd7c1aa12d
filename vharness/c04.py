"""C04: decoding never misreads tag bits."""
from vharness.common import cls_of
from vharness.tags import tag_bits, tag_families
from vharness.tds import decode

BOUNDS = ("every coding scheme; all eight partition values; all numeric fields, filter bits and reserved bits "
          "arbitrary; 7-bit and 6-bit strings with up to two arbitrary codes anywhere in otherwise plain strings "
          "of the lengths listed in vharness/tags.py; bit strings up to 3 bits shorter and 16 bits longer than the "
          "prescribed size")
OUTSIDE = "strings with more than two codes outside the plain characters at once; other surplus or missing lengths"


def faithful(hx, p, i):
    cls = cls_of(p["scheme"])
    b = tag_bits(p, i)
    want = decode(p["coding"], b)
    got = hx.attempt(lambda: cls.from_binary(b))
    hx.observe("decoded", got.value.epc_uri if got.ok else got.kind)
    hx.require(got.ok or got.refused, "only the conversion error may be raised")
    if got.ok:
        hx.require(want is not None, "bits that are no legal tag must be refused")
        if want is not None:
            hx.require(got.value.epc_uri == want, "the fields must be the values the bits stand for")


def cases(tier):
    return [{"id": f["id"], "fn": "vharness.c04:faithful", "params": f["params"], "inputs": f["inputs"],
             "weight": f.get("weight", 1)} for f in tag_families(tier)]
