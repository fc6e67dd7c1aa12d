"""C24: a tag that is read is written back unchanged."""
from vharness.common import cls_of, coding_of, filter_enum
from vharness.tags import tag_bits, tag_families
from vharness.tds import CODINGS, PREFIX_OF_P

BOUNDS = ("every coding scheme; the families of bit strings of vharness/tags.py: all partition values, all numeric "
          "fields and filter bits arbitrary, 7-bit and 6-bit strings with up to two arbitrary codes, surplus bits")
OUTSIDE = ("reserved bits of SSCC, GSRN and GSRNP and unused bits behind 7-bit strings, which are not part of the "
           "identity; strings with more than two codes outside the plain characters")

RESERVED = {"sscc-96": 24, "gsrn-96": 24, "gsrnp-96": 24}


def again(hx, p, i):
    scheme, coding = p["scheme"], p["coding"]
    cls = cls_of(scheme)
    b = tag_bits(p, i)
    if "digits" in i:
        b = b + format(int("1" + i["digits"]), "041b")
    got = hx.attempt(lambda: cls.from_binary(b))
    hx.observe("decoded", got.value.epc_uri if got.ok else got.kind)
    if not got.ok:
        return
    kw = {"binary_coding_scheme": coding_of(coding)}
    width = CODINGS[coding][3]
    if width:
        kw["filter_value"] = hx.member(filter_enum(scheme), str(int(b[8:8 + width], 2)))
    back = hx.attempt(lambda: got.value.binary(**kw))
    hx.observe("written", back.value if back.ok else back.kind)
    hx.require(back.ok, "a tag that was read can be written")
    if not back.ok:
        return
    n = len(back.value)
    total = CODINGS[coding][2]
    if total:
        hx.require(n == total, "of the same size")
    else:
        hx.require(n <= len(b), "not longer than what was read")
    n = n - RESERVED.get(coding, 0)
    n = n - p.get("unused", 0)
    hx.require(back.value[:n] == b[:n], "with the same bits")


def cases(tier):
    out = []
    for f in tag_families(tier):
        p = dict(f["params"])
        if p["coding"] == "giai-202":
            p["unused"] = (188 - PREFIX_OF_P.get(int(p["fields"][1][1:], 2), (6, 20))[1]) % 7
        if p["coding"] == "sgcn-96":
            if f["id"].count(",") or p["fields"][-1] != "ser":
                continue
            for k in range(0, 13):
                q = dict(p, fields=p["fields"][:-1])
                out.append({"id": "%s,%d digits" % (f["id"], k), "fn": "vharness.c24:again", "params": q,
                            "inputs": f["inputs"][:-1] + [["digits", ["digits", k]]]})
            continue
        out.append({"id": f["id"], "fn": "vharness.c24:again", "params": p, "inputs": f["inputs"],
                    "weight": f.get("weight", 1)})
    return out
