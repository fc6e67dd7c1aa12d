"""C21: binary and hexadecimal tags with foreign characters are refused."""
from epcpy import get_gs1_key
from epcpy.utils.parsers import binary_to_tag_encodable, hex_to_tag_encodable
from vharness.c15 import TAGS, model_tag
from vharness.common import cls_of
from vharness.tds import CODINGS

BOUNDS = ("21 coding schemes; the binary and hexadecimal tag of a model identity with one arbitrary Unicode character "
          "in place of or before any character, two in place of adjacent two (quick: every third place), one or two "
          "in front and behind; up to 3 (thorough 5) arbitrary characters alone")
OUTSIDE = "base64 texts with foreign characters; several distant foreign characters; lone surrogates"


def inside(text, alphabet):
    ok = True
    for ch in text:
        ok = ok & (ch in alphabet)
    return ok


def foreign(hx, p, i):
    text = p["pre"] + i["x"] + p["post"]
    cls = cls_of(p["scheme"])
    if p["kind"] == "binary":
        good = inside(i["x"], "01")
        fns = [("scheme", cls.from_binary), ("generic", binary_to_tag_encodable)]
    else:
        good = inside(i["x"], "0123456789abcdefABCDEF")
        fns = [("scheme", cls.from_hex), ("generic", hex_to_tag_encodable)]
    if len(text) == 0:
        good = False
    if p.get("key"):
        fns.append(("key", get_gs1_key))
    for name, fn in fns:
        got = hx.attempt(lambda: fn(text))
        hx.observe(name, got.kind)
        if not good:
            hx.require(got.refused, name + ": a foreign character is refused")


def cases(tier):
    out = []
    th = tier == "thorough"

    def win(kind, what, scheme, coding, pre, k, post, **more):
        out.append({"id": "%s/%s/%s/%s<%d>%s" % (kind, what, coding, pre, k, post), "fn": "vharness.c21:foreign",
                    "params": dict({"scheme": scheme, "pre": pre, "post": post, "kind": kind}, **more),
                    "inputs": [["x", ["any", k]]]})

    for coding in TAGS:
        s = CODINGS[coding][0]
        b, h, _ = model_tag(coding)
        for kind, text, step in (("binary", b, 1), ("hexa", h, 1)):
            for k in range(0, len(text)):
                if not th and kind == "binary" and k % 2 and k > 16:
                    continue
                win(kind, "replace", s, coding, text[:k], 1, text[k + 1:], key=k >= 8 and k % 8 == 0)
                if k % 3 == 0 or th:
                    win(kind, "insert", s, coding, text[:k], 1, text[k:])
                    win(kind, "two", s, coding, text[:k], 2, text[k + 2:])
            for k in (0, 1, 2):
                win(kind, "append", s, coding, text, k, "", key=True)
            for k in (1, 2):
                win(kind, "prepend", s, coding, "", k, text)
            for k in range(0, 4 if not th else 6):
                win(kind, "alone", s, coding, "", k, "")
                win(kind, "after header", s, coding, text[:8 if kind == "binary" else 2], k, "")
    return list({c["id"]: c for c in out}.values())
