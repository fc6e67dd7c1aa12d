"""C25: a key is given only for texts that are a representation with that key."""
from epcpy import get_gs1_key
from vharness.c08 import MODELS
from vharness.c15 import ELEMENTS, TAGS
from vharness.c19 import spelled as spelled_tag
from vharness.c20 import spelled as spelled_element
from vharness.common import cls_of
from vharness.grammar import could_be_valid
from vharness.tds import CODINGS, KEYED, PREFIX, SCHEMES

BOUNDS = ("models of every representation (identity URI, tag URI, element string, pattern with and without wildcard) of "
          "the 13 keyed schemes with one arbitrary Unicode character in place of or before any character, two in "
          "place of adjacent two (quick: every third place), any character left out, cut off anywhere, one or two "
          "characters in front and behind; the other schemes with one character in place of any")
OUTSIDE = ("several distant faults in one text; binary and hexadecimal texts (C21, C14); the key given for a wildcard in "
           "place of a serial that is part of the key")

OPEN = ("sgtin", "sgln", "grai", "gdti")      # a wildcard may replace the serial


def meant(scheme, text, n):
    """(kind, URI) of the identity a text stands for, or None."""
    if could_be_valid(scheme, text):
        return "exact", text
    if text.startswith("urn:epc:tag:") and scheme in TAGGED_KEYED:
        uri = spelled_tag(scheme, text)
        if uri is not None:
            return "exact", uri
    if text.startswith("("):
        uri = spelled_element(scheme, text, n)
        if uri is not None:
            return "exact", uri
    if text.startswith("urn:epc:idpat:"):
        uri = "urn:epc:id:" + text[len("urn:epc:idpat:"):]
        if could_be_valid(scheme, uri):
            return "exact", uri
        if scheme in OPEN and uri.endswith(".*"):
            uri = uri[:-1] + "0"
            if could_be_valid(scheme, uri):
                return ("exact" if scheme in ("sgtin", "sgln") else "open"), uri
    return None


TAGGED_KEYED = [s for s in KEYED if any(CODINGS[c][0] == s for c in CODINGS)]


def window(hx, p, i):
    text = p["pre"] + i["x"] + p["post"]
    scheme = p["scheme"]
    got = hx.attempt(lambda: get_gs1_key(text, 7))
    hx.observe("key", got.value if got.ok else got.kind)
    hx.require(got.ok or got.refused, "the conversion error only")
    if not got.ok:
        return
    hits = []
    for s in p["cands"]:
        m = meant(s, text, 7)
        if m is not None:
            hits.append((s, m[0], m[1]))
    hx.require(len(hits) > 0, "no key for a text that is no representation")
    for s, kind, uri in hits:
        if kind == "exact":
            own = hx.attempt(lambda: cls_of(s)(uri).gs1_key())
            hx.require(own.ok, "the identity has a key")
            if own.ok:
                hx.require(got.value == own.value, "the key of the identity the text stands for")


def cases(tier):
    out = []
    th = tier == "thorough"

    def win(kind, scheme, pre, n, post, cands=None):
        out.append({"id": "%s/%s/%s<%d>%s" % (kind, scheme, pre, n, post), "fn": "vharness.c25:window",
                    "params": {"scheme": scheme, "pre": pre, "post": post,
                               "cands": cands or ([scheme] if scheme in KEYED else [])},
                    "inputs": [["x", ["any", n]]]})

    texts = []
    for s in SCHEMES:
        for n, body in enumerate(MODELS[s]):
            texts.append((s, PREFIX[s] + body, PREFIX[s], n == 0))
            if PREFIX[s].startswith("urn:epc:id:"):
                pat = "urn:epc:idpat:" + s + ":"
                texts.append((s, pat + body, pat, False))
                parts = body.split(".")
                for k in range(1, len(parts)):
                    texts.append((s, pat + ".".join(parts[:-k] + ["*"] * k), pat, n == 0 and k == 1))
    for coding, body in TAGS.items():
        s = CODINGS[coding][0]
        head = "urn:epc:tag:" + coding + ":"
        texts.append((s, head + ("" if s == "gid" else "3.") + body, head, True))
    for s, t in ELEMENTS.items():
        texts.append((s, t, t[:t.index(")") + 1], True))
    for s, t, head, full in texts:
        keyed = s in KEYED
        if not keyed and not t.startswith(PREFIX[s]) and not th:
            continue
        for k in range(len(t)):
            if not th and (t[0] != "(" and k < 8 and s != "sgtin" or not full and (k + len(out)) % 2):
                continue
            # behind the head another scheme cannot come about
            cands = list(KEYED) if k < len(head) or t[0] == "(" else None
            win("replace", s, t[:k], 1, t[k + 1:], cands)
            if keyed and full or th:
                win("drop", s, t[:k], 0, t[k + 1:], cands)
                if k % 3 == 0 or th:
                    win("cut", s, t[:k], 0, "", cands)
                    win("insert", s, t[:k], 1, t[k:], cands)
                    win("two", s, t[:k], 2, t[k + 2:], cands)
        if keyed:
            win("append", s, t, 1, "")
            win("append", s, t, 2, "")
            win("prepend", s, "", 1, t)
    return list({c["id"]: c for c in out}.values())
