"""C19: a tag URI gives exactly the identity it spells, or is refused."""
import re

from epcpy.utils.parsers import tag_uri_to_tag_encodable
from vharness.c08 import cases as uri_cases
from vharness.c15 import TAGS
from vharness.common import cls_of
from vharness.grammar import LOOSE, NUM, RANGE
from vharness.tds import CODINGS, PREFIX, TAGGED, coding_names

BOUNDS = ("14 tag-encodable schemes, 21 coding schemes; valid model tag URIs with one arbitrary Unicode character in "
          "place of or before any character, two in place of any adjacent two, any character left out, cut off "
          "anywhere, arbitrary characters in front and behind; filters of 0 to 3 arbitrary characters; bodies with "
          "components of 0 to 2 characters too few or too many, company prefixes of 0 to 14 digits and serials one "
          "above the limit, contents symbolic; tag URIs of every coding scheme given to every other scheme")
OUTSIDE = ("several distant faults in one tag URI; whether numeric filter values beyond the standard's range, "
           "non-canonical escapes and serials the coding scheme cannot hold are accepted or refused (if accepted, the "
           "identity must still be the one spelled)")

TAG = {s: re.compile("urn:epc:tag:(?:%s):%s%s" % ("|".join(coding_names(s)), "" if s == "gid" else NUM + "\\.",
                                                 LOOSE[s].pattern[len(PREFIX[s]):])) for s in TAGGED}


def spelled(scheme, text):
    """Identity URI spelled by a tag URI of the scheme, None if it is none."""
    m = TAG[scheme].fullmatch(text)
    if not m:
        return None
    if scheme in RANGE:
        k = 1
        for top in RANGE[scheme]:
            if int(m.group(k)) >= top:
                return None
            k += 1
    body = text[len("urn:epc:tag:"):].split(":", 1)[1]
    if scheme != "gid":
        body = body.split(".", 1)[1]
    return PREFIX[scheme] + body


def judge(hx, scheme, text):
    want = spelled(scheme, text)
    cls = cls_of(scheme)
    for name, fn in (("scheme", cls.from_tag_uri), ("generic", tag_uri_to_tag_encodable)):
        got = hx.attempt(lambda: fn(text))
        hx.observe(name, [want is not None, got.kind])
        if want is None:
            if name == "scheme":
                hx.require(got.refused, name + ": an invalid tag URI is refused")
            else:
                hx.require(not got.ok or not isinstance(got.value, cls), name + ": an invalid tag URI is refused")
        elif got.ok:
            hx.require(isinstance(got.value, cls), name + ": object of the scheme")
            hx.require(got.value.epc_uri == want, name + ": the identity spelled")


def window(hx, p, i):
    judge(hx, p["scheme"], p["pre"] + i["x"] + p["post"])


def pieces(hx, p, i):
    out = ""
    for name in p["form"]:
        if name[0] == "=":
            out = out + name[1:]
        else:
            v = i[name]
            out = out + (v["uri"] if isinstance(v, dict) else v)
    judge(hx, p["scheme"], out)


def cases(tier):
    out = []
    th = tier == "thorough"

    def win(kind, scheme, pre, n, post):
        out.append({"id": "%s/%s/%s<%d>%s" % (kind, scheme, pre, n, post), "fn": "vharness.c19:window",
                    "params": {"scheme": scheme, "pre": pre, "post": post}, "inputs": [["x", ["any", n]]]})

    for coding, body in TAGS.items():
        s = CODINGS[coding][0]
        head = "urn:epc:tag:" + coding + ":"
        flt = "" if s == "gid" else "3."
        text = head + flt + body
        first = coding == coding_names(s)[0]
        for k in range(0, len(text)):
            win("replace", s, text[:k], 1, text[k + 1:])
            if first or th or k < len(head) + 2:
                win("drop", s, text[:k], 0, text[k + 1:])
                win("cut", s, text[:k], 0, "")
            if k % 3 == 0 or th:
                win("insert", s, text[:k], 1, text[k:])
                win("two", s, text[:k], 2, text[k + 2:])
        win("append", s, text, 1, "")
        win("append", s, text, 2, "")
        win("append", s, text + ":", 1, "")
        win("append", s, text + ".", 1, "")
        win("prepend", s, "", 1, text)
        for n in range(0, 4):
            win("filter", s, head, n, "." + body)
        for n in range(0, 4 if not th else 6):
            win("body", s, head, n, "")
        for o in TAGGED:
            if o != s:
                win("other", o, text, 0, "")
    tagged = set(TAGGED)
    for c in uri_cases(tier):
        s = c["params"]["scheme"]
        if s not in tagged or c["id"].split("/")[0] in ("prepend", "foreign", "cut", "body"):
            continue
        for coding in coding_names(s) if th else coding_names(s)[:1]:
            head = "urn:epc:tag:" + coding + ":" + ("" if s == "gid" else "1.")
            if "form" in c["params"]:
                out.append({"id": "%s/%s" % (coding, c["id"]), "fn": "vharness.c19:pieces",
                            "params": {"scheme": s, "form": ["=" + head] + c["params"]["form"][1:]},
                            "inputs": c["inputs"]})
            elif c["params"]["pre"].startswith(PREFIX[s]) and (th or c["id"].startswith("two/")):
                out.append({"id": "%s/%s" % (coding, c["id"]), "fn": "vharness.c19:window",
                            "params": {"scheme": s, "pre": head + c["params"]["pre"][len(PREFIX[s]):],
                                       "post": c["params"]["post"]}, "inputs": c["inputs"]})
    return list({c["id"]: c for c in out}.values())
