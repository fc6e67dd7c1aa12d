"""C20: an element string gives exactly the identity it spells, or is refused."""
import re

from epcpy.utils.parsers import gs1_element_string_to_gs1_element
from vharness.c11 import HEAD, TAIL
from vharness.c15 import ELEMENTS
from vharness.common import cls_of
from vharness.tds import ELEMENT, ESCAPED, PREFIX, SCHEMES

BOUNDS = ("16 schemes with element strings; valid model element strings with one arbitrary Unicode character in place "
          "of or before any character, two in place of any adjacent two, any character left out, cut off anywhere, "
          "arbitrary characters in front and behind; digit counts and serial lengths one and two beyond the "
          "standard's, contents symbolic; company prefix lengths 6, 7 and 12 (thorough: 0 to 14)")
OUTSIDE = ("several distant faults in one element string; whether a wrong check digit is accepted or refused (if "
           "accepted, the identity must be the one of the other digits); negative prefix lengths")

CHAR = "[a-zA-Z0-9!'()*+,\\-.:;=_\"%&/<>?]"
PARTCHAR = "[0-9A-Z/#\\-]"
NUM = "(?:0|[1-9][0-9]{0,11})"
DIGITS = {"sgtin": 14, "lgtin": 14, "upui": 14, "itip": 18, "sscc": 18, "sgln": 13, "grai": 13, "gsrn": 18,
          "gsrnp": 18, "gdti": 13, "sgcn": 13, "gsin": 17, "pgln": 13}


def form(scheme, n):
    """Grammar of the element strings for company prefix length n."""
    out = re.escape(HEAD[scheme])
    if scheme in ("giai", "ginc"):
        return out + "[0-9]{%d}%s{1,%d}" % (n, CHAR, 30 - n)
    if scheme == "cpi":
        return out + "[0-9]{%d}%s{1,%d}\\(8011\\)%s" % (n, PARTCHAR, 30 - n, NUM)
    out += "[0-9]{%d}" % DIGITS[scheme]
    if scheme in TAIL:
        out += re.escape(TAIL[scheme])
    if scheme == "sgcn":
        out += "[0-9]{1,12}"
    elif "ser" in SCHEMES[scheme]:
        out += "%s{1,%d}" % (CHAR, SCHEMES[scheme]["ser"])
    return out


FORM = {(s, n): re.compile(form(s, n)) for s in ELEMENT for n in range(6, 13)}


def escape(text, chars):
    out = ""
    for ch in text:
        if ch in chars:
            out = out + "%" + format(ord(ch), "02X")
        else:
            out = out + ch
    return out


def spelled(scheme, text, n):
    """URI of the identity spelled, None if it is no element string."""
    if not 6 <= n <= 12 or not FORM[scheme, n].fullmatch(text):
        return None
    pre = PREFIX[scheme]
    rest = text[len(HEAD[scheme]):]
    if scheme in ("giai", "ginc"):
        return pre + rest[:n] + "." + escape(rest[n:], ESCAPED)
    if scheme == "cpi":
        ref, num = rest.split("(8011)", 1)
        return pre + ref[:n] + "." + escape(ref[n:], "/#") + "." + num
    d = rest[:DIGITS[scheme]]
    rest = rest[DIGITS[scheme]:]
    if scheme in ("sgtin", "lgtin", "upui", "itip"):
        out = pre + d[1:1 + n] + "." + d[0] + d[1 + n:13]
        if scheme == "itip":
            out = out + "." + d[14:16] + "." + d[16:18]
    elif scheme == "sscc":
        out = pre + d[1:1 + n] + "." + d[0] + d[1 + n:17]
    else:
        out = pre + d[:n] + "." + d[n:len(d) - 1]
    if scheme in TAIL:
        rest = rest[len(TAIL[scheme]):]
    if "ser" in SCHEMES[scheme]:
        out = out + "." + escape(rest, ESCAPED)
    return out


def judge(hx, scheme, text, n):
    want = spelled(scheme, text, n)
    cls = cls_of(scheme)
    for name, fn in (("scheme", cls.from_gs1_element_string), ("generic", gs1_element_string_to_gs1_element)):
        got = hx.attempt(lambda: fn(text, n))
        hx.observe(name, [want is not None, got.kind])
        if want is None:
            if name == "scheme":
                hx.require(got.refused, name + ": an invalid element string is refused")
            else:
                hx.require(not got.ok or not isinstance(got.value, cls), name + ": an invalid element string is refused")
        elif got.ok:
            hx.require(isinstance(got.value, cls), name + ": object of the scheme")
            hx.require(got.value.epc_uri == want, name + ": the identity spelled")


def window(hx, p, i):
    judge(hx, p["scheme"], p["pre"] + i["x"] + p["post"], p["n"])


def pieces(hx, p, i):
    out = ""
    for name in p["form"]:
        if name[0] == "=":
            out = out + name[1:]
        else:
            v = i[name]
            out = out + (v["raw"] if isinstance(v, dict) else v)
    judge(hx, p["scheme"], out, p["n"])


def cases(tier):
    out = []
    th = tier == "thorough"

    def win(kind, scheme, n, pre, k, post):
        out.append({"id": "%s/%s/n=%d/%s<%d>%s" % (kind, scheme, n, pre, k, post), "fn": "vharness.c20:window",
                    "params": {"scheme": scheme, "pre": pre, "post": post, "n": n}, "inputs": [["x", ["any", k]]]})

    def parts(kind, scheme, n, fields):
        names, ins, text = [], [], ""
        for k, f in enumerate(fields):
            if isinstance(f, str):
                names.append("=" + f)
                text += f
            else:
                names.append("c%d" % k)
                ins.append(["c%d" % k, f])
                text += "<%s>" % ",".join(map(str, f))
        out.append({"id": "%s/%s/n=%d/%s" % (kind, scheme, n, text), "fn": "vharness.c20:pieces",
                    "params": {"scheme": scheme, "form": names, "n": n}, "inputs": ins})

    for s, text in ELEMENTS.items():
        for n in (7,) if not th else range(0, 15):
            for k in range(0, len(text)):
                win("replace", s, n, text[:k], 1, text[k + 1:])
                win("drop", s, n, text[:k], 0, text[k + 1:])
                win("insert", s, n, text[:k], 1, text[k:])
                win("two", s, n, text[:k], 2, text[k + 2:])
                win("cut", s, n, text[:k], 0, "")
                if th and n == 7:
                    win("three", s, n, text[:k], 3, text[k + 3:])
            for k in (0, 1, 2):
                win("append", s, n, text, k, "")
            win("prepend", s, n, "", 1, text)
            for k in range(0, 3 if not th else 5):
                win("body", s, n, HEAD[s], k, "")
        for n in (6, 7, 12) if not th else range(5, 14):
            for o, other in ELEMENTS.items():
                if o != s and n == 7:
                    win("other", s, n, other, 0, "")
            if s in ("giai", "ginc", "cpi"):
                c = "U" if s == "cpi" else "G"
                tail = ["(8011)", ["digits", 2]] if s == "cpi" else []
                for k in (0, 1, 29 - n, 30 - n, 31 - n, 32 - n):
                    parts("length", s, n, [HEAD[s], ["digits", n]] + ([["cells", c * k]] if k else []) + tail)
                for k in (n - 1, n - 2):
                    parts("length", s, n, [HEAD[s], ["digits", k], ["cells", c * 4]] + tail)
                if s == "cpi":
                    for k in range(0, 15):
                        parts("number", s, n, [HEAD[s], ["digits", n], ["cells", "UF"], "(8011)", ["digits", k]])
                continue
            d = DIGITS[s]
            ser = []
            if s in TAIL:
                ser.append(TAIL[s])
            if s == "sgcn":
                ser.append(["digits", 3])
            elif "ser" in SCHEMES[s]:
                ser.append(["cells", "GE"])
            for k in range(d - 2, d + 3):
                parts("digits", s, n, [HEAD[s], ["digits", k]] + ser)
            if "ser" in SCHEMES[s]:
                mx = SCHEMES[s]["ser"]
                for k in (0, 1, mx - 1, mx, mx + 1, mx + 2):
                    f = [["digits", k] if s == "sgcn" else ["cells", "G" * k]] if k else []
                    parts("serial", s, n, [HEAD[s], ["digits", d]] + ser[:-1] + f)
                if s != "sgcn":
                    for t in ("E" * 2, "E" + "G" * (mx - 1), "E" + "G" * mx, "G" * mx + "E", "=%" * mx,
                              "=%" * (mx + 1)):
                        parts("serial", s, n, [HEAD[s], ["digits", d]] + ser[:-1] + [["cells", t]])
                else:
                    parts("serial", s, n, [HEAD[s], ["digits", d], ["cells", "GG"]])
    return list({c["id"]: c for c in out}.values())
