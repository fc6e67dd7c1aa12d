"""Grammar of the pure identity URIs, written from the Tag Data Standard.

LOOSE[scheme] matches every string the standard could allow, including
non-canonical escapes (lower-case digits, escaped plain characters), about
which no claim is made; numbers are bounded by in_range()."""
import re

from vharness.tds import ESCAPED, PLAIN, SCHEMES

PLAIN_RE = "[a-zA-Z0-9!'()*+,\\-.:;=_]"


def _hex(n):
    out = ""
    for ch in "%02X" % n:
        out += ch if ch.isdigit() else "[%s%s]" % (ch, ch.lower())
    return out


GS3A3 = "(?:%s|%%(?:%s))" % (PLAIN_RE, "|".join(_hex(ord(c)) for c in PLAIN + ESCAPED))
NUM = "(?:0|[1-9][0-9]*)"
CAGE = "[0-9A-HJ-NP-Z]{5,6}"
ADI = "(?:[A-Z0-9\\-]|%2[Ff])"
CPREF = "(?:[A-Z0-9\\-]|%2[Ff]|%23)"


def _pairs(total, least):
    out = []
    for L in range(6, 13):
        if total - L >= least:
            out.append("[0-9]{%d}\\.[0-9]{%d}" % (L, total - L))
    return "(?:%s)" % "|".join(out)


def _body(scheme):
    s = SCHEMES[scheme]
    parts = s["parts"].split()
    if scheme == "gid":
        return "(%s)\\.(%s)\\.(%s)" % (NUM, NUM, NUM)
    if scheme == "usdod":
        return "%s\\.(%s)" % (CAGE, NUM)
    if scheme == "adi":
        return "%s\\.%s{0,32}\\.(?:%s{1,30}|%%23%s{1,29})" % (CAGE, ADI, ADI, ADI)
    if scheme == "bic":
        return "[A-HJ-NP-Z]{3}[JUZ][0-9]{7}"
    if scheme == "imovn":
        return "[0-9]{7}"
    if scheme in ("giai", "ginc"):
        return "(?:%s)" % "|".join("[0-9]{%d}\\.%s{1,%d}" % (L, GS3A3, 30 - L) for L in range(6, 13))
    if scheme == "cpi":
        return "(?:%s)\\.(?:0|[1-9][0-9]{0,11})" % "|".join("[0-9]{%d}\\.%s{1,%d}" % (L, CPREF, 30 - L)
                                                           for L in range(6, 13))
    out = _pairs(s["total"], 0)
    if scheme == "itip":
        out += "\\.[0-9]{2}\\.[0-9]{2}"
    if "serial" in parts:
        out += "\\.%s{1,%d}" % (GS3A3, s["ser"])
    if "dser" in parts:
        out += "\\.[0-9]{1,%d}" % s["ser"]
    return out


LOOSE = {s: re.compile("urn:epc:%s:%s:%s" % ("class" if s == "lgtin" else "id", s, _body(s))) for s in SCHEMES}
RANGE = {"gid": (2 ** 28, 2 ** 24, 2 ** 36), "usdod": (2 ** 36,)}


def could_be_valid(scheme, text):
    m = LOOSE[scheme].fullmatch(text)
    if not m:
        return False
    if scheme in RANGE:
        k = 1
        for top in RANGE[scheme]:
            if int(m.group(k)) >= top:
                return False
            k += 1
    return True
