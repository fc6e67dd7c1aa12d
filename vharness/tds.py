"""Reference model of the GS1 Tag Data Standard, written from the standard
(tables 14-x and the element string chapter), independent of the library."""

SCHEMES = {
    # name: components (kind, size), see comps()
    "sgtin": dict(cls="SGTIN", parts="cp item serial", total=13, ser=20),
    "sscc": dict(cls="SSCC", parts="cp ref", total=17),
    "sgln": dict(cls="SGLN", parts="cp ref serial", total=12, ser=20),
    "grai": dict(cls="GRAI", parts="cp ref serial", total=12, ser=16),
    "giai": dict(cls="GIAI", parts="cp serial", ser=30),
    "gsrn": dict(cls="GSRN", parts="cp ref", total=17),
    "gsrnp": dict(cls="GSRNP", parts="cp ref", total=17),
    "gdti": dict(cls="GDTI", parts="cp ref serial", total=12, ser=17),
    "cpi": dict(cls="CPI", parts="cp cpref num", ser=30),
    "sgcn": dict(cls="SGCN", parts="cp ref dser", total=12, ser=12),
    "ginc": dict(cls="GINC", parts="cp serial", ser=30),
    "gsin": dict(cls="GSIN", parts="cp ref", total=16),
    "itip": dict(cls="ITIP", parts="cp item piece total serial", total=13, ser=20),
    "upui": dict(cls="UPUI", parts="cp item serial", total=13, ser=28),
    "pgln": dict(cls="PGLN", parts="cp ref", total=12),
    "lgtin": dict(cls="LGTIN", parts="cp item serial", total=13, ser=20),
    "gid": dict(cls="GID", parts="n1 n2 n3"),
    "usdod": dict(cls="USDOD", parts="cage num"),
    "adi": dict(cls="ADI", parts="cage part serial"),
    "bic": dict(cls="BIC", parts="code"),
    "imovn": dict(cls="IMOVN", parts="code"),
}

PREFIX = {n: "urn:epc:id:%s:" % n for n in SCHEMES}
PREFIX["lgtin"] = "urn:epc:class:lgtin:"

# coding scheme -> (scheme, header, total bits or None, filter bits)
CODINGS = {
    "sgtin-96": ("sgtin", "00110000", 96, 3),
    "sgtin-198": ("sgtin", "00110110", 198, 3),
    "sscc-96": ("sscc", "00110001", 96, 3),
    "sgln-96": ("sgln", "00110010", 96, 3),
    "sgln-195": ("sgln", "00111001", 195, 3),
    "grai-96": ("grai", "00110011", 96, 3),
    "grai-170": ("grai", "00110111", 170, 3),
    "giai-96": ("giai", "00110100", 96, 3),
    "giai-202": ("giai", "00111000", 202, 3),
    "gsrn-96": ("gsrn", "00101101", 96, 3),
    "gsrnp-96": ("gsrnp", "00101110", 96, 3),
    "gdti-96": ("gdti", "00101100", 96, 3),
    "gdti-174": ("gdti", "00111110", 174, 3),
    "cpi-96": ("cpi", "00111100", 96, 3),
    "cpi-var": ("cpi", "00111101", None, 3),
    "sgcn-96": ("sgcn", "00111111", 96, 3),
    "itip-110": ("itip", "01000000", 110, 3),
    "itip-212": ("itip", "01000001", 212, 3),
    "gid-96": ("gid", "00110101", 96, 0),
    "usdod-96": ("usdod", "00101111", 96, 4),
    "adi-var": ("adi", "00111011", None, 6),
}

KEYED = ["sgtin", "sscc", "sgln", "grai", "giai", "gsrn", "gsrnp", "gdti", "sgcn", "ginc", "gsin", "pgln", "lgtin"]
ELEMENT = KEYED + ["cpi", "itip", "upui"]
TAGGED = ["sgtin", "sscc", "sgln", "grai", "giai", "gsrn", "gsrnp", "gdti", "cpi", "sgcn", "itip", "gid", "usdod",
          "adi"]

# company prefix: digits -> (partition value, bits)
PREFIX_BITS = {12: (0, 40), 11: (1, 37), 10: (2, 34), 9: (3, 30), 8: (4, 27), 7: (5, 24), 6: (6, 20)}
# bits of company prefix + reference
PAIR_BITS = {"sgtin": 44, "sscc": 58, "sgln": 41, "grai": 44, "gsrn": 58, "gsrnp": 58, "gdti": 41, "cpi-96": 51,
             "giai-96": 82, "giai-202": 188, "sgcn": 41, "itip": 44}
SERIAL_BITS = {"sgtin-96": 38, "sgtin-198": 140, "sgln-96": 41, "sgln-195": 140, "grai-96": 38, "grai-170": 112,
               "gdti-96": 41, "gdti-174": 119, "cpi-96": 31, "cpi-var": 40, "sgcn-96": 41, "itip-110": 38,
               "itip-212": 140}


def coding_names(scheme):
    return [c for c in CODINGS if CODINGS[c][0] == scheme]


def bits(value, width):
    """Big-endian binary of a decimal string (or integer)."""
    return format(int(value), "0%db" % width)


def seven(raw, width):
    out = ""
    for ch in raw:
        out = out + format(ord(ch), "07b")
    return out + "0" * (width - len(out))


def six(raw):
    """6-bit code of an ADI/CPI string: the low six bits of the ASCII code."""
    out = ""
    for ch in raw:
        out = out + format(ord(ch) % 64, "06b")
    return out


def numeric(text):
    """Decimal digits only, no superfluous leading zero."""
    ok = True
    for ch in text:
        ok = ok & (("0" <= ch) & (ch <= "9"))
    if len(text) > 1:
        ok = ok & (text[0] != "0")
    return ok


def all_digits(text):
    ok = True
    for ch in text:
        ok = ok & (("0" <= ch) & (ch <= "9"))
    return ok


def fits(coding, c):
    """Can the identity with decoded components c be represented?"""
    if coding in ("sgtin-96", "sgln-96", "grai-96", "gdti-96", "itip-110"):
        s = c["serial"]
        if not numeric(s):
            return False
        return int(s) < 2 ** SERIAL_BITS[coding]
    if coding == "giai-96":
        s = c["serial"]
        if not numeric(s):
            return False
        return int(s) < 2 ** (82 - PREFIX_BITS[len(c["cp"])][1])
    if coding == "cpi-96":
        s = c["cpref"]
        if len(s) > 15 - len(c["cp"]):
            return False
        if not numeric(s):
            return False
        return int(c["num"]) < 2 ** 31
    return True


def encode(coding, flt, c):
    """The tag's bits; flt is the filter value as an integer."""
    scheme, header, total, fbits = CODINGS[coding]
    out = header
    if fbits:
        out = out + bits(flt, fbits)
    if scheme == "gid":
        return out + bits(c["n1"], 28) + bits(c["n2"], 24) + bits(c["n3"], 36)
    if scheme == "usdod":
        cage = c["cage"]
        if len(cage) == 5:
            cage = " " + cage
        for ch in cage:
            out = out + format(ord(ch), "08b")
        return out + bits(c["num"], 36)
    if scheme == "adi":
        cage = c["cage"]
        if len(cage) == 5:
            cage = " " + cage
        return out + six(cage) + six(c["part"]) + "000000" + six(c["serial"]) + "000000"
    p, m = PREFIX_BITS[len(c["cp"])]
    out = out + bits(p, 3) + bits(c["cp"], m)
    if coding == "cpi-var":
        return out + six(c["cpref"]) + "000000" + bits(c["num"], 40)
    if coding == "cpi-96":
        return out + bits(c["cpref"], 51 - m) + bits(c["num"], 31)
    if coding == "giai-96":
        return out + bits(c["serial"], 82 - m)
    if coding == "giai-202":
        return out + seven(c["serial"], 188 - m)
    n = PAIR_BITS[scheme] - m
    ref = c["item"] if scheme in ("sgtin", "itip") else c["ref"]
    out = out + (bits(ref, n) if len(ref) else "0" * n)
    if scheme in ("sscc", "gsrn", "gsrnp"):
        return out + "0" * 24
    if scheme == "itip":
        out = out + bits(c["piece"], 7) + bits(c["total"], 7)
    if coding == "sgcn-96":
        return out + bits("1" + c["dser"], 41)
    w = SERIAL_BITS[coding]
    if w in (38, 41):
        return out + bits(c["serial"], w)
    return out + seven(c["serial"], w)


def check_digit(digits):
    """Modulo 10 check digit: weight 3 for the rightmost digit, alternating."""
    total = 0
    w = 3
    for d in reversed(digits):
        total = total + w * int(d)
        w = 4 - w
    return str((-total) % 10)


def gtin(c):
    body = c["item"][0] + c["cp"] + c["item"][1:]
    return body + check_digit(body)


def key(scheme, c):
    if scheme in ("sgtin", "lgtin", "itip", "upui"):
        return gtin(c)
    if scheme == "sscc":
        body = c["ref"][0] + c["cp"] + c["ref"][1:]
        return body + check_digit(body)
    if scheme in ("giai", "ginc"):
        return c["cp"] + c["serial"]
    body = c["cp"] + c["ref"]
    k = body + check_digit(body)
    if scheme in ("grai", "gdti"):
        return k + c["serial"]
    if scheme == "sgcn":
        return k + c["dser"]
    return k


AI = {"sscc": "(00)", "giai": "(8004)", "gsrn": "(8018)", "gsrnp": "(8017)", "gdti": "(253)", "sgcn": "(255)",
      "ginc": "(401)", "gsin": "(402)", "pgln": "(417)"}


def element(scheme, c):
    if scheme == "sgtin":
        return "(01)" + gtin(c) + "(21)" + c["serial"]
    if scheme == "lgtin":
        return "(01)" + gtin(c) + "(10)" + c["serial"]
    if scheme == "upui":
        return "(01)" + gtin(c) + "(235)" + c["serial"]
    if scheme == "itip":
        return "(8006)" + gtin(c) + c["piece"] + c["total"] + "(21)" + c["serial"]
    if scheme == "sgln":
        return "(414)" + key(scheme, c) + "(254)" + c["serial"]
    if scheme == "grai":
        return "(8003)0" + key(scheme, c)
    if scheme == "cpi":
        return "(8010)" + c["cp"] + c["cpref"] + "(8011)" + c["num"]
    return AI[scheme] + key(scheme, c)


# --- decoding -------------------------------------------------------------
PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!'()*+,-.:;=_"
ESCAPED = '"%&/<>?'


def unsigned(b):
    return int(b, 2)


def seven_decode(b):
    """URI form of a 7-bit string, None if the bits are no such string."""
    out = ""
    ended = False
    for k in range(0, len(b) - 6, 7):
        code = b[k:k + 7]
        if code == "0000000":
            ended = True
            continue
        if ended:
            return None
        ch = chr(int(code, 2))
        if ch in PLAIN:
            out = out + ch
        elif ch in ESCAPED:
            out = out + "%" + format(ord(ch), "02X")
        else:
            return None
    return out if out else None


def six_decode(b, mx, hash_at):
    """(URI form, bits after the terminator) of a 6-bit string of at most mx
    characters; None if the bits are no such string.  hash_at: "any" or
    "first" (position where a number sign is allowed)."""
    out = ""
    for k in range(0, len(b) - 5, 6):
        code = b[k:k + 6]
        if code == "000000":
            return out, b[k + 6:]
        if k >= 6 * mx:
            return None
        n = int(code, 2)
        ch = chr(n) if n >= 32 else chr(n + 64)
        if ("A" <= ch) & (ch <= "Z") | ("0" <= ch) & (ch <= "9") | (ch == "-"):
            out = out + ch
        elif ch == "/":
            out = out + "%2F"
        elif ch == "#" and (hash_at == "any" or k == 0 and hash_at == "first"):
            out = out + "%23"
        else:
            return None
    return None


def cage_ok(text):
    ok = True
    for ch in text:
        ok = ok & (("A" <= ch) & (ch <= "Z") & (ch != "I") & (ch != "O") | ("0" <= ch) & (ch <= "9"))
    return ok


PREFIX_OF_P = {p: (digits, m) for digits, (p, m) in PREFIX_BITS.items()}


def decode(coding, b):
    """Identity URI of a tag, None if the bits are not a legal tag.  The
    partition value must be constant."""
    scheme, header, total, fbits = CODINGS[coding]
    if len(b) < 8 or b[:8] != header:
        return None
    if total is not None:
        if len(b) < total:
            return None
        b = b[:total]
    pos = 8 + fbits
    pre = PREFIX[scheme]
    if scheme == "gid":
        return pre + str(unsigned(b[8:36])) + "." + str(unsigned(b[36:60])) + "." + str(unsigned(b[60:96]))
    if scheme == "usdod":
        cage = ""
        for k in range(12, 60, 8):
            cage = cage + chr(int(b[k:k + 8], 2))
        if cage[0] == " ":
            cage = cage[1:]
        if not cage_ok(cage):
            return None
        return pre + cage + "." + str(unsigned(b[60:96]))
    if scheme == "adi":
        if len(b) < 50:
            return None
        cage = ""
        for k in range(14, 50, 6):
            n = int(b[k:k + 6], 2)
            cage = cage + (chr(n) if n >= 32 else chr(n + 64))
        if cage[0] == " ":
            cage = cage[1:]
        if not cage_ok(cage):
            return None
        part = six_decode(b[50:], 32, "none")
        if part is None:
            return None
        ser = six_decode(part[1], 30, "first")
        if ser is None or ser[0] == "" or ser[0] == "%23":
            return None
        return pre + cage + "." + part[0] + "." + ser[0]
    p = int(b[pos:pos + 3], 2)
    if p == 7:
        return None
    L, m = PREFIX_OF_P[p]
    if len(b) < pos + 3 + m:
        return None
    cp = unsigned(b[pos + 3:pos + 3 + m])
    if cp >= 10 ** L:
        return None
    out = pre + format(cp, "0%dd" % L) + "."
    rest = b[pos + 3 + m:]
    if coding == "cpi-var":
        ref = six_decode(rest, 30 - L, "any")
        if ref is None or ref[0] == "" or len(ref[1]) < 40:
            return None
        num = unsigned(ref[1][:40])
        if num >= 10 ** 12:
            return None
        return out + ref[0] + "." + str(num)
    if coding == "cpi-96":
        if unsigned(rest[:51 - m]) >= 10 ** (15 - L):
            return None
        return out + str(unsigned(rest[:51 - m])) + "." + str(unsigned(rest[51 - m:82 - m]))
    if coding == "giai-96":
        return out + str(unsigned(rest))
    if coding == "giai-202":
        s = seven_decode(rest)
        if s is None or L + seven_len(s) > 30:
            return None
        return out + s
    n = PAIR_BITS[scheme] - m
    k = SCHEMES[scheme]["total"] - L
    ref = unsigned(rest[:n])
    if ref >= 10 ** k:
        return None
    if k:
        out = out + format(ref, "0%dd" % k)
    rest = rest[n:]
    if scheme in ("sscc", "gsrn", "gsrnp"):
        return out
    if scheme == "itip":
        for _ in range(2):
            v = unsigned(rest[:7])
            if v > 99:
                return None
            out = out + "." + format(v, "02d")
            rest = rest[7:]
    if coding == "sgcn-96":
        s = str(unsigned(rest))
        if len(s) < 2 or len(s) > 13 or s[0] != "1":
            return None
        return out + "." + s[1:]
    w = SERIAL_BITS[coding]
    if w in (38, 41):
        return out + "." + str(unsigned(rest[:w]))
    s = seven_decode(rest[:w])
    if s is None:
        return None
    return out + "." + s


def seven_len(uri):
    """Characters of a component in URI form."""
    n = 0
    k = 0
    while k < len(uri):
        n += 1
        k += 3 if uri[k] == "%" else 1
    return n
