"""Catalogue of identity shapes: which lengths and escape positions are
covered.  Contents are always symbolic."""
from vharness.common import shape, sizes
from vharness.tds import SCHEMES

ALL_L = [6, 7, 8, 9, 10, 11, 12]


def serial_texts(mx, tier):
    """Cell texts of a GS3A3 component of at most mx characters.
    G: any of the 75 plain characters, E: any of the 7 escaped ones,
    =c: the constant c."""
    full = "G" * mx
    out = ["G", "E", "GG", full, "G" * (mx - 1), "E" + "G" * (mx - 1), "G" * (mx - 1) + "E",
           "G" * (mx // 2) + "E" + "G" * (mx - mx // 2 - 1), "=%GG", "GE", "EG", "=/" * mx]
    if tier == "thorough":
        out += ["G" * n for n in range(3, mx - 1)]
        for n in (mx, 5):
            if n <= mx:
                out += ["G" * k + "E" + "G" * (n - k - 1) for k in range(n)]
        out += ["EE", "EGE", "=%=%GG", "=%" * mx, "=<" + "G" * (mx - 2) + "E", "E" + "G" * (mx - 2) + "=>",
                "=(GG=)G", "=(GGG=)G", "=.G", "G=.", "=:G", "G=:", "=.=.G", "=:=:G"]
    seen = []
    for t in out:
        if t not in seen:
            seen.append(t)
    return seen


def number_lengths(limit_digits, mx, tier):
    """Lengths of a numeric component around the capacity of a field."""
    ns = {1, 2, limit_digits - 1, limit_digits, limit_digits + 1}
    if tier == "thorough":
        ns |= set(range(1, limit_digits + 3))
    return sorted(n for n in ns if 1 <= n <= mx)


def shapes(scheme, tier, serial=True, numeric=None):
    """Shapes of valid identities of a scheme.

    serial: include the general serial forms; numeric: also all-digit serials
    around this many digits."""
    out = []
    parts = SCHEMES[scheme]["parts"].split()
    th = tier == "thorough"
    if scheme == "gid":
        combos = [(1, 1, 1), (9, 8, 11), (8, 7, 10), (9, 1, 1), (1, 8, 1), (1, 1, 11)]
        if th:
            combos += [(a, b, c) for a in (1, 5, 9) for b in (1, 4, 8) for c in range(1, 12)]
        for a, b, c in dict.fromkeys(combos):
            out.append(shape(scheme, n1=a, n2=b, n3=c))
        return out
    if scheme == "usdod":
        for cage in (5, 6):
            for n in (range(1, 12) if th else (1, 2, 10, 11)):
                out.append(shape(scheme, cage=cage, num=n))
        return out
    if scheme == "adi":
        return adi_shapes(tier)
    if scheme in ("bic", "imovn"):
        return [shape(scheme)]
    if parts == ["cp", "ref"]:
        return [shape(scheme, L) for L in ALL_L]
    if scheme == "sgcn":
        for L in ALL_L:
            for n in (range(1, 13) if th or L == 7 else (1, 12)):
                out.append(shape(scheme, L, dser=n))
        return out
    if scheme == "cpi":
        for L in ALL_L:
            mx = 30 - L
            nums = (1, 12) if not th else (1, 2, 9, 10, 11, 12)
            texts = ["C", "U" * mx]
            if L in (6, 12) or th:
                texts += ["F", "CC", "C" + "U" * (mx - 1), "U" * (mx - 1) + "C", "U" * (mx - 1) + "F",
                          "F" + "U" * (mx - 1), "CFC", "=/" * mx, "D" * (15 - L), "D" * (16 - L), "U" * (15 - L)]
            if th:
                texts += ["U" * n for n in range(2, mx)] + ["U" * k + "F" + "U" * (mx - k - 1) for k in range(mx)]
                texts += ["FF", "CCCCC", "=#" * mx, "=-" * mx, "D", "DD"]
            for t in dict.fromkeys(texts):
                for n in nums if len(t) in (1, mx, 15 - L) else (4,):
                    out.append(shape(scheme, L, cpref=t, num=n))
            if L in (7, 12):
                for n in (9, 10, 11):
                    out.append(shape(scheme, L, cpref="C", num=n))
                    out.append(shape(scheme, L, cpref="DD", num=n))
        return uniq(out)
    # schemes with a GS3A3 component
    for L in ALL_L:
        mx = sizes(scheme, L)["serial"][1]
        if serial:
            texts = ["G", "G" * mx]
            if L in (7, 12) or th:
                texts = serial_texts(mx, tier if L == 7 else "quick")
            if L == 7 and scheme in ("giai", "ginc"):
                texts = serial_texts(mx, tier) + ["G" * n for n in (12, 13, 17, 18, 19)]
            for t in texts:
                out.append(shape(scheme, L, serial=t))
        if numeric:
            lim = numeric(L)
            ns = number_lengths(lim, mx, tier if L in (6, 7, 12) else "quick")
            if L not in (6, 7, 12) and not th:
                ns = [n for n in (lim,) if n <= mx]
            for n in ns:
                out.append(shape(scheme, L, serial="D" * n))
    return uniq(out)


def uniq(shs):
    seen, out = set(), []
    for s in shs:
        if s["text"] not in seen:
            seen.add(s["text"])
            out.append(s)
    return out


def adi_shapes(tier):
    th = tier == "thorough"
    out = []
    for cage in (5, 6):
        for part, ser in (("", "A"), ("A", "A"), ("AA", "AA"), ("U" * 32, "U" * 30), ("AAA", "HA"),
                          ("S", "S"), ("AS", "HSA"), ("=-A", "A=-"), ("U" * 31 + "S", "H" + "U" * 29),
                          ("S" + "U" * 31, "U" * 29 + "S")):
            out.append(shape("adi", cage=cage, part=part, serial=ser))
    if th:
        for n in range(0, 33):
            out.append(shape("adi", cage=5, part="U" * n, serial="AAAA"))
        for n in range(1, 31):
            out.append(shape("adi", cage=6, part="AAA", serial="U" * n))
            out.append(shape("adi", cage=6, part="AA", serial="H" + "U" * (n - 1)) if n > 1 else
                       shape("adi", cage=6, part="AA", serial="A"))
        for k in range(5):
            out.append(shape("adi", cage=6, part="U" * k + "S" + "A" + "U" * (4 - k), serial="A"))
            out.append(shape("adi", cage=6, part="A", serial="U" * k + "S" + "A" + "U" * (4 - k)))
    return uniq(out)


NUMERIC_DIGITS = {
    "sgtin": lambda L: 12, "itip": lambda L: 12, "grai": lambda L: 12, "sgln": lambda L: 13, "gdti": lambda L: 13,
    # giai-96: digits of 2^(82 - prefix bits)
    "giai": lambda L: {6: 19, 7: 18, 8: 17, 9: 16, 10: 15, 11: 14, 12: 13}[L],
}


def tag_shapes(coding, scheme, tier):
    """Shapes for a coding scheme: numeric serials for the short forms too."""
    short = coding in ("sgtin-96", "itip-110", "grai-96", "sgln-96", "gdti-96", "giai-96")
    if short:
        return shapes(scheme, tier, serial=True, numeric=NUMERIC_DIGITS[scheme])
    return shapes(scheme, tier)
