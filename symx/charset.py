"""Sets of code points as sorted disjoint ranges."""
import sys
import functools

MAX = 0x10FFFF


def norm(ranges):
    out = []
    for lo, hi in sorted(ranges):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def complement(ranges):
    out = []
    p = 0
    for lo, hi in ranges:
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAX:
        out.append((p, MAX))
    return tuple(out)


def has(ranges, c):
    for lo, hi in ranges:
        if lo <= c <= hi:
            return True
        if c < lo:
            return False
    return False


def from_chars(chars):
    return norm([(ord(c), ord(c)) for c in chars])


@functools.lru_cache(None)
def by_predicate(name):
    pred = {
        "digit": str.isdigit, "decimal": str.isdecimal, "numeric": str.isnumeric,
        "space": str.isspace, "alpha": str.isalpha, "alnum": str.isalnum,
        "upper": str.isupper, "lower": str.islower, "printable": str.isprintable,
        "word": lambda c: c.isalnum() or c == "_", "ascii": str.isascii,
        "title": str.istitle, "identifier": str.isidentifier,
    }[name]
    out = []
    start = None
    for i in range(MAX + 1):
        if pred(chr(i)):
            if start is None:
                start = i
        elif start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, MAX))
    return tuple(out)


ASCII_DIGIT = ((48, 57),)


@functools.lru_cache(None)
def ascii_only(ranges):
    return tuple((lo, min(hi, 127)) for lo, hi in ranges if lo < 128)


@functools.lru_cache(None)
def decimal_zero_bases():
    """Code points of the zero digits of all decimal digit blocks."""
    import unicodedata
    bases = []
    for lo, hi in by_predicate("decimal"):
        i = lo
        while i <= hi:
            assert unicodedata.decimal(chr(i)) == 0
            bases.append(i)
            i += 10
    return tuple(bases)


@functools.lru_cache(None)
def case_groups(upper):
    """Code points above 127 by what upper()/lower() makes of them: ({delta: ranges}, {length: {point: text}})."""
    deltas, longer = {}, {}
    for i in range(128, MAX + 1):
        t = chr(i).upper() if upper else chr(i).lower()
        if len(t) == 1:
            if ord(t) != i:
                deltas.setdefault(ord(t) - i, []).append((i, i))
        else:
            longer.setdefault(len(t), {})[i] = t
    return {d: norm(r) for d, r in deltas.items()}, longer
