"""Input specifications.

A specification is a JSON-able list; `build` makes the symbolic value (adding
its range constraint to the path), `concrete` reads the value off a model.

  ["digits", n]            n decimal digits
  ["nozero", n]            n decimal digits without leading zero (n == 1: any)
  ["set", name, n]         n characters of a named set
  ["cells", text, names]   a {"uri", "raw"} pair, see CELLS
  ["bits", n]              n characters '0'/'1'
  ["bitcells", w, text]    w bits per cell: P plain, E escaped, U upper/digit, ? any,
                           0 zero, = constant
  ["numbits", n, lo, hi]   n bits, read as a number between lo and hi
  ["hex", n, case]         n hexadecimal digits (case "u", "l" or "m")
  ["num", lo, hi]          an integer
  ["any", n]               n arbitrary Unicode characters (no surrogates)
  ["ascii", n]             n arbitrary ASCII characters
  ["lit", s]               a constant
"""
import z3
from . import core, terms
from . import charset as cs

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
PLAIN = LETTERS + DIGITS + "!'()*+,-.:;=_"
ESCAPED = "\"%&/<>?"

SETS = {
    "plain": PLAIN,
    "gs3a3": PLAIN + ESCAPED,
    "nodigit": "".join(c for c in PLAIN if c not in DIGITS),
    "cpref": DIGITS + LETTERS[26:] + "-",
    "upper": LETTERS[26:] + DIGITS,
    "alpha": LETTERS[26:],
    "cage": "0123456789ABCDEFGHJKLMNPQRSTUVWXYZ",
    "bicowner": "ABCDEFGHJKLMNPQRSTUVWXYZ",
    "biccat": "JUZ",
    "digit": DIGITS,
    "nonzero": "123456789",
    "octal": "01234567",
}
# cell letter -> (raw characters, escaped in URIs)
CELLS = {
    "G": (PLAIN, False),
    "E": (ESCAPED, True),
    "D": (DIGITS, False),
    "N": (SETS["nodigit"], False),
    "C": (SETS["cpref"], False),
    "U": (SETS["upper"], False),
    "F": ("#/", True),
    "S": ("/", True),
    "H": ("#", True),
    "A": (SETS["cpref"], False),
}


def char_in(name, chars):
    dom = frozenset(map(ord, chars))
    if len(dom) == 1:
        return chr(next(iter(dom)))
    hi = max(dom)
    v = z3.BitVec(name, hi.bit_length())
    core.CTX.solver.add(z3.Or(*[r for r in ranges(v, dom)]))
    return terms.Ch(v, min(dom), hi, dom)


def ranges(v, dom):
    w = v.size()
    for lo, hi in cs.norm([(k, k) for k in dom]):
        if lo == hi:
            yield v == lo
        elif lo == 0:
            yield z3.ULE(v, z3.BitVecVal(hi, w))
        else:
            yield z3.And(z3.UGE(v, z3.BitVecVal(lo, w)), z3.ULE(v, z3.BitVecVal(hi, w)))


def digit(name, lo=0, hi=9):
    v = z3.BitVec(name, 4)
    core.CTX.solver.add(z3.ULE(v, hi))
    if lo:
        core.CTX.solver.add(z3.UGE(v, lo))
    return terms.digit_ch(terms.SymInt(v, lo, hi))


def any_char(name, hi=0x10FFFF):
    v = z3.BitVec(name, hi.bit_length())
    if hi == 0x10FFFF:
        core.CTX.solver.add(z3.Or(z3.ULT(v, 0xD800), z3.And(z3.UGT(v, 0xDFFF), z3.ULE(v, hi))))
    return terms.Ch(v, 0, hi, None)


def escape_of(ch):
    """The three characters of the URI escape of ch."""
    if isinstance(ch, str):
        return list("%%%02X" % ord(ch))
    n = terms.ch_int(ch)
    bits = terms.int_bits(n, 8)
    return ["%", terms.hexch(bits[:4], True), terms.hexch(bits[4:], True)]


def build(name, spec):
    kind = spec[0]
    if kind == "lit":
        return spec[1]
    if kind == "digits":
        return terms.mkstr([digit("%s_%d" % (name, i)) for i in range(spec[1])])
    if kind == "nozero":
        n = spec[1]
        return terms.mkstr([digit("%s_%d" % (name, i), 1 if i == 0 and n > 1 else 0) for i in range(n)])
    if kind == "set":
        if spec[1] in ("digit", "octal"):
            hi = 9 if spec[1] == "digit" else 7
            return terms.mkstr([digit("%s_%d" % (name, i), 0, hi) for i in range(spec[2])])
        return terms.mkstr([char_in("%s_%d" % (name, i), SETS[spec[1]]) for i in range(spec[2])])
    if kind == "set2":                            # a constant, then one character of a set
        if all(c in DIGITS for c in spec[2]):
            ch = digit(name, int(min(spec[2])), int(max(spec[2])))
        else:
            ch = char_in(name, spec[2])
        return terms.mkstr(list(spec[1]) + [ch])
    if kind == "cells":
        uri, raw = [], []
        i = 0
        text = spec[1]
        while i < len(text):
            c = text[i]
            if c == "=":                          # "=x" is the constant x
                i += 1
                ch, esc = text[i], text[i] in ESCAPED + "#"
            elif c == "D":
                ch, esc = digit("%s_%d" % (name, i)), False
            else:
                chars, esc = CELLS[c]
                ch = char_in("%s_%d" % (name, i), chars)
            raw.append(ch)
            uri.extend(escape_of(ch) if esc else [ch])
            i += 1
        return {"uri": terms.mkstr(uri), "raw": terms.mkstr(raw)}
    if kind == "bits":
        n = spec[1]
        if not n:
            return ""
        v = z3.BitVec(name, n)
        iv = terms.SymInt(v, 0, (1 << n) - 1)
        return terms.mkstr(terms.int_bits(iv, n))
    if kind == "numbits":
        n, lo, hi = spec[1:4]
        hi = min(hi, (1 << n) - 1)
        v = build(name, ["num", lo, hi])
        return terms.mkstr(terms.int_bits(v, n))
    if kind == "bitcells":
        w, text = spec[1:3]
        out = []
        i = 0
        while i < len(text):
            c = text[i]
            if c == "0":
                out.extend("0" * w)
            elif c == "?":
                out.extend(terms.chars_of(build("%s_%d" % (name, i), ["bits", w])))
            elif c == "=":
                i += 1
                out.extend(format(ord(text[i]) % (1 << w), "0%db" % w))
            else:
                chars = {"P": PLAIN, "E": ESCAPED, "U": SETS["upper"], "L": SETS["alpha"], "D": DIGITS}[c]
                ch = char_in("%s_%d" % (name, i), chars)
                out.extend(terms.int_bits(terms.ch_int(ch), 7)[7 - w:])
            i += 1
        return terms.mkstr(out)
    if kind == "cage8":                           # 8-bit codes of CAGE characters
        return terms.mkstr([b for i in range(spec[1]) for b in
                            ["0"] + terms.int_bits(terms.ch_int(char_in("%s_%d" % (name, i), SETS["cage"])), 7)])
    if kind == "hex":
        dom = {"u": DIGITS + "ABCDEF", "l": DIGITS + "abcdef", "m": DIGITS + "abcdefABCDEF"}[spec[2]]
        if spec[2] == "m":
            return terms.mkstr([char_in("%s_%d" % (name, i), dom) for i in range(spec[1])])
        bits = terms.chars_of(build(name, ["bits", 4 * spec[1]]))
        return terms.mkstr([terms.hexch(bits[4 * i:4 * i + 4], spec[2] == "u") for i in range(spec[1])])
    if kind == "num":
        lo, hi = spec[1:3]
        w = max(1, hi.bit_length())
        v = z3.BitVec(name, w)
        core.CTX.solver.add(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
        return terms.SymInt(v, lo, hi)
    if kind == "any":
        return terms.mkstr([any_char("%s_%d" % (name, i)) for i in range(spec[1])])
    if kind == "ascii":
        return terms.mkstr([any_char("%s_%d" % (name, i), 127) for i in range(spec[1])])
    raise ValueError(spec)
