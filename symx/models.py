"""Models of builtins and library functions on symbolic values, and the
run-time support (`__sx`) the rewritten sources call into."""
import base64
import binascii
import builtins
import enum
import functools
import itertools
import operator
import re
import types
import z3

from . import core
from . import charset as cs
from . import sregex
from .core import z_and, z_or, z_not
from .terms import *
from .terms import (_width, _toint, _ext)

BUILTIN_METHODS = {type("".join), type(re.compile("").match)}
METHOD_DESC = type(str.upper)
CLASSMETHOD_DESC = type(dict.__dict__["fromkeys"])


class Unbound:
    def _fail(self, *a, **k):
        raise UnboundLocalError("cannot access local variable")

    __getattr__ = __add__ = __radd__ = __eq__ = __len__ = __iter__ = __bool__ = __str__ = \
        __getitem__ = __lt__ = __gt__ = __call__ = _fail
    __hash__ = None


UNBOUND = object.__new__(Unbound)

# ------------------------------------------------------------ ints


def int_digits(n, base, minlen, upper=False):
    """Digit characters of n >= 0 (forks on sign / length when not implied)."""
    c = core.CTX
    if isinstance(n, int):
        if n < 0:
            return ["-"] + int_digits(-n, base, minlen - 1, upper)
        if base == 10:
            s = str(n)
        elif base == 2:
            s = format(n, "b")
        elif base == 8:
            s = format(n, "o")
        else:
            s = format(n, "X" if upper else "x")
        return list(s.zfill(minlen))
    if n.lo < 0:
        if c.decide(boolterm(n < 0)):
            return ["-"] + int_digits(-n, base, minlen - 1, upper)
        n = restrict_lo(n, 0)
        if isinstance(n, int):
            return int_digits(n, base, minlen, upper)
    k = max(1, minlen)
    while n.hi >= base ** k:
        # longer results exist; shorter first
        if n.lo < base ** k and c.decide(boolterm(n < base ** k)):
            n = restrict_hi(n, base ** k - 1)
            break
        k += 1
    if base == 10:
        return dec_digits(n, k)
    if base == 2:
        return int_bits(n, k)
    if base == 16:
        b = int_bits(n, 4 * k)
        return [hexch(b[i:i + 4], upper) for i in range(0, 4 * k, 4)]
    if base == 8:
        b = int_bits(n, 3 * k)
        return [digit_ch(int_of_bits(b[i:i + 3])) for i in range(0, 3 * k, 3)]
    raise core.PathBudget("base")


INT_RE = {}


def _int_re(base):
    r = INT_RE.get(base)
    if r is None:
        if base <= 10:
            dig = "[\\d]" if base == 10 else "[%s]" % decset(base)
        else:
            L = chr(97 + base - 11)
            dig = "[\\da-%sA-%s]" % (L, L.upper())
        pre = {2: "(?:0[bB]_?)?", 8: "(?:0[oO]_?)?", 16: "(?:0[xX]_?)?"}.get(base, "")
        r = re.compile(r"[\s]*[+-]?%s%s(?:_?%s)*[\s]*" % (pre, dig, dig))
        INT_RE[base] = r
    return r


@functools.lru_cache(None)
def decset(base):
    return "".join("%s-%s" % (chr(z), chr(z + base - 1)) for z in cs.decimal_zero_bases())


def digit_of(ch, base):
    """Value of a digit character valid in base (path knows it is one)."""
    if isinstance(ch, str):
        return int(ch, 36) if ch.isascii() else int(ch)
    if base <= 10 and ch.lo >= 48 and ch.hi <= 57:
        return digit_value(ch)
    if core.CTX.decide(inset(ch, ((0, 127),))):
        if base <= 10 or core.CTX.decide(inset(ch, cs.ASCII_DIGIT)):
            return mkint(_ext(ch.t - 48, False, 4), 0, min(base, 10) - 1)
        lo = core.CTX.decide(inset(ch, ((97, 122),)))
        w = max(ch.t.size(), 7)
        return mkint(_ext(_ext(ch.t, False, w) - (87 if lo else 55), False, 6), 10, base - 1)
    t = None
    w = ch.t.size()
    for z in cs.decimal_zero_bases():
        v = ch.t - z
        t = v if t is None else z3.If(boolz(inset(ch, ((z, z + 9),))), v, t)
    return mkint(_ext(t, False, 4), 0, min(base, 10) - 1)


def boolz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def m_int(x=0, base=None):
    if isinstance(x, SymMember):
        raise TypeError("int() argument must be a string")
    if isinstance(x, SymInt):
        if base is not None:
            raise TypeError("int() can't convert non-string with explicit base")
        return x
    if isinstance(x, SymBool):
        return as_int(x)
    if isinstance(base, SymInt):
        base = base.__index__()
    if not isinstance(x, SymStr):
        if isinstance(x, SymBytes):
            x = x.decode()
        elif base is None:
            return int(x)
        else:
            return int(x, base)
        if isinstance(x, str):
            return int(x) if base is None else int(x, base)
    b = 10 if base is None else base
    if isinstance(x, SymDec) and x._chars is None and b == x.base and len(x.prefix) != 1:
        return x.n
    if b == 0 or not 2 <= b <= 36:
        return int(concretize(x), b)
    chars = x.chars
    rs = ascii_digits(b)
    allok = z_and([inset(c, rs) for c in chars])
    if chars and core.CTX.decide(allok):
        return _value(chars, b)
    valid = sregex.accept(_int_re(b), chars, "fullmatch")
    if not core.CTX.decide(valid):
        raise ValueError("invalid literal for int() with base %d" % b)
    # uncommon but valid spelling: white space, sign, prefix, underscores, other digits
    ws = cs.by_predicate("space")
    i, j = 0, len(chars)
    while i < j and core.CTX.decide(inset(chars[i], ws)):
        i += 1
    while j > i and core.CTX.decide(inset(chars[j - 1], ws)):
        j -= 1
    neg = False
    if core.CTX.decide(cheq(chars[i], "-")):
        neg = True
        i += 1
    elif core.CTX.decide(cheq(chars[i], "+")):
        i += 1
    pre = {2: "bB", 8: "oO", 16: "xX"}.get(b)
    if pre and j - i > 2 and core.CTX.decide(z_and([
            cheq(chars[i], "0"), inset(chars[i + 1], cs.from_chars(pre))])):
        i += 2
    ds = []
    for c in chars[i:j]:
        if core.CTX.decide(cheq(c, "_")):
            continue
        ds.append(digit_ch_any(digit_of(c, b)))
    v = _value(ds, b)
    return -v if neg else v


def digit_ch_any(v):
    """ASCII digit character (0-9a-z) of a digit value."""
    if isinstance(v, int):
        return "0123456789abcdefghijklmnopqrstuvwxyz"[v]
    if v.hi <= 9:
        return digit_ch(v)
    if v.lo >= 10:
        return mkch(_ext(v.t, False, 7) + 87, 87 + v.lo, 87 + v.hi)
    t = _ext(v.t, False, 7)
    return mkch(z3.If(z3.ULT(t, 10), t + 48, t + 87), 48, 87 + v.hi)


@functools.lru_cache(None)
def ascii_digits(base):
    if base <= 10:
        return ((48, 47 + base),)
    return ((48, 57), (65, 54 + base), (97, 86 + base))


def _value(chars, b):
    if b == 10:
        return int_of_digits(chars)
    if b == 2:
        return int_of_bits(chars)
    if b == 16:
        bits = []
        for c in chars:
            bits += hexbits(c)
        return int_of_bits(bits)
    v = 0
    for c in chars:
        v = v * b + digit_of(c, b)
    return v


def m_ord(c):
    if isinstance(c, SymStr):
        if len(c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c))
        return ch_int(c.chars[0])
    return ord(c)


def m_chr(n):
    if isinstance(n, SymInt):
        if n.src is not None and n.src[0] == "ord":
            return mkstr([n.src[1]])
        if n.lo < 0 or n.hi > 0x10FFFF:
            if not core.CTX.decide(z_and([boolterm(n >= 0), boolterm(n <= 0x10FFFF)])):
                if core.CTX.decide(z_and([boolterm(n >= -2 ** 31), boolterm(n < 2 ** 31)])):
                    raise ValueError("chr() arg not in range(0x110000)")
                raise OverflowError("Python int too large to convert to C int")
        lo, hi = max(n.lo, 0), min(n.hi, 0x10FFFF)
        dom = frozenset(range(lo, hi + 1)) if hi - lo < 256 else None
        return mkstr([mkch(n.t, lo, hi, dom)])
    return chr(n)


def m_str(x="", *a):
    if a:
        if isinstance(x, SymBytes):
            return x.decode(*a)
        return str(x, *a)
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return SymDec(x)
    if isinstance(x, SymBool):
        return "True" if bool(x) else "False"
    if isinstance(x, SymMember):
        return str(x.resolve())
    if isinstance(x, (str, int, float, type(None))):
        return str(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1 and isinstance(x.args[0], SymStr) and type(x).__str__ is BaseException.__str__:
            return x.args[0]
        return str(x)
    f = getattr(type(x), "__str__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    f2 = getattr(type(x), "__repr__", None)
    if f is object.__str__ and isinstance(f2, types.FunctionType):
        return f2(x)
    return str(concretize(x))


def m_repr(x):
    if isinstance(x, SymStr):
        return mkstr(["'"] + x.chars + ["'"])
    if isinstance(x, SymInt):
        return SymDec(x)
    if isinstance(x, SymMember):
        return repr(x.resolve())
    f2 = getattr(type(x), "__repr__", None)
    if isinstance(f2, types.FunctionType):
        return f2(x)
    return repr(x)


# ------------------------------------------------------------ formatting

SPEC = re.compile(r"(?s)(?:(.)?([<>=^]))?([-+ ])?(z)?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?")


def m_format(x, spec=""):
    if isinstance(spec, SymStr):
        spec = concretize(spec)
    if isinstance(x, SymMember):
        x = x.resolve()
    if not is_sym(x):
        f = getattr(type(x), "__format__", None)
        if isinstance(f, types.FunctionType):
            return f(x, spec)
        if spec == "":
            return m_str(x)
        return format(x, spec)
    if isinstance(x, SymBool):
        if spec == "":
            return m_str(x)
        x = as_int(x)
    if spec == "":
        return m_str(x)
    if not isinstance(x, (SymStr, SymInt)):
        return format(concretize(x), spec)
    m = SPEC.fullmatch(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    fill, align, sign, _z, alt, zero, width, grp, prec, typ = m.groups()
    width = int(width) if width else 0
    if zero and not align:
        align = "=" if isinstance(x, SymInt) else "<"
        fill = "0"
    elif zero and fill is None:
        fill = "0"
    if fill is None:
        fill = " "
    if isinstance(x, SymStr):
        if typ not in (None, "s"):
            raise ValueError("Unknown format code '%s' for object of type 'str'" % typ)
        if align == "=" or sign or alt or grp:
            raise ValueError("not allowed in string format specifier")
        if isinstance(x, SymDec) and prec is None and (align in (None, "<") or fill != "0"):
            if width == 0:
                return x
        if isinstance(x, SymDec) and prec is None and align == ">" and fill == "0":
            return x.rjust(width, "0")
        ch = list(x.chars)
        if prec is not None:
            ch = ch[:int(prec)]
        return pad(ch, width, fill, align or "<")
    # integer
    if typ in (None, "d", "n") and not grp:
        base, upper, pre = 10, False, ""
    elif typ == "b":
        base, upper, pre = 2, False, "0b"
    elif typ == "o":
        base, upper, pre = 8, False, "0o"
    elif typ in ("x", "X"):
        base, upper, pre = 16, typ == "X", "0" + typ
    elif typ == "c" and not sign and not alt:
        return pad(chars_of(m_chr(x)), width, fill, align or "<")
    else:
        return format(concretize(x), spec)
    if grp or prec is not None:
        return format(concretize(x), spec)
    head = []
    if x.lo < 0 and core.CTX.decide(boolterm(x < 0)):
        head = ["-"]
        x = -x
    else:
        if x.lo < 0:
            x = restrict_lo(x, 0)
        if sign == "+":
            head = ["+"]
        elif sign == " ":
            head = [" "]
    if alt and base != 10:
        head = head + list(pre)
    if fill == "0" and align in ("=", ">") and (not head or align == "="):
        return mkstr(head + int_digits(x, base, width - len(head), upper))
    if width == 0 and not isinstance(x, int) and (not head or head == list(pre)):
        return SymDec(x, base, upper, "".join(head))
    ds = int_digits(x, base, 0, upper)
    if align == "=":
        return mkstr(head + [fill] * max(0, width - len(head) - len(ds)) + ds)
    return pad(head + ds, width, fill, align or ">")


def pad(ch, width, fill, align):
    n = max(0, width - len(ch))
    if align == "<":
        return mkstr(ch + [fill] * n)
    if align == ">":
        return mkstr([fill] * n + ch)
    left = n // 2
    return mkstr([fill] * left + ch + [fill] * (n - left))


def convert(v, conv):
    if conv == "s":
        return m_str(v)
    if conv == "r":
        return m_repr(v)
    if conv == "a":
        return m_repr(v)
    return v


def fstr(*parts):
    """parts: literal strings or (value, conversion, spec) tuples."""
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            v = p[0]
            if p[1]:
                v = convert(v, p[1])
            v = m_format(v, p[2])
            p = v
        out.append(p)
    if len(out) == 1:
        return out[0]
    if any(isinstance(p, SymStr) for p in out):
        live = [p for p in out if len_nonzero(p)]
        if len(live) == 1:
            return live[0]
        return mkstr(glued(live))
    return "".join(out)


def glued(parts):
    """Characters of the concatenation."""
    ch = []
    i = 0
    while i < len(parts):
        p = parts[i]
        g = p.glue(parts[i + 1]) if isinstance(p, SymZeros) and i + 1 < len(parts) else None
        if g is not None:
            ch += g
            i += 2
        else:
            ch += chars_of(p)
            i += 1
    return ch


def len_nonzero(p):
    return isinstance(p, SymDec) or not (isinstance(p, str) and p == "")


def str_join(sep, it):
    if isinstance(it, LazySplit):
        if isinstance(sep, str):
            r = it.rejoin(sep)
            if r is not None:
                return r
        it = it.force()
    if isinstance(it, SymStr):
        it = list(it)
    items = list(it)
    if isinstance(sep, str) and not any(isinstance(x, SymStr) for x in items):
        return sep.join(items)
    for i, x in enumerate(items):
        if not isinstance(x, (str, SymStr)):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, m_type(x).__name__))
    if len(items) == 1:
        return items[0]
    out = []
    for i, x in enumerate(items):
        if i and len_nonzero(sep):
            out.append(sep)
        if len_nonzero(x):
            out.append(x)
    if len(out) == 1:
        return out[0]
    return mkstr(glued(out))


def str_format(fmt, args, kw):
    import string
    fmt = concretize(fmt)
    auto = 0
    parts = []
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        m = re.match(r"[^.\[]*", field)
        name, rest = m.group(0), field[m.end():]
        if name == "":
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            v = kw[name]
        for a in re.findall(r"\.\w+|\[[^\]]*\]", rest):
            if a[0] == ".":
                v = getattr(v, a[1:])
            else:
                k = a[1:-1]
                v = getitem(v, int(k) if k.isdigit() else k)
        if spec and "{" in spec:
            def rep(mm):
                nonlocal auto
                nm = mm.group(1)
                if nm == "":
                    x = args[auto]
                    auto += 1
                elif nm.isdigit():
                    x = args[int(nm)]
                else:
                    x = kw[nm]
                return str(concretize(x))
            spec = re.sub(r"\{(\w*)\}", rep, spec)
        parts.append((v, conv, spec))
    return fstr(*parts) if parts else ""


PCT = re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?([diouxXcrsa%])")


def percent_format(fmt, args):
    if isinstance(fmt, SymStr) or not deep_sym(args):
        return concretize(fmt) % concretize(args)
    parts = []
    pos = 0
    ai = 0
    seq = args if isinstance(args, tuple) else (args,)
    for m in PCT.finditer(fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, typ = m.groups()
        if typ == "%":
            parts.append("%")
            continue
        if width == "*":
            width = str(idx(seq[ai]))
            ai += 1
        if key is not None:
            v = getitem(args, key)
        else:
            if ai >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[ai]
            ai += 1
        if typ in "rsa":
            v = convert(v, typ)
            spec = ("<" if "-" in flags else ">") + (width or "") + ("." + prec if prec else "")
            parts.append((v, None, spec if width or prec else ""))
        else:
            if typ in "diu":
                typ = "d"
            if typ != "c" and not isinstance(v, (int, SymInt, SymBool)):
                raise TypeError("%%%s format: a real number is required" % typ)
            spec = ""
            if "-" in flags:
                spec = "<"
            if "+" in flags:
                spec += "+"
            if "#" in flags:
                spec += "#"
            if "0" in flags and "-" not in flags:
                spec += "0"
            parts.append((v, None, spec + (width or "") + typ))
    parts.append(fmt[pos:])
    return fstr(*parts)


# ------------------------------------------------------------ containers

SYMKEYS = False


def truth_eq(a, b):
    """a == b as True/False/z3 term."""
    if a is b:
        return True
    if type(a) in (tuple, list) and type(b) is type(a):
        return seq_eq(a, b)
    r = a == b
    if r is True or r is False:
        return r
    if isinstance(r, SymBool):
        return r.t
    return bool(r)


def seq_eq(a, b):
    return z_and([truth_eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False


PERSISTENT = {}                # id of module-level dict -> ids of the keys it was created with


def key_terms(d, key):
    """[(condition, k)] for the keys of d that may equal key.

    Tables filled while a path runs are caches.  Unless call history is the
    subject of the case, an entry made earlier on the path for another value
    is taken not to be the one looked up (counted in `ruled_out`)."""
    if isinstance(key, SymMember):
        key = key.resolve()
    cands = []
    for k in d:
        t = truth_eq(k, key)
        if t is True:
            return [(True, k)]
        if t is not False:
            cands.append((t, k))
    fixed = PERSISTENT.get(id(d))
    if fixed is None or MemoModel.enabled:
        return cands
    out = []
    for t, k in cands:
        if id(k) in fixed:
            out.append((t, k))
        elif core.CTX.rule_out(t):
            return [(True, k)]
    return out


def contains(cont, item):
    if isinstance(cont, (str, SymStr)):
        if not isinstance(item, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand")
        if isinstance(cont, str) and isinstance(item, str):
            return item in cont
        return str_contains(cont, item)
    if isinstance(cont, LazySplit):
        cont = cont.force()
    if isinstance(cont, SymSet):
        return mkbool(cont.has(item))
    if isinstance(cont, enum.EnumMeta):
        if isinstance(item, SymMember):
            return item.enum is cont
        if is_sym(item):
            return mkbool(z_or([truth_eq(m.value, item) for m in cont]))
        return item in cont
    if isinstance(cont, (list, tuple, dict, set, frozenset, type({}.keys()), type({}.values()),
                         types.MappingProxyType)):
        if deep_sym(item) or (SYMKEYS and isinstance(cont, (dict, set))) or \
                (isinstance(cont, (list, tuple, type({}.values()))) and deep_sym(cont, 1)):
            if isinstance(cont, dict):
                return mkbool(z_or([t for t, _k in key_terms(cont, item)]))
            return mkbool(z_or([truth_eq(k, item) for k in cont]))
        return item in cont
    if isinstance(cont, range) and isinstance(item, SymInt):
        if cont.step == 1:
            return and_(lambda: item >= cont.start, lambda: item < cont.stop)
        return mkbool(z_or([truth_eq(k, item) for k in cont]))
    f = getattr(type(cont), "__contains__", None)
    if isinstance(f, types.FunctionType):
        return f(cont, item)
    if f is None and is_sym(item):
        return mkbool(z_or([truth_eq(k, item) for k in cont]))
    if deep_sym(item):
        return concretize(item) in cont
    return item in cont


_MISSING = object()


def dict_lookup(d, key, default=_MISSING):
    if not deep_sym(key) and not SYMKEYS:
        if default is _MISSING:
            return d[key]
        return dict.get(d, key, default) if isinstance(d, dict) else d.get(key, default)
    cands = key_terms(d, key)
    c = core.CTX
    found = z_or([t for t, _k in cands])
    if not c.decide(found):
        if default is not _MISSING:
            return default
        f = getattr(type(d), "__missing__", None)
        if f is not None:
            if type(d).__name__ == "defaultdict":
                if d.default_factory is None:
                    raise KeyError(key)
                effect()
                v = d.default_factory()
                setitem(d, key, v)
                return v
            return f(d, key)
        raise KeyError(key)
    if len(cands) == 1:
        return d[cands[0][1]]
    vals = [d[k] for _t, k in cands]
    try:
        r = vals[-1]
        for (t, _k), v in list(zip(cands, vals))[-2::-1]:
            r = ite(t, v, r)
        return r
    except core.SpecAbort:
        pass
    for t, k in cands:
        if c.decide(t):
            return d[k]
    raise core.PathInfeasible()


def getitem(obj, key):
    if type(key) is slice:
        if is_sym(key.start) or is_sym(key.stop) or is_sym(key.step):
            key = slice(idx(key.start), idx(key.stop), idx(key.step))
        return obj[key]
    if isinstance(obj, (dict, types.MappingProxyType)):
        if not SYMKEYS and not deep_sym(key):
            return obj[key]
        f = type(obj).__getitem__
        if isinstance(f, types.FunctionType):
            return f(obj, key)
        return dict_lookup(obj, key)
    if isinstance(key, SYM):
        if isinstance(key, SymBool):
            key = as_int(key)
        if isinstance(obj, enum.EnumMeta):
            for n, m in obj.__members__.items():
                if core.CTX.decide(truth_eq(n, key)):
                    return m
            raise KeyError(key)
        if isinstance(key, SymInt) and isinstance(obj, (str, list, tuple, SymStr)):
            n = len(obj)
            if n <= 256 and core.CTX.decide(z_and([boolterm(key >= 0), boolterm(key < n)])):
                try:
                    items = [(boolterm(key == i), obj[i]) for i in range(max(key.lo, 0), min(key.hi, n - 1) + 1)]
                    r = items[-1][1]
                    for t, v in items[-2::-1]:
                        r = ite(boolz(t), v, r)
                    return r
                except core.SpecAbort:
                    pass
            return obj[key.__index__()]
        f = getattr(type(obj), "__getitem__", None)
        if isinstance(f, types.FunctionType) or isinstance(obj, SYM):
            return obj[key]
        return obj[concretize(key)]
    return obj[key]


def setitem(obj, key, val):
    global SYMKEYS
    if isinstance(obj, dict) and (deep_sym(key) or SYMKEYS):
        if isinstance(key, SymMember):
            key = key.resolve()
        for t, k in key_terms(obj, key):
            if core.CTX.decide(t):
                obj[k] = val
                return
        if deep_sym(key):
            SYMKEYS = True
            key = wrap_key(key)
        obj[key] = val
        return
    if isinstance(key, SymInt):
        key = key.__index__()
    obj[key] = val


def wrap_key(k):
    return k


# ------------------------------------------------------------ boolean structure


def truthy(x):
    """Truth value as True/False/SymBool."""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SymSet):
        return mkbool(x.nonempty())
    return bool(x)


def and_(*thunks):
    return _bool(thunks, 0, True)


def or_(*thunks):
    return _bool(thunks, 0, False)


def _bool(thunks, i, conj):
    v = thunks[i]()
    if i == len(thunks) - 1:
        return v
    if not isinstance(v, (SymBool, SymInt)):
        if bool(v) is not conj:
            return v
        return _bool(thunks, i + 1, conj)
    tv = truthy(v)
    if isinstance(tv, bool):
        return _bool(thunks, i + 1, conj) if tv is conj else v
    c = core.CTX
    k = c.peek(tv.t)
    if k is not None:
        return _bool(thunks, i + 1, conj) if k is conj else v
    if isinstance(v, SymBool):
        def merge(rs):
            r = rs[0] if conj else rs[1]
            if not isinstance(r, (bool, SymBool)):
                raise core.SpecAbort()
            t = boolterm(r)
            return mkbool(z_and([tv.t, t]) if conj else z_or([tv.t, t]))
        rest = lambda: _bool(thunks, i + 1, conj)
        ok, r = c.speculate(tv.t, (rest, lambda: None) if conj else (lambda: None, rest), merge)
        if ok:
            return r
    if c.decide(tv.t) is conj:
        return _bool(thunks, i + 1, conj)
    return conj is False if isinstance(v, SymBool) else v


def not_(x):
    x = truthy(x)
    return sx_not(x)


def ifexp(test, a, b):
    t = truthy(test)
    if isinstance(t, bool):
        return a() if t else b()
    c = core.CTX
    k = c.peek(t.t)
    if k is not None:
        return a() if k else b()
    ok, r = c.speculate(t.t, (a, b), lambda rs: ite(t.t, rs[0], rs[1]))
    if ok:
        return r
    return a() if c.decide(t.t) else b()


def if_stmt(test, a, b, state):
    t = truthy(test)
    if isinstance(t, bool):
        return a(*state) if t else b(*state)
    c = core.CTX
    k = c.peek(t.t)
    if k is not None:
        return a(*state) if k else b(*state)

    def merge(rs):
        if isinstance(rs[0], tuple):
            return tuple(ite(t.t, x, y) for x, y in zip(*rs))
        return ite(t.t, rs[0], rs[1])
    ok, r = c.speculate(t.t, (lambda: a(*state), lambda: b(*state)), merge)
    if ok:
        return r
    return a(*state) if c.decide(t.t) else b(*state)


def chain(ops, *thunks):
    """a < b < c"""
    vals = {}

    def val(i):
        if i not in vals:
            vals[i] = thunks[i]()
        return vals[i]
    val(0)
    return and_(*[(lambda i=i, f=OPS[o]: f(val(i), val(i + 1))) for i, o in enumerate(ops)])


def is_(a, b):
    if isinstance(a, SymMember) or isinstance(b, SymMember):
        return a == b if isinstance(a, SymMember) else b == a
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a == b
    return a is b


OPS = {
    "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
    "==": operator.eq, "!=": operator.ne, "in": lambda a, b: contains(b, a),
    "not in": lambda a, b: not_(contains(b, a)), "is": is_, "is not": lambda a, b: not_(is_(a, b)),
}


def eq(a, b):
    if type(a) in (list, tuple) and type(b) is type(a):
        if deep_sym(a) or deep_sym(b):
            return mkbool(seq_eq(a, b)) if len(a) == len(b) else False
    if isinstance(a, LazySplit) or isinstance(b, LazySplit):
        a = a.force() if isinstance(a, LazySplit) else a
        b = b.force() if isinstance(b, LazySplit) else b
        return eq(a, b) if isinstance(a, list) and isinstance(b, list) else False
    return a == b


def mod(a, b):
    if isinstance(a, str):
        return percent_format(a, b) if deep_sym(b) else a % b
    return a % b


def unpack(v, n, star=None):
    """Elements for an n-target unpacking; star = (before, after)."""
    if isinstance(v, LazySplit) and v.forced is None:
        if star is None:
            return v.unpack(n, False)
        if star[1] == 0:
            first, rest = v.unpack(star[0], True)
            return first + [rest]
    if isinstance(v, (SymStr, LazySplit)):
        v = list(v)
    if star is None:
        return v
    return star_list(v, star)


def star_list(v, star):
    v = list(v)
    a, b = star
    if len(v) < a + b:
        raise ValueError("not enough values to unpack (expected at least %d, got %d)" % (a + b, len(v)))
    return v[:a] + [v[a:len(v) - b]] + v[len(v) - b:]


def effect():
    """A state change that cannot be merged is about to happen."""
    if core.CTX is not None and core.CTX.guards:
        raise core.SpecAbort()


def iadd(a, b):
    if isinstance(a, list):
        effect()
        a += b
        return a
    return a + b


def enter(name):
    core.STATS.functions.add(name)
    c = core.CTX
    if c is not None:
        c.steps += 1
        if c.steps > c.max_steps:
            raise core.PathBudget("steps")


# ------------------------------------------------------------ builtins

REP = {}


def rep(x):
    """A concrete representative with the right type."""
    if isinstance(x, SymStr):
        return ""
    if isinstance(x, SymInt):
        return 0
    if isinstance(x, SymBool):
        return True
    if isinstance(x, SymBytes):
        return b""
    if isinstance(x, LazySplit):
        return []
    if isinstance(x, SymSet):
        return set()
    if isinstance(x, SymMember):
        return next(iter(x.enum))
    if isinstance(x, sregex.SymMatch):
        return REP_MATCH
    return x


REP_MATCH = re.match("", "")


def m_isinstance(x, t):
    return isinstance(rep(x), t)


def m_type(*a, **k):
    if len(a) == 1:
        return type(rep(a[0]))
    return type(*a, **k)


def m_len(x):
    if isinstance(x, SymDec) and x._chars is None and x.n.lo >= 0:
        return x.length()
    return len(x)


def m_bool(x=False):
    return truthy(x)


def m_any(it):
    acc = []
    it = iter(it)
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        except Exception:
            if acc and core.CTX.decide(z_or(acc)):
                return True
            raise
        t = truthy(v)
        if t is True:
            if acc:
                break
            return True
        if t is not False:
            acc.append(t.t)
    else:
        pass
    if acc:
        if t is True:
            return True
        return mkbool(z_or(acc))
    return False


def m_all(it):
    acc = []
    it = iter(it)
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        except Exception:
            if acc and not core.CTX.decide(z_and(acc)):
                return False
            raise
        t = truthy(v)
        if t is False:
            return False
        if t is not True:
            acc.append(t.t)
    return mkbool(z_and(acc))


def dispatcher(f):
    """A callable natively usable that goes through `call`."""
    if f is None or isinstance(f, types.FunctionType):
        return f
    return lambda *a, **k: call(f, *a, **k)


def m_map(f, *its):
    if len(its) == 1:
        return (call(f, x) for x in its[0])
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    def gen():
        for x in it:
            v = x if f is None else call(f, x)
            if v:
                yield x
    return gen()


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + (as_int(x) if isinstance(x, SymBool) else x)
    return r


def m_sorted(it, key=None, reverse=False):
    return sorted(it, key=dispatcher(key), reverse=reverse)


def m_minmax(f, mx):
    def g(*a, key=None, **k):
        if key is None and not k:
            items = list(a[0]) if len(a) == 1 else list(a)
            if any(isinstance(x, SymInt) for x in items) and all(isinstance(x, (int, SymInt)) for x in items):
                r = items[0]
                for x in items[1:]:
                    t = boolterm(x > r) if mx else boolterm(x < r)
                    r = ite(t, x, r) if not isinstance(t, bool) else (x if t else r)
                return r
            return f(items)
        if key is not None:
            k["key"] = dispatcher(key)
        return f(*a, **k)
    return g


def m_bin(prefix, base):
    def g(n):
        if isinstance(n, SymInt):
            if n.lo < 0 and bool(n < 0):
                return mkstr(["-"] + list(prefix) + int_digits(-n, base, 0))
            n = restrict_lo(n, 0)
            if isinstance(n, int):
                return g(n)
            return SymDec(n, base, False, prefix)
        return {2: bin, 8: oct, 16: hex}[base](n)
    return g


def m_pow(a, b, m=None):
    if m is None:
        return a ** b
    return pow(a, b, m)


def m_bytes(*a, **k):
    if a and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:], **k)
    if len(a) == 1 and not isinstance(a[0], (int, bytes, bytearray, str)):
        if isinstance(a[0], SymBytes):
            return a[0]
        v = list(a[0])
        if deep_sym(v):
            for x in v:
                if is_sym(x) and not (x.lo >= 0 and x.hi < 256):
                    if not core.CTX.decide(z_and([boolterm(x >= 0), boolterm(x < 256)])):
                        raise ValueError("bytes must be in range(0, 256)")
            return mkbytes(v)
        return bytes(v)
    return bytes(*a, **k)


def m_list(x=()):
    if isinstance(x, LazySplit):
        return list(x.force())
    return list(x)


def m_set(x=()):
    if isinstance(x, SymSet):
        return x.copy()
    if isinstance(x, LazySplit):
        x = x.force()
    v = list(x)
    if any(deep_sym(y) for y in v):
        return SymSet([(True, y) for y in v])
    return set(v)


def m_frozenset(x=()):
    r = m_set(x)
    return frozenset(r) if isinstance(r, set) else r


def m_getattr(o, name, *d):
    if isinstance(name, SymStr):
        name = concretize(name)
    return getattr(o, name, *d)


def m_setattr(o, n, v):
    effect()
    setattr(o, n, v)


def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def m_accumulate(it, func=None, *, initial=None):
    return itertools.accumulate(it, dispatcher(func) if func else operator.add, initial=initial)


def m_enumcall(cls, value):
    if isinstance(value, SymMember):
        if value.enum is cls:
            return value
        value = value.value if False else value
        raise ValueError("not a valid %s" % cls.__name__)
    if not is_sym(value):
        return cls(value)
    cond = z_or([truth_eq(m.value, value) for m in cls])
    if not core.CTX.decide(cond):
        f = getattr(cls, "_missing_", None)
        raise ValueError("not a valid %s" % cls.__name__)
    return SymMember(cls, value)


# -- bytes / base64


def m_fromhex(s):
    if not isinstance(s, SymStr):
        return bytes.fromhex(s)
    H = ascii_digits(16)
    ch = s.chars
    c = core.CTX
    if len(ch) % 2 == 0 and c.decide(z_and([inset(x, H) for x in ch])):
        return _unhex(ch)
    ws = cs.from_chars(" \t\n\r\f\v")
    out = []
    i = 0
    while True:
        while i < len(ch) and c.decide(inset(ch[i], ws)):
            i += 1
        if i >= len(ch):
            break
        for k in (i, i + 1):
            if k >= len(ch) or not c.decide(inset(ch[k], H)):
                raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % k)
        out += ch[i:i + 2]
        i += 2
    return _unhex(out)


def _unhex(ch):
    out = []
    for i in range(0, len(ch), 2):
        out.append(int_of_bits(hexbits(ch[i]) + hexbits(ch[i + 1])))
    return mkbytes(out)


def m_unhexlify(s, *a):
    if isinstance(s, SymBytes):
        s = s.decode("latin-1") if all(hi_(v) < 128 for v in s.vals) else concretize(s)
    if not isinstance(s, SymStr):
        return binascii.unhexlify(s, *a)
    ch = s.chars
    c = core.CTX
    if not c.decide(z_and([inset(x, ((0, 127),)) for x in ch])):
        raise ValueError("string argument should contain only ASCII characters")
    if len(ch) % 2:
        raise binascii.Error("Odd-length string")
    if not c.decide(z_and([inset(x, ascii_digits(16)) for x in ch])):
        raise binascii.Error("Non-hexadecimal digit found")
    return _unhex(ch)


def m_hexlify(b, *a):
    if isinstance(b, SymBytes) and not a:
        return b.hex().encode()
    return binascii.hexlify(concretize(b), *a)


def m_b64encode(b, altchars=None):
    if not isinstance(b, SymBytes):
        if isinstance(b, (str, SymStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        return base64.b64encode(b, altchars)
    if altchars is not None:
        return base64.b64encode(concretize(b), altchars)
    bits = []
    for v in b.vals:
        bits += int_bits(v, 8)
    out = []
    for i in range(0, len(bits), 6):
        g = bits[i:i + 6]
        g += ["0"] * (6 - len(g))
        out.append(b64ch(g))
    out += ["="] * (-len(out) % 4)
    return mkbytes([ch_int(c) for c in out])


B64SET = cs.norm([(65, 90), (97, 122), (48, 57), (43, 43), (47, 47)])


def m_b64decode(s, altchars=None, validate=False):
    if isinstance(s, SymBytes):
        chars = []
        for v in s.vals:
            chars += chars_of(m_chr(v))
    elif isinstance(s, SymStr):
        chars = s.chars
        if not core.CTX.decide(z_and([inset(x, ((0, 127),)) for x in chars])):
            raise ValueError("string argument should contain only ASCII characters")
    else:
        return base64.b64decode(s, altchars, validate)
    if altchars is not None:
        return base64.b64decode(concretize(s), altchars, validate)
    c = core.CTX
    if validate:
        if not c.decide(sregex.accept(B64_STRICT, chars, "fullmatch")):
            raise binascii.Error("Only base64 data is allowed")
    bits = []
    pads = 0
    quad = 0
    stopped = False
    for ch in chars:
        if c.decide(cheq(ch, "=")):
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    stopped = True
                    break
            continue
        if not c.decide(inset(ch, B64SET)):
            continue
        pads = 0
        bits += b64bits(ch)
        quad = (quad + 1) % 4
    if not stopped and quad != 0:
        raise binascii.Error("Incorrect padding")
    n = len(bits) // 8
    return mkbytes([int_of_bits(bits[8 * i:8 * i + 8]) for i in range(n)])


B64_STRICT = re.compile(r"[A-Za-z0-9+/]*={0,2}")


def m_from_bytes(b, byteorder="big", *, signed=False):
    if isinstance(b, SymBytes) or deep_sym(b):
        if signed:
            return int.from_bytes(concretize(b), byteorder, signed=True)
        vals = list(b)
        if byteorder == "little":
            vals.reverse()
        bits = []
        for v in vals:
            bits += int_bits(v, 8)
        return int_of_bits(bits)
    return int.from_bytes(b, byteorder, signed=signed)


# -- re module


def re_call(name, p, *args, **kw):
    if isinstance(p, SymStr):
        p = concretize(p)
    fn = getattr(re, name)
    if name in ("sub", "subn"):
        repl, s = args[0] if args else kw.pop("repl"), args[1] if len(args) > 1 else kw.pop("string")
        rest = list(args[2:])
        count = rest.pop(0) if rest else kw.pop("count", 0)
        flags = rest.pop(0) if rest else kw.pop("flags", 0)
        pat = re.compile(p, flags) if not isinstance(p, re.Pattern) else p
        return pat_call(pat, name, repl, s, count)
    s = args[0] if args else kw.pop("string")
    rest = list(args[1:])
    if name == "split":
        ms = rest.pop(0) if rest else kw.pop("maxsplit", 0)
        flags = rest.pop(0) if rest else kw.pop("flags", 0)
        pat = re.compile(p, flags) if not isinstance(p, re.Pattern) else p
        return pat_call(pat, name, s, ms)
    flags = rest.pop(0) if rest else kw.pop("flags", 0)
    pat = re.compile(p, flags) if not isinstance(p, re.Pattern) else p
    return pat_call(pat, name, s)


def pat_call(p, name, *args, **kw):
    if name in ("sub", "subn"):
        repl = args[0] if args else kw["repl"]
        s = args[1] if len(args) > 1 else kw["string"]
        count = args[2] if len(args) > 2 else kw.get("count", 0)
        if isinstance(s, SymStr) or isinstance(repl, SymStr):
            return sregex.sub(p, repl, s, count, name == "subn")
        if callable(repl):
            if isinstance(s, str) and core.CTX is not None:
                return sregex.sub(p, repl, s, count, name == "subn")
        return getattr(p, name)(repl, s, idx(count))
    s = args[0] if args else kw.pop("string", None)
    if not isinstance(s, SymStr):
        return getattr(p, name)(s, *[concretize(a) for a in args[1:]], **kw)
    return sregex.run(p, name, s, *args[1:], **kw)


def m_re_escape(s):
    if isinstance(s, SymStr):
        return re.escape(concretize(s))
    return re.escape(s)


MODELS = {
    int: m_int, str: m_str, ord: m_ord, chr: m_chr, repr: m_repr, ascii: m_repr, format: m_format,
    isinstance: m_isinstance, type: m_type, len: m_len, bool: m_bool, any: m_any, all: m_all, map: m_map,
    filter: m_filter, sum: m_sum, sorted: m_sorted, min: m_minmax(min, False), max: m_minmax(max, True),
    bin: m_bin("0b", 2), oct: m_bin("0o", 8), hex: m_bin("0x", 16), pow: m_pow, bytes: m_bytes,
    list: m_list, set: m_set, frozenset: m_frozenset, getattr: m_getattr, setattr: m_setattr, functools.reduce: m_reduce,
    itertools.accumulate: m_accumulate,
    bytes.fromhex: m_fromhex, binascii.unhexlify: m_unhexlify, binascii.a2b_hex: m_unhexlify,
    binascii.hexlify: m_hexlify, binascii.b2a_hex: m_hexlify,
    base64.b64encode: m_b64encode, base64.b64decode: m_b64decode,
    base64.standard_b64encode: m_b64encode, base64.standard_b64decode: m_b64decode,
    int.from_bytes: m_from_bytes, re.escape: m_re_escape,
    operator.contains: contains, operator.getitem: getitem, operator.mod: mod, operator.not_: not_,
    operator.truth: truthy, operator.is_: is_,
}
for _n in ("match", "fullmatch", "search", "split", "sub", "subn", "findall", "finditer"):
    MODELS[getattr(re, _n)] = functools.partial(re_call, _n)

WRAP_FIRST = {itertools.starmap, itertools.takewhile, itertools.dropwhile, itertools.filterfalse,
              functools.partial}
MUT_LIST = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__",
            "__delitem__", "__iadd__"}
MUT_DICT = {"update", "setdefault", "pop", "popitem", "clear", "__setitem__", "__delitem__"}
MUT_SET = {"add", "discard", "remove", "pop", "clear", "update", "difference_update",
           "intersection_update", "symmetric_difference_update"}
PAT_METHODS = {"match", "fullmatch", "search", "split", "sub", "subn", "findall", "finditer"}


def call(f, /, *args, **kw):
    global SYMKEYS
    tf = type(f)
    if tf is types.FunctionType:
        if "_sx_" in f.__globals__ or f.__globals__ is globals() and f not in MODELS:
            return f(*args, **kw)
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        if f.__module__ in NATIVE_OK or f.__module__ is None or not (deep_sym(args) or deep_sym(kw)):
            return f(*args, **kw)
        return f(*concretize(args), **concretize(kw))
    if tf is types.MethodType:
        fn = f.__func__
        if type(fn) is types.FunctionType:
            return f(*args, **kw)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    if tf in BUILTIN_METHODS:
        self = f.__self__
        name = f.__name__
        ts = type(self)
        if ts is str:
            if name == "join":
                return str_join(self, args[0])
            if name == "format":
                if any(deep_sym(a) for a in args) or deep_sym(kw):
                    return str_format(self, args, kw)
                return f(*args, **kw)
            if any(deep_sym(a) for a in args) or kw and deep_sym(kw):
                return getattr(SymStr(list(self)), name)(*args, **kw)
            return f(*args, **kw)
        if ts is re.Pattern:
            if name in PAT_METHODS:
                return pat_call(self, name, *args, **kw)
            return f(*args, **kw)
        if ts is list:
            if name in MUT_LIST and core.CTX is not None and core.CTX.guards:
                if name in ("append", "extend") and core.CTX.journal is not None:
                    core.CTX.journal.append((self, len(self)))
                    return f(*args)
                raise core.SpecAbort()
            if name in ("index", "count", "remove", "sort"):
                if kw.get("key") is not None:
                    kw["key"] = dispatcher(kw["key"])
            return f(*args, **kw)
        if isinstance(self, dict):
            if name in MUT_DICT:
                effect()
            if args and (SYMKEYS or deep_sym(args[0])):
                if name == "get":
                    return dict_lookup(self, args[0], args[1] if len(args) > 1 else None)
                if name == "__getitem__":
                    return dict_lookup(self, args[0])
                if name == "__contains__":
                    return contains(self, args[0])
                if name in ("setdefault",):
                    v = dict_lookup(self, args[0], _MISSING2)
                    if v is _MISSING2:
                        v = args[1] if len(args) > 1 else None
                        setitem(self, args[0], v)
                    return v
                if name == "pop":
                    for t, k in key_terms(self, args[0]):
                        if core.CTX.decide(t):
                            return self.pop(k)
                    if len(args) > 1:
                        return args[1]
                    raise KeyError(args[0])
                if name == "update" and args and isinstance(args[0], dict):
                    for k, v in args[0].items():
                        setitem(self, k, v)
                    return None
            return f(*args, **kw)
        if ts in (set, frozenset) and name not in MUT_SET and deep_sym(args):
            if name == "__contains__":
                return contains(self, args[0])
            return getattr(SymSet([(True, v) for v in self]), name)(*args)
        if ts is set:
            if name in MUT_SET:
                effect()
            if name == "add" and is_sym(args[0]):
                if contains(self, args[0]):
                    return None
                SYMKEYS = True
            return f(*args, **kw)
        if ts in (tuple, range, frozenset):
            return f(*args, **kw)
        if self is not None and f in (bytes.fromhex,):
            return m_fromhex(*args)
        if name == "maketrans" or name == "fromkeys":
            return f(*args, **kw)
    if tf is METHOD_DESC:
        oc = f.__objclass__
        if oc is str and args and (deep_sym(args)):
            s = args[0] if isinstance(args[0], SymStr) else SymStr(list(args[0]))
            return getattr(s, f.__name__)(*args[1:], **kw)
        if args and not is_sym(args[0]):
            return call(getattr(args[0], f.__name__), *args[1:], **kw)
        if args and is_sym(args[0]):
            return getattr(args[0], f.__name__)(*args[1:], **kw)
    if tf is functools.partial:
        k2 = dict(f.keywords)
        k2.update(kw)
        return call(f.func, *f.args, *args, **k2)
    if isinstance(f, enum.EnumMeta) and len(args) == 1 and is_sym(args[0]):
        return m_enumcall(f, args[0])
    if _in_wrap(f):
        return f(dispatcher(args[0]) if f is not functools.partial else args[0], *args[1:], **kw)
    return f(*args, **kw)


_MISSING2 = object()
NATIVE_OK = {"contextlib", "enum", "dataclasses", "typing", "collections", "functools", "abc", "operator",
             "symx.models", "symx.harness"}


# -- caches


class MemoModel:
    """functools.lru_cache/cache with symbolic arguments: entries compare by
    equality on the path.  Used only where call history is the subject."""
    enabled = False
    registry = []


def _memo(fn, typed=False):
    store = []
    MemoModel.registry.append(store)

    @functools.wraps(fn)
    def g(*a, **k):
        if not MemoModel.enabled or core.CTX is None:
            return fn(*a, **k)
        for v in list(a) + list(k.values()):
            if not is_sym(v) and getattr(type(v), "__hash__", None) is None:
                raise TypeError("unhashable type: '%s'" % type(v).__name__)
        key = (a, tuple(sorted(k.items())))
        for k0, r in store:
            if len(k0[0]) == len(a) and len(k0[1]) == len(key[1]) and \
                    [x for x, _ in k0[1]] == [x for x, _ in key[1]]:
                c = z_and([truth_eq(x, y) for x, y in zip(k0[0], a)] +
                          [truth_eq(x[1], y[1]) for x, y in zip(k0[1], key[1])])
                if core.CTX.decide(c):
                    return r
        r = fn(*a, **k)
        effect()
        store.append((key, r))
        return r
    g.cache_clear = store.clear
    g.cache_info = lambda: None
    g.__wrapped__ = fn
    return g


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _memo(maxsize)
    return lambda fn: _memo(fn)


def cache(fn):
    return _memo(fn)


def _in_wrap(f):
    return any(f is w for w in WRAP_FIRST)
