"""Symbolic values: booleans, exact integers, characters, strings, bytes."""
import math
import z3
from . import core
from . import charset as cs
from .core import z_and, z_or, z_not, z_lift

# ---------------------------------------------------------------- booleans


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return core.CTX.decide(self.t)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.t))
        if isinstance(o, (int, SymInt)):
            return as_int(self) == o
        return False

    def __ne__(self, o):
        return sx_not(self == o)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z_and([self.t, boolterm(o)]))
        return as_int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z_or([self.t, boolterm(o)]))
        return as_int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, z_lift(boolterm(o))))

    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return as_int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return as_int(self) - o

    def __rsub__(self, o):
        return o - as_int(self)

    def __mul__(self, o):
        return as_int(self) * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return as_int(self) < o

    def __gt__(self, o):
        return as_int(self) > o

    def __le__(self, o):
        return as_int(self) <= o

    def __ge__(self, o):
        return as_int(self) >= o

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return "<symbool>"


def mkbool(t):
    if t is True or t is False:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def boolterm(x):
    if isinstance(x, SymBool):
        return x.t
    return bool(x)


def sx_not(x):
    if isinstance(x, SymBool):
        return mkbool(z_not(x.t))
    return not x


# ---------------------------------------------------------------- integers


def _width(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length(), hi.bit_length()) + 1


def _ext(t, signed, w):
    n = w - t.size()
    if n == 0:
        return t
    if n < 0:
        return z3.Extract(w - 1, 0, t)
    return z3.SignExt(n, t) if signed else z3.ZeroExt(n, t)


def mkint(t, lo, hi, src=None):
    """t must equal the value modulo 2^t.size(), and fit lo..hi."""
    if lo == hi:
        return lo
    w = _width(lo, hi)
    if t.size() != w:
        t = z3.simplify(_ext(t, lo < 0, w))
        if z3.is_bv_value(t):
            return t.as_signed_long() if lo < 0 else t.as_long()
    return SymInt(t, lo, hi, src)


def _lin_of(x):
    if isinstance(x, int):
        return x, {}
    if x.lin is not None:
        return x.lin
    return 0, {x.t.get_id(): (x, 1)}


def lin_comb(a, ca, b, cb):
    """ca*a + cb*b as a sum in canonical form, so that equal sums of the same
    values become the same term."""
    ka, da = _lin_of(a)
    kb, db = _lin_of(b)
    k = ca * ka + cb * kb
    d = {i: (x, ca * c) for i, (x, c) in da.items()}
    for i, (x, c) in db.items():
        c0 = d[i][1] if i in d else 0
        d[i] = (x, c0 + cb * c)
    d = {i: v for i, v in d.items() if v[1]}
    if not d:
        return k
    if len(d) == 1 and k == 0:
        (x, c), = d.values()
        if c == 1:
            return x
    lo = hi = k
    for x, c in d.values():
        lo += min(c * x.lo, c * x.hi)
        hi += max(c * x.lo, c * x.hi)
    # the bounds tracked for the operands may be tighter than those of the sum
    if ca and cb:
        e = [ca * lo_(a), ca * hi_(a)], [cb * lo_(b), cb * hi_(b)]
        lo, hi = max(lo, min(e[0]) + min(e[1])), min(hi, max(e[0]) + max(e[1]))
    if lo == hi:
        return lo
    w = _width(lo, hi)
    t = None
    for i in sorted(d):
        x, c = d[i]
        y = x.term(w)
        if c % (1 << w) != 1:
            y = y * z3.BitVecVal(c % (1 << w), w)
        t = y if t is None else t + y
    if k % (1 << w):
        t = t + z3.BitVecVal(k % (1 << w), w)
    return SymInt(t, lo, hi, None, (k, d))


def in_range(x):
    w = x.t.size()
    if x.lo < 0:
        return z3.And(x.t >= z3.BitVecVal(x.lo, w), x.t <= z3.BitVecVal(x.hi, w))
    return z3.And(z3.UGE(x.t, z3.BitVecVal(x.lo, w)), z3.ULE(x.t, z3.BitVecVal(x.hi, w)))


def residue(a, o):
    """a % o for a sum a.  Sums that are multiples of one another modulo o
    share one symbol for the residue."""
    k, d = _lin_of(a)
    coef = {}

    def put(x, c):
        if x.src is not None and x.src[0] == "res" and x.src[1] % o == 0:
            for y, cy in x.src[2]:
                put(y, c * cy)
            return x.src[3] * c
        coef[x.t.get_id()] = (x, coef.get(x.t.get_id(), (x, 0))[1] + c)
        return 0

    for x, c in d.values():
        k += put(x, c)
    items = sorted((i, x, c % o) for i, (x, c) in coef.items() if c % o)
    k %= o
    if not items:
        return k
    best = None
    for u in range(1, o):
        if math.gcd(u, o) == 1:
            cs = [(c * u) % o for _, _, c in items]
            if best is None or cs < best[0]:
                best = cs, u
            if o > 100:
                break
    cs, u = best
    inv = pow(u, -1, o)
    ctx = core.CTX
    key = ("res", o, tuple((i, c) for (i, _, _), c in zip(items, cs)))
    r = ctx.cache.get(key)
    if r is None:
        total = 0
        for (_, x, _), c in zip(items, cs):
            total = total + x * c
            ctx.keep.append(x.t)
        if total.lo >= 0 and total.hi < o:
            r = total
        else:
            lo, hi = total.lo // o, total.hi // o
            w = _width(min(lo * o, total.lo), max(hi * o + o, total.hi)) + 1
            r = SymInt(ctx.fresh("r", _width(0, o - 1)), 0, o - 1)
            if lo == hi:
                qt = z3.BitVecVal(lo * o, w)
            else:
                q = SymInt(ctx.fresh("q", _width(lo, hi)), lo, hi)
                ctx.define(in_range(q))
                qt = q.term(w) * o
            ctx.define(z3.And(in_range(r), total.term(w) == qt + r.term(w)))
            r.src = "res", o, tuple((x, c) for (_, x, _), c in zip(items, cs)), 0
        ctx.cache[key] = r
    if inv == 1 and k == 0:
        return r
    # (inv * r + k) % o as a table over r
    t = None
    w = _width(0, o - 1)
    if o <= 16:
        for v in range(r.lo, r.hi + 1):
            z = z3.BitVecVal((inv * v + k) % o, w)
            t = z if t is None else z3.If(r.t == v, z, t)
    else:
        w2 = (inv * (o - 1) + k).bit_length()
        t = z3.Extract(w - 1, 0, z3.URem(r.term(w2) * inv + k, z3.BitVecVal(o, w2)))
    parts = tuple((x, c) for (_, x, _), c in zip(items, [c for _, _, c in items]))
    return SymInt(t, 0, o - 1, ("res", o, parts, k))


class SymInt:
    __slots__ = ("t", "lo", "hi", "src", "lin")

    def __init__(self, t, lo, hi, src=None, lin=None):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.src = src
        self.lin = lin            # (constant, {term id: (atom, coefficient)})

    @property
    def w(self):
        return self.t.size()

    def term(self, w):
        return _ext(self.t, self.lo < 0, w)

    # arithmetic
    def _bin(self, o, f, lo, hi):
        w = max(_width(lo, hi), 1)
        a, b = self, o
        if isinstance(b, int):
            bt = z3.BitVecVal(b, w)
        else:
            bt = b.term(w)
        return mkint(f(a.term(w), bt), lo, hi)

    def __add__(self, o):
        o = _toint(o)
        if o is NotImplemented:
            return o
        if isinstance(o, int) and o == 0:
            return self
        return lin_comb(self, 1, o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        o = _toint(o)
        if o is NotImplemented:
            return o
        return lin_comb(self, 1, o, -1)

    def __rsub__(self, o):
        o = _toint(o)
        if o is NotImplemented:
            return o
        return lin_comb(self, -1, o, 1)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if bool(self < 0):
            return -self
        return restrict_lo(self, 0)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            if isinstance(o, str) and o == "0" and self.lin is not None:
                k, d = self.lin
                if len(d) == 1:
                    (x, c), = d.values()
                    if c == -1 and x.src is not None and x.src[0] == "numlen":
                        return SymZeros(x.src[1], k)
            return o * self.__index__()
        o = _toint(o)
        if o is NotImplemented:
            return o
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            return lin_comb(self, o, 0, 0)
        c = [self.lo * lo_(o), self.lo * hi_(o), self.hi * lo_(o), self.hi * hi_(o)]
        return self._bin(o, lambda a, b: a * b, min(c), max(c))

    __rmul__ = __mul__

    def _divmod(self, o):
        if not isinstance(o, int):
            o = o.__index__()
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if 1 < o <= 4096 and self.lin is not None and self.hi - self.lo < 65536:
            r = residue(self, o)
            if isinstance(r, int):
                q = self - r
                if isinstance(q, int):
                    return q // o, r
            lo, hi = self.lo // o, self.hi // o
            if lo == hi:
                return lo, r
            k = ("quot", self.t.get_id(), o)
            if k not in core.CTX.cache:
                w = _width(min(lo * o, self.lo), max(hi * o + o, self.hi)) + 1
                q = SymInt(core.CTX.fresh("q", _width(lo, hi)), lo, hi)
                rt = r.term(w) if isinstance(r, SymInt) else z3.BitVecVal(r, w)
                core.CTX.define(z3.And(self.term(w) == q.term(w) * o + rt, in_range(q)))
                core.CTX.keep.append(self.t)
                core.CTX.cache[k] = q
            return core.CTX.cache[k], r
        if o < 0:
            q, r = (-self)._divmod(-o)
            return q, -r if not isinstance(r, int) else -r
        a = self
        k = 0
        if a.lo < 0:
            k = (-a.lo + o - 1) // o
            a = a + k * o
            if isinstance(a, int):
                return a // o - k, a % o
        w = max(a.w, o.bit_length())
        t = a.term(w)
        c = z3.BitVecVal(o, w)
        q = mkint(z3.UDiv(t, c), a.lo // o, a.hi // o)
        if a.hi < o:
            r = a
        elif a.lo // o == a.hi // o:
            r = mkint(z3.URem(t, c), a.lo % o, a.hi % o)
        else:
            r = mkint(z3.URem(t, c), 0, min(o - 1, a.hi))
        return q - k, r

    def __floordiv__(self, o):
        o = _toint(o)
        return o if o is NotImplemented else self._divmod(o)[0]

    def __mod__(self, o):
        o = _toint(o)
        if isinstance(o, int) and 1 < o <= 4096 and self.lin is not None and self.hi - self.lo < 65536:
            return residue(self, o)
        return o if o is NotImplemented else self._divmod(o)[1]

    def __divmod__(self, o):
        o = _toint(o)
        return o if o is NotImplemented else self._divmod(o)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __truediv__(self, o):
        return concretize(self) / concretize(o)

    def __rtruediv__(self, o):
        return concretize(o) / concretize(self)

    def __pow__(self, o, mod=None):
        if isinstance(o, SymInt):
            o = o.__index__()
        if 0 <= o <= 8 and mod is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(concretize(self), o, mod)

    def __rpow__(self, o, mod=None):
        return pow(o, self.__index__(), mod)

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        return self // (1 << o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def _bit(self, o, f, pf):
        o = _toint(o)
        if o is NotImplemented:
            return o
        if self.lo < 0 or lo_(o) < 0:
            return pf(concretize(self), concretize(o))
        if pf(6, 3) == 2:  # and
            hi = min(self.hi, hi_(o))
            if isinstance(o, int) and (o & (o + 1)) == 0:
                return self % (o + 1)
        else:
            hi = (1 << max(self.hi.bit_length(), hi_(o).bit_length())) - 1
        w = max(self.hi.bit_length(), hi_(o).bit_length(), 1)
        bt = z3.BitVecVal(o, w) if isinstance(o, int) else o.term(w)
        return mkint(f(self.term(w), bt), 0, hi)

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # comparison
    def _cmp(self, o, strict, swap):
        """self < o (strict) or self <= o; swap exchanges operands."""
        o = _toint(o)
        if o is NotImplemented:
            return o
        a, b = (o, self) if swap else (self, o)
        al, ah, bl, bh = lo_(a), hi_(a), lo_(b), hi_(b)
        if strict:
            if ah < bl:
                return True
            if al >= bh:
                return False
        else:
            if ah <= bl:
                return True
            if al > bh:
                return False
        signed = al < 0 or bl < 0
        w = _width(min(al, bl), max(ah, bh))
        at = z3.BitVecVal(a, w) if isinstance(a, int) else a.term(w)
        bt = z3.BitVecVal(b, w) if isinstance(b, int) else b.term(w)
        if signed:
            return mkbool(at < bt if strict else at <= bt)
        return mkbool(z3.ULT(at, bt) if strict else z3.ULE(at, bt))

    def __lt__(self, o):
        return self._cmp(o, True, False)

    def __le__(self, o):
        return self._cmp(o, False, False)

    def __gt__(self, o):
        return self._cmp(o, True, True)

    def __ge__(self, o):
        return self._cmp(o, False, True)

    def __eq__(self, o):
        o = _toint(o)
        if o is NotImplemented:
            return False
        if o is self:
            return True
        if hi_(o) < self.lo or lo_(o) > self.hi:
            return False
        if self.src is not None and self.src[0] == "dec":
            # numbers read from digits are equal digit by digit
            a = self.src[1]
            b = None
            if isinstance(o, int):
                b = tuple(str(o))
            elif o.src is not None and o.src[0] == "dec":
                b = o.src[1]
            if b is not None:
                n = max(len(a), len(b))
                return mkbool(z_and([cheq(x, y) for x, y in zip(("0",) * (n - len(a)) + tuple(a),
                                                                ("0",) * (n - len(b)) + tuple(b))]))
        w = _width(min(self.lo, lo_(o)), max(self.hi, hi_(o)))
        ot = z3.BitVecVal(o, w) if isinstance(o, int) else o.term(w)
        st = self.term(w)
        if st.eq(ot):
            return True
        return mkbool(st == ot)

    def __ne__(self, o):
        return sx_not(self == o)

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        """Enumerate the possible values by forking."""
        c = core.CTX
        while True:
            v = c.pick(lambda: model_int(c.need_model(), self))
            r = self == v
            if r is True or (r is not False and c.decide(r.t)):
                return v

    def __int__(self):
        return self.__index__()

    def __repr__(self):
        return "<symint>"

    def bit_length(self):
        n = abs(self)
        if isinstance(n, int):
            return n.bit_length()
        lo, hi = n.lo.bit_length(), n.hi.bit_length()
        if lo == hi:
            return lo
        w = _width(lo, hi)
        t = z3.BitVecVal(hi, w)
        for k in range(hi - 1, lo - 1, -1):
            t = z3.If(_bz(n < (1 << k)), z3.BitVecVal(k, w), t)
        return SymInt(t, lo, hi)

    def to_bytes(self, length=1, byteorder="big", signed=False):
        if signed:
            return concretize(self).to_bytes(length, byteorder, signed=True)
        if bool(self < 0) or bool(self >= (1 << (8 * length))):
            raise OverflowError("int too big to convert")
        bits = int_bits(self, 8 * length)
        by = [int_of_bits(bits[i:i + 8]) for i in range(0, 8 * length, 8)]
        if byteorder == "little":
            by.reverse()
        return mkbytes(by)

    @property
    def real(self):
        return self

    numerator = real

    def conjugate(self):
        return self


def restrict_lo(n, lo):
    """n with a lower bound known to hold on this path."""
    if n.lo >= lo:
        return n
    return mkint(n.term(_width(n.lo, n.hi)), lo, n.hi, n.src)


def restrict_hi(n, hi):
    if isinstance(n, int) or n.hi <= hi:
        return n
    return mkint(n.t, n.lo, hi, n.src)


def lo_(o):
    return o if isinstance(o, int) else o.lo


def hi_(o):
    return o if isinstance(o, int) else o.hi


def _toint(o):
    if isinstance(o, (int, SymInt)):
        return int(o) if isinstance(o, bool) else o
    if isinstance(o, SymBool):
        return as_int(o)
    return NotImplemented


def as_int(b):
    if isinstance(b, bool):
        return int(b)
    return SymInt(z3.If(b.t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)


def model_int(m, n):
    if isinstance(n, int):
        return n
    v = m.eval(n.t, model_completion=True)
    return v.as_signed_long() if n.lo < 0 else v.as_long()


# ---------------------------------------------------------------- characters


class Ch:
    """A symbolic character. src records how it was made, so that exact
    inverses (int -> digits -> int, bits -> int -> bits, ...) give the
    original term back."""
    __slots__ = ("t", "lo", "hi", "dom", "src", "memo")

    def __init__(self, t, lo, hi, dom=None, src=None):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.dom = dom
        self.src = src
        self.memo = None

    def __repr__(self):
        return "<ch>"


def mkch(t, lo, hi, dom=None, src=None):
    if lo == hi:
        return chr(lo)
    if dom is not None and len(dom) == 1:
        return chr(next(iter(dom)))
    w = hi.bit_length()
    if t.size() != w:
        t = _ext(t, False, w)
    return Ch(t, lo, hi, dom, src)


def ch_int(c):
    """Code point of a character as int/SymInt."""
    if isinstance(c, str):
        return ord(c)
    return SymInt(c.t, c.lo, c.hi, ("ord", c))


def cheq(a, b):
    """Equality of two characters as True/False/z3 term."""
    if a is b:
        return True
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        a, b = b, a
    if isinstance(b, str):
        k = ord(b)
        if k < a.lo or k > a.hi or (a.dom is not None and k not in a.dom):
            return False
        key = ("=", k)
        if a.memo is None:
            a.memo = {}
        r = a.memo.get(key)
        if r is None:
            if a.src is not None and a.src[0] == "bit":
                r = bitterm(a) == z3.BitVecVal(k - 48, 1)
            else:
                r = a.t == z3.BitVecVal(k, a.t.size())
            a.memo[key] = r
        return r
    if a.hi < b.lo or b.hi < a.lo:
        return False
    if a.dom is not None and b.dom is not None and not (a.dom & b.dom):
        return False
    if a.src is not None and b.src is not None and src_eq(a.src, b.src):
        return True
    w = max(a.t.size(), b.t.size())
    at, bt = _ext(a.t, False, w), _ext(b.t, False, w)
    if at.eq(bt):
        return True
    return at == bt


def src_eq(x, y):
    if x is y:
        return True
    if x[0] != y[0] or len(x) != len(y):
        return False
    if x[0] == "bit":
        return x[2] == y[2] and (x[1] is y[1] or x[1].t.eq(y[1].t))
    if x[0] in ("hex", "b64"):
        return x[2] == y[2] and all(cheq(p, q) is True for p, q in zip(x[1], y[1]))
    return False


def inset(c, ranges):
    """Membership of a character in a range set: True/False/term."""
    if isinstance(c, str):
        return cs.has(ranges, ord(c))
    if c.memo is None:
        c.memo = {}
    r = c.memo.get(ranges)
    if r is not None:
        return r
    if c.dom is not None:
        ins = [k for k in c.dom if cs.has(ranges, k)]
        if not ins:
            r = False
        elif len(ins) == len(c.dom):
            r = True
    if r is None:
        parts = []
        r = None
        w = c.t.size()
        for lo, hi in ranges:
            if hi < c.lo or lo > c.hi:
                continue
            if lo <= c.lo and hi >= c.hi:
                r = True
                break
            if lo == hi:
                parts.append(c.t == z3.BitVecVal(lo, w))
            else:
                q = []
                if lo > c.lo:
                    q.append(z3.UGE(c.t, z3.BitVecVal(lo, w)))
                if hi < c.hi:
                    q.append(z3.ULE(c.t, z3.BitVecVal(hi, w)))
                parts.append(z_and(q))
        if r is None:
            r = z_or(parts)
    c.memo[ranges] = r
    return r


BIT_DOM = frozenset((48, 49))


def bitch(n, i):
    """Bit i of a non-negative integer as character '0'/'1'."""
    if isinstance(n, int):
        return "1" if (n >> i) & 1 else "0"
    if i >= n.w:
        return "0"
    if n.src is not None and n.src[0] == "bits":
        bits = n.src[1]
        if i >= len(bits):
            return "0"
        return bits[len(bits) - 1 - i]
    b = z3.Extract(i, i, n.t) if n.w > 1 else n.t
    return Ch(z3.Concat(z3.BitVecVal(0b11000, 5), b), 48, 49, BIT_DOM, ("bit", n, i))


def bitterm(c):
    """BV1 of a '0'/'1' character."""
    if isinstance(c, str):
        return z3.BitVecVal(1 if c == "1" else 0, 1)
    if c.src is not None and c.src[0] == "bit":
        n, i = c.src[1], c.src[2]
        return z3.Extract(i, i, n.t) if n.w > 1 else n.t
    return z3.Extract(0, 0, c.t)


def int_bits(n, width):
    """The low `width` bits of n >= 0, most significant first."""
    return [bitch(n, i) for i in range(width - 1, -1, -1)]


def int_of_bits(bits):
    """Value of a list of '0'/'1' characters."""
    k = 0
    while k < len(bits) and bits[k] == "0":
        k += 1
    bits = bits[k:]
    if not bits:
        return 0
    if all(isinstance(b, str) for b in bits):
        return int("".join(bits), 2)
    # exactly all bits of one integer?
    b0 = bits[0]
    if not isinstance(b0, str) and b0.src is not None and b0.src[0] == "bit":
        n = b0.src[1]
        if n.w == len(bits) and n.lo >= 0:
            for j, b in enumerate(bits):
                if isinstance(b, str) or b.src is None or b.src[0] != "bit" or \
                        b.src[1] is not n or b.src[2] != n.w - 1 - j:
                    break
            else:
                return n
    lo = int("".join(b if isinstance(b, str) else "0" for b in bits), 2)
    hi = int("".join(b if isinstance(b, str) else "1" for b in bits), 2)
    # group runs of consecutive bits of one integer / of constants
    parts = []
    i = 0
    while i < len(bits):
        b = bits[i]
        if isinstance(b, str):
            j = i
            while j < len(bits) and isinstance(bits[j], str):
                j += 1
            parts.append(z3.BitVecVal(int("".join(bits[i:j]), 2), j - i))
            i = j
        elif b.src is not None and b.src[0] == "bit":
            n, top = b.src[1], b.src[2]
            j = i + 1
            while j < len(bits) and not isinstance(bits[j], str) and bits[j].src is not None \
                    and bits[j].src[0] == "bit" and bits[j].src[1] is n and bits[j].src[2] == top - (j - i):
                j += 1
            low = top - (j - i) + 1
            parts.append(n.t if (low == 0 and top == n.w - 1) else z3.Extract(top, low, n.t))
            i = j
        else:
            parts.append(bitterm(b))
            i += 1
    t = parts[0] if len(parts) == 1 else z3.Concat(*parts)
    return mkint(t, lo, hi, ("bits", tuple(bits)))


HEX_UP = frozenset(b"0123456789ABCDEF")
HEX_LO = frozenset(b"0123456789abcdef")


def hexch(bits, upper):
    """Hex digit character of four bit characters."""
    bits = list(bits)
    if all(isinstance(b, str) for b in bits):
        return ("%X" if upper else "%x") % int("".join(bits), 2)
    v = _ext(z3.Concat(*[bitterm(b) for b in bits]), False, 7)
    a = 55 if upper else 87
    t = z3.If(z3.ULT(v, z3.BitVecVal(10, 7)), v + z3.BitVecVal(48, 7), v + z3.BitVecVal(a, 7))
    lo = int("".join(b if isinstance(b, str) else "0" for b in bits), 2)
    hi = int("".join(b if isinstance(b, str) else "1" for b in bits), 2)
    dom = frozenset(ord(("%X" if upper else "%x") % k) for k in range(16)
                    if all(isinstance(b, Ch) or b == f"{k:04b}"[i] for i, b in enumerate(bits)))
    return mkch(t, min(dom), max(dom), dom, ("hex", tuple(bits), upper))


def hexbits(c):
    """Four bit characters of a hex digit character known to be one."""
    if isinstance(c, str):
        return list(f"{int(c, 16):04b}")
    if c.src is not None and c.src[0] == "hex":
        return list(c.src[1])
    w = max(c.t.size(), 7)
    t = _ext(c.t, False, w)
    v = z3.If(z3.ULE(t, z3.BitVecVal(57, w)), t - 48, z3.If(z3.ULE(t, z3.BitVecVal(70, w)), t - 55, t - 87))
    n = SymInt(z3.Extract(3, 0, v), 0, 15)
    return int_bits(n, 4)


B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def b64ch(bits):
    bits = list(bits)
    if all(isinstance(b, str) for b in bits):
        return chr(B64[int("".join(bits), 2)])
    v = _ext(z3.Concat(*[bitterm(b) for b in bits]), False, 7)
    K = lambda k: z3.BitVecVal(k % 128, 7)
    t = z3.If(z3.ULT(v, K(26)), v + K(65), z3.If(z3.ULT(v, K(52)), v + K(71), z3.If(
        z3.ULT(v, K(62)), v + K(-4), z3.If(v == K(62), K(43), K(47)))))
    dom = frozenset(B64[k] for k in range(64)
                    if all(isinstance(b, Ch) or b == f"{k:06b}"[i] for i, b in enumerate(bits)))
    return mkch(t, min(dom), max(dom), dom, ("b64", tuple(bits), None))


def b64bits(c):
    if isinstance(c, str):
        return list(f"{B64.index(ord(c)):06b}")
    if c.src is not None and c.src[0] == "b64":
        return list(c.src[1])
    w = max(c.t.size(), 7)
    t = _ext(c.t, False, w)
    K = lambda k: z3.BitVecVal(k, w)
    v = z3.If(z3.And(z3.UGE(t, K(65)), z3.ULE(t, K(90))), t - 65, z3.If(
        z3.And(z3.UGE(t, K(97)), z3.ULE(t, K(122))), t - 71, z3.If(
            z3.And(z3.UGE(t, K(48)), z3.ULE(t, K(57))), t + 4, z3.If(t == K(43), K(62), K(63)))))
    return int_bits(SymInt(z3.Extract(5, 0, v), 0, 63), 6)


def ite_ch(c, a, b):
    """If(c, a, b) for characters; c a z3 Bool."""
    if a is b or (isinstance(a, str) and isinstance(b, str) and a == b):
        return a
    if cheq(a, b) is True:
        return a
    da = frozenset((ord(a),)) if isinstance(a, str) else a.dom
    db = frozenset((ord(b),)) if isinstance(b, str) else b.dom
    if da == BIT_DOM or db == BIT_DOM or (da | db if da and db else None) == BIT_DOM:
        if (da is not None and da <= BIT_DOM) and (db is not None and db <= BIT_DOM):
            n = SymInt(z3.If(c, bitterm(a), bitterm(b)), 0, 1)
            return bitch(n, 0)
    la, ha = (ord(a), ord(a)) if isinstance(a, str) else (a.lo, a.hi)
    lb, hb = (ord(b), ord(b)) if isinstance(b, str) else (b.lo, b.hi)
    lo, hi = min(la, lb), max(ha, hb)
    w = hi.bit_length()
    at = z3.BitVecVal(la, w) if isinstance(a, str) else _ext(a.t, False, w)
    bt = z3.BitVecVal(lb, w) if isinstance(b, str) else _ext(b.t, False, w)
    return mkch(z3.If(c, at, bt), lo, hi, da | db if da is not None and db is not None else None)


# ---------------------------------------------------------------- strings

DIGIT_DOM = frozenset(range(48, 58))


def chars_of(s):
    if isinstance(s, str):
        return list(s)
    return s.chars


def mkstr(chars):
    for c in chars:
        if not isinstance(c, str):
            return SymStr(list(chars))
    return "".join(chars)


def digit_ch(n):
    """Decimal digit character of an integer known to be 0..9."""
    if isinstance(n, int):
        return chr(48 + n)
    lo, hi = max(n.lo, 0), min(n.hi, 9)
    return mkch(_ext(n.t, False, 6) + z3.BitVecVal(48, 6), 48 + lo, 48 + hi,
                frozenset(range(48 + lo, 48 + hi + 1)), ("dig", n))


def dec_digits(n, k):
    """k decimal digit characters of n, given 0 <= n < 10^k on this path."""
    c = core.CTX
    if isinstance(n, int):
        return list(str(n).zfill(k))
    if n.src is not None and n.src[0] == "dec":
        d = list(n.src[1])
        if len(d) >= k:
            return d[len(d) - k:]
        return ["0"] * (k - len(d)) + d
    if k == 1:
        return [digit_ch(n)]
    key = ("digits", n.t.get_id(), k)
    r = c.cache.get(key)
    if r is not None:
        return list(r[1])
    hi = 10 ** k - 1
    w = max(hi.bit_length(), n.w)
    ds = [c.fresh("dig", 4) for _ in range(k)]
    tot = z3.BitVecVal(0, w)
    for d in ds:
        tot = tot * 10 + _ext(d, False, w)
    c.define(z3.And(tot == n.term(w), *[z3.ULE(d, z3.BitVecVal(9, 4)) for d in ds]))
    chs = []
    for i, d in enumerate(ds):
        dn = SymInt(d, 0, 9)
        # leading digits of small values are zero
        if n.hi < 10 ** (k - 1 - i):
            chs.append("0")
        else:
            chs.append(digit_ch(dn))
    c.cache[key] = (n, tuple(chs))
    c.cache[("decof",) + tuple(id(x) if not isinstance(x, str) else x for x in chs)] = (n, tuple(chs))
    return list(chs)


def digit_value(ch):
    """Value of an ASCII digit character."""
    if isinstance(ch, str):
        return ord(ch) - 48
    if ch.src is not None and ch.src[0] == "dig":
        return ch.src[1]
    if ch.lo >= 48 and ch.hi <= 63 and ch.t.size() == 6:
        return mkint(z3.Extract(3, 0, ch.t), max(ch.lo - 48, 0), min(ch.hi - 48, 9))
    return mkint(ch.t - 48, max(ch.lo - 48, 0), min(ch.hi - 48, 9))


def int_of_digits(chs):
    """Value of a list of ASCII digit characters."""
    c = core.CTX
    r = c.cache.get(("decof",) + tuple(id(x) if not isinstance(x, str) else x for x in chs))
    if r is not None:
        return r[0]
    if all(isinstance(x, str) for x in chs):
        return int("".join(chs))
    key = ("intdec",) + tuple(id(x) if not isinstance(x, str) else x for x in chs)
    r = c.cache.get(key)
    if r is not None:
        return r[0]
    lo = hi = 0
    vals = []
    for x in chs:
        v = digit_value(x)
        vals.append(v)
        lo = lo * 10 + lo_(v)
        hi = hi * 10 + hi_(v)
    w = _width(lo, hi)
    tot = None
    for v in vals:
        vt = z3.BitVecVal(v, w) if isinstance(v, int) else v.term(w)
        tot = vt if tot is None else tot * 10 + vt
    n = mkint(tot, lo, hi, ("dec", tuple(chs)))
    c.cache[key] = (n, tuple(chs))
    return n


class SymStr:
    """A string of concrete length with (some) symbolic characters."""

    def __init__(self, chars):
        self._chars = chars

    @property
    def chars(self):
        return self._chars

    def at(self, i):
        ch = self.chars
        return ch[i] if i < len(ch) else None

    def __len__(self):
        return len(self.chars)

    def __iter__(self):
        for c in list(self.chars):
            yield mkstr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(idx(i.start), idx(i.stop), idx(i.step))
            return mkstr(self.chars[i])
        if isinstance(i, SymInt):
            i = i.__index__()
        ch = self.chars
        try:
            c = ch[i]
        except IndexError:
            raise IndexError("string index out of range") from None
        return mkstr([c])

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(self.chars + chars_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(chars_of(o) + self.chars)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.chars * idx(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import models
        return models.percent_format(self, args)

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        if self is o:
            return True
        a, b = self.chars, chars_of(o)
        if len(a) != len(b):
            return False
        return mkbool(z_and([cheq(x, y) for x, y in zip(a, b)]))

    def __ne__(self, o):
        return sx_not(self == o)

    def __hash__(self):
        return 0

    def __contains__(self, o):
        return bool(str_contains(self, o))

    def _lex(self, o, res_lt, res_eq, res_gt):
        a, b = self.chars, chars_of(o)
        n = min(len(a), len(b))
        if len(a) < len(b):
            r = res_lt
        elif len(a) > len(b):
            r = res_gt
        else:
            r = res_eq
        for x, y in reversed(list(zip(a[:n], b[:n]))):
            lt = boolterm(ch_int(x) < ch_int(y))
            eq = cheq(x, y)
            r = z_or([z_and([lt, res_lt]), z_and([eq, r]), z_and([z_not(lt), z_not(eq), res_gt])])
        return mkbool(r)

    def __lt__(self, o):
        return self._lex(o, True, False, False) if isinstance(o, (str, SymStr)) else NotImplemented

    def __le__(self, o):
        return self._lex(o, True, True, False) if isinstance(o, (str, SymStr)) else NotImplemented

    def __gt__(self, o):
        return self._lex(o, False, False, True) if isinstance(o, (str, SymStr)) else NotImplemented

    def __ge__(self, o):
        return self._lex(o, False, True, True) if isinstance(o, (str, SymStr)) else NotImplemented

    def __str__(self):
        return "<symstr>"

    def __repr__(self):
        return "<symstr>"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            def f(*a, **k):
                return getattr(concretize(self), name)(*concretize(a), **concretize(k))
            return f
        raise AttributeError("'str' object has no attribute %r" % name)

    # ---- search
    def _match_at(self, i, sub):
        ch = self.chars
        if i < 0 or i + len(sub) > len(ch):
            return False
        return z_and([cheq(ch[i + j], s) for j, s in enumerate(sub)])

    def _range(self, start, end):
        n = len(self.chars)
        s, e, _ = slice(idx(start), idx(end)).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._range(start, end)
        for i in range(s, e - len(sub) + 1):
            if core.CTX.decide(self._match_at(i, sub)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if core.CTX.decide(self._match_at(i, sub)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._range(start, end)
        if len(sub) == 1:
            tot = 0
            for c in self.chars[s:e]:
                q = cheq(c, sub[0])
                tot = tot + (int(q) if isinstance(q, bool) else as_int(SymBool(q)))
            return tot
        if not sub:
            return e - s + 1
        n = 0
        i = s
        while i + len(sub) <= e:
            if core.CTX.decide(self._match_at(i, sub)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(z_or([boolterm(self.startswith(x, start, end)) for x in p]))
        s, e = self._range(start, end)
        return mkbool(SymStr(self.chars[s:e])._match_at(0, chars_of(p)))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(z_or([boolterm(self.endswith(x, start, end)) for x in p]))
        s, e = self._range(start, end)
        x = SymStr(self.chars[s:e])
        return mkbool(x._match_at(e - s - len(p), chars_of(p)))

    def removeprefix(self, p):
        if bool(self.startswith(p)):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if len(p) and bool(self.endswith(p)):
            return self[:len(self) - len(p)]
        return self

    def replace(self, old, new, count=-1):
        old, new = chars_of(old), chars_of(new)
        ch = self.chars
        out = []
        i = 0
        n = 0
        count = idx(count)
        if not old:
            for c in ch:
                if count < 0 or n < count:
                    out += new
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out += new
            return mkstr(out)
        while i < len(ch):
            if (count < 0 or n < count) and i + len(old) <= len(ch) and \
                    core.CTX.decide(self._match_at(i, old)):
                out += new
                i += len(old)
                n += 1
            else:
                out.append(ch[i])
                i += 1
        return mkstr(out)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        maxsplit = idx(maxsplit)
        if sep is not None and len(sep) == 1 and isinstance(sep, str):
            return LazySplit(SplitState(self, sep, maxsplit), 0)
        if sep is None:
            return self._split_ws(maxsplit)
        if len(sep) == 0:
            raise ValueError("empty separator")
        out = []
        i = start = 0
        sc = chars_of(sep)
        ch = self.chars
        while i < len(ch):
            if (maxsplit < 0 or len(out) < maxsplit) and core.CTX.decide(self._match_at(i, sc)):
                out.append(mkstr(ch[start:i]))
                i += len(sc)
                start = i
            else:
                i += 1
        out.append(mkstr(ch[start:]))
        return out

    def _split_ws(self, maxsplit):
        ws = cs.by_predicate("space")
        out = []
        cur = None
        ch = self.chars
        i = 0
        n = len(ch)
        while True:
            while i < n and core.CTX.decide(inset(ch[i], ws)):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                rest = mkstr(ch[i:])
                out.append(rest.rstrip())
                break
            j = i
            while j < n and not core.CTX.decide(inset(ch[j], ws)):
                j += 1
            out.append(mkstr(ch[i:j]))
            i = j
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = idx(maxsplit)
        if maxsplit < 0:
            return list(self.split(sep))
        if sep is None:
            return concretize(self).rsplit(None, maxsplit)
        out = []
        ch = self.chars
        sc = chars_of(sep)
        end = i = len(ch)
        while i >= len(sc) and len(out) < maxsplit:
            if core.CTX.decide(self._match_at(i - len(sc), sc)):
                out.append(mkstr(ch[i:end]))
                i -= len(sc)
                end = i
            else:
                i -= 1
        out.append(mkstr(ch[:end]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        brk = cs.from_chars("\n\r\x0b\x0c\x1c\x1d\x1e\x85  ")
        if not any(core.CTX.decide(inset(c, brk)) for c in self.chars):
            return [self]
        return concretize(self).splitlines(keepends)

    def _stripset(self, chars):
        if chars is None:
            rs = cs.by_predicate("space")
            return lambda c: inset(c, rs)
        cl = chars_of(chars)
        return lambda c: z_or([cheq(c, x) for x in cl])

    def lstrip(self, chars=None):
        f = self._stripset(chars)
        ch = self.chars
        i = 0
        while i < len(ch) and core.CTX.decide(f(ch[i])):
            i += 1
        return mkstr(ch[i:])

    def rstrip(self, chars=None):
        f = self._stripset(chars)
        ch = self.chars
        i = len(ch)
        while i > 0 and core.CTX.decide(f(ch[i - 1])):
            i -= 1
        return mkstr(ch[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if len(r) else r

    # ---- classification
    def _all(self, name):
        if not len(self.chars):
            return False
        rs = cs.by_predicate(name)
        return mkbool(z_and([inset(c, rs) for c in self.chars]))

    def isdigit(self):
        return self._all("digit")

    def isdecimal(self):
        return self._all("decimal")

    def isnumeric(self):
        return self._all("numeric")

    def isalpha(self):
        return self._all("alpha")

    def isalnum(self):
        return self._all("alnum")

    def isspace(self):
        return self._all("space")

    def isascii(self):
        return mkbool(z_and([inset(c, ((0, 127),)) for c in self.chars]))

    def isprintable(self):
        rs = cs.by_predicate("printable")
        return mkbool(z_and([inset(c, rs) for c in self.chars]))

    def isupper(self):
        up, low = cs.by_predicate("upper"), cs.by_predicate("lower")
        return mkbool(z_and([z_or([inset(c, up) for c in self.chars]),
                             z_not(z_or([inset(c, low) for c in self.chars]))]))

    def islower(self):
        up, low = cs.by_predicate("upper"), cs.by_predicate("lower")
        return mkbool(z_and([z_or([inset(c, low) for c in self.chars]),
                             z_not(z_or([inset(c, up) for c in self.chars]))]))

    # ---- mapping
    def _case(self, upper):
        out = []
        for c in self.chars:
            out += case_ch(c, upper)
        return mkstr(out)

    def upper(self):
        return self._case(True)

    def lower(self):
        return self._case(False)

    casefold = lower

    def swapcase(self):
        out = []
        for c in self.chars:
            if core.CTX.decide(inset(c, cs.by_predicate("upper"))):
                out += case_ch(c, False)
            else:
                out += case_ch(c, True)
        return mkstr(out)

    def translate(self, table):
        from . import models
        out = []
        for c in self.chars:
            k = ch_int(c)
            try:
                v = models.getitem(table, k)
            except (LookupError):
                out.append(c)
                continue
            if v is None:
                continue
            if isinstance(v, (int, SymInt)):
                out.append(models.m_chr(v) if isinstance(v, int) else chars_of(models.m_chr(v))[0])
            else:
                out += chars_of(v)
        return mkstr(out)

    # ---- padding
    def _pad(self, w, fill, left, right):
        return mkstr([fill] * left + self.chars + [fill] * right)

    def ljust(self, w, fill=" "):
        return self._pad(w, fill, 0, max(0, idx(w) - len(self)))

    def rjust(self, w, fill=" "):
        return self._pad(w, fill, max(0, idx(w) - len(self)), 0)

    def center(self, w, fill=" "):
        pad = max(0, idx(w) - len(self))
        left = pad // 2 + (pad & idx(w) & 1)
        return self._pad(w, fill, left, pad - left)

    def zfill(self, w):
        n = max(0, idx(w) - len(self))
        ch = self.chars
        if n and ch and core.CTX.decide(inset(ch[0], cs.from_chars("+-"))):
            return mkstr([ch[0]] + ["0"] * n + ch[1:])
        return mkstr(["0"] * n + ch)

    def join(self, it):
        from . import models
        return models.str_join(self, it)

    def encode(self, encoding="utf-8", errors="strict"):
        for c in self.chars:
            if not core.CTX.decide(inset(c, ((0, 127),))):
                return concretize(self).encode(encoding, errors)
        return mkbytes([ch_int(c) for c in self.chars])

    def format(self, *a, **k):
        from . import models
        return models.str_format(self, a, k)


def case_ch(c, upper):
    if isinstance(c, str):
        return list(c.upper() if upper else c.lower())
    if c.src is not None and c.src[0] == "hex":
        if c.src[2] == upper:
            return [c]
        return [hexch(c.src[1], upper)]
    if not core.CTX.decide(inset(c, ((0, 127),))):
        return _case_wide(c, upper)
    rng = ((97, 122),) if upper else ((65, 90),)
    q = inset(c, rng)
    if q is False:
        return [c]
    w = 7
    t = _ext(c.t, False, max(w, c.t.size()))
    new = t - 32 if upper else t + 32
    dom = None
    if c.dom is not None:
        dom = frozenset(ord(chr(k).upper() if upper else chr(k).lower()) for k in c.dom if k < 128)
        lo, hi = min(dom), max(dom)
    else:
        lo, hi = (min(c.lo, 65) if upper else c.lo), min(127, max(c.hi, 122) if not upper else c.hi)
    r = new if q is True else z3.If(q, new, t)
    return [mkch(r, lo, hi, dom)]


def _case_wide(c, upper):
    """upper()/lower() of a character known to lie outside ASCII."""
    deltas, longer = cs.case_groups(upper)
    t = _ext(c.t, False, max(21, c.t.size()))
    for n, table in sorted(longer.items()):
        if core.CTX.decide(inset(c, cs.norm([(k, k) for k in table]))):
            out = []
            for j in range(n):
                r = z3.BitVecVal(0, t.size())
                for k, text in table.items():
                    r = z3.If(t == k, z3.BitVecVal(ord(text[j]), t.size()), r)
                dom = frozenset(ord(text[j]) for text in table.values())
                out.append(mkch(r, min(dom), max(dom), dom))
            return out
    r = t
    for d, ranges in deltas.items():
        q = inset(c, ranges)
        if q is not False:
            r = t + d if q is True else z3.If(q, t + d, r)
    if r is t:
        return [c]
    return [mkch(r, 0, cs.MAX, None)]


def str_contains(s, sub):
    if isinstance(s, str):
        s = SymStr(list(s))
    sub = chars_of(sub)
    n = len(s.chars)
    return mkbool(z_or([s._match_at(i, sub) for i in range(0, n - len(sub) + 1)]))


def idx(i):
    """Concrete index of an int-like value."""
    if i is None or type(i) is int:
        return i
    return i.__index__()


class SymDec(SymStr):
    """Digits of a symbolic integer without padding (str, bin, hex, oct, format);
    expanded to characters, which fixes their number, only when needed."""

    def __init__(self, n, base=10, upper=False, prefix=""):
        self.n = n
        self.base = base
        self.upper_ = upper
        self.prefix = prefix          # e.g. "0b"; only with n >= 0
        self._chars = None

    @property
    def chars(self):
        if self._chars is None:
            from . import models
            self._chars = list(self.prefix) + models.int_digits(self.n, self.base, 0, self.upper_)
        return self._chars

    def lazy(self):
        """Neither expanded nor of a number that may be negative."""
        return self._chars is None and (self.n.lo >= 0 or bool(self.n >= 0))

    def digits(self, k):
        from . import models
        return models.int_digits(self.n, self.base, k, self.upper_)

    def length(self):
        """len() as a term."""
        n = self.n
        lo, hi = num_len(n.lo, self.base), num_len(n.hi, self.base)
        p = len(self.prefix)
        if lo == hi:
            return lo + p
        w = _width(p + lo, p + hi)
        t = z3.BitVecVal(p + hi, w)
        for k in range(hi - 1, lo - 1, -1):
            t = z3.If(_bz(n < self.base ** k), z3.BitVecVal(p + k, w), t)
        return SymInt(t, p + lo, p + hi, ("numlen", self))

    def __eq__(self, o):
        if isinstance(o, str) and o == "":
            return False
        if isinstance(o, SymDec) and self._chars is None and o._chars is None and \
                (self.base, self.prefix) == (o.base, o.prefix) and (self.base <= 10 or self.upper_ == o.upper_):
            return self.n == o.n
        if self._chars is None and self.base in (2, 10) and not self.prefix and self.n.lo >= 0 \
                and isinstance(o, (str, SymStr)):
            d = chars_of(o)
            k = len(d)
            ok = z_and([inset(c, ((48, 47 + self.base),)) for c in d])
            if ok is False or k == 0:
                return False
            v = int_of_digits(d) if self.base == 10 else int_of_bits(d)
            return mkbool(z_and([ok, boolterm(self.n == v)] +
                                ([boolterm(self.n >= self.base ** (k - 1))] if k > 1 else [])))
        return SymStr.__eq__(self, o)

    def __ne__(self, o):
        return sx_not(self == o)

    __hash__ = SymStr.__hash__

    def __bool__(self):
        return True

    def __add__(self, o):
        if isinstance(o, str) and o == "":
            return self
        return SymStr.__add__(self, o)

    def __radd__(self, o):
        if isinstance(o, str) and o == "":
            return self
        return SymStr.__radd__(self, o)

    def __getitem__(self, i):
        if self._chars is None and isinstance(i, slice) and i.step in (None, 1):
            k = len(self.prefix)
            if i.stop is None and isinstance(i.start, int) and 0 <= i.start <= k:
                return SymDec(self.n, self.base, self.upper_, self.prefix[i.start:])
            if i.start is None and isinstance(i.stop, int) and 0 <= i.stop <= k:
                return self.prefix[:i.stop]
        return SymStr.__getitem__(self, i)

    def removeprefix(self, p):
        if self._chars is None and isinstance(p, str) and p and self.prefix.startswith(p):
            return self[len(p):]
        return SymStr.removeprefix(self, p)

    def replace(self, old, new, count=-1):
        # a letter such as the "b" of "0b" occurs once
        if self._chars is None and self.base in (2, 8) and old and old == self.prefix and new == "" and count:
            return self[len(old):]
        return SymStr.replace(self, old, new, count)

    def split(self, sep=None, maxsplit=-1):
        if self._chars is None and self.base in (2, 8) and self.prefix and sep and maxsplit and \
                sep in (self.prefix, self.prefix[1:]):
            return [self.prefix[:len(self.prefix) - len(sep)], self[len(self.prefix):]]
        return SymStr.split(self, sep, maxsplit)

    def partition(self, sep):
        if self._chars is None and self.base in (2, 8) and self.prefix and sep in (self.prefix, self.prefix[1:]):
            a, b = self.split(sep)
            return (a, sep, b)
        return SymStr.partition(self, sep)

    def upper(self):
        if self._chars is None:
            return SymDec(self.n, self.base, True, self.prefix.upper())
        return SymStr.upper(self)

    def lower(self):
        if self._chars is None:
            return SymDec(self.n, self.base, False, self.prefix.lower())
        return SymStr.lower(self)

    def _isnum(self):
        if self.base > 10:
            return SymStr.isdigit(self)
        return self.n >= 0 if not self.prefix else self.prefix.isdigit()

    isdigit = isnumeric = isdecimal = _isnum

    def zfill(self, w):
        if not self.prefix and self.lazy():
            return mkstr(self.digits(idx(w)))
        return SymStr.zfill(self, w)

    def rjust(self, w, fill=" "):
        if fill == "0" and not self.prefix and self.lazy():
            return self.zfill(w)
        return SymStr.rjust(self, w, fill)

    def lstrip(self, chars=None):
        if self._chars is None and not self.prefix and chars == "0" and self.n.lo > 0:
            return self
        return SymStr.lstrip(self, chars)


class SymZeros(SymStr):
    """"0" * (w - len(num)): the padding written out by hand."""

    def __init__(self, num, w):
        self.num = num
        self.pad = w
        self._chars = None

    @property
    def chars(self):
        if self._chars is None:
            self._chars = ["0"] * (self.pad - len(self.num.chars))
        return self._chars

    def glue(self, o):
        """self + o where o begins with the number padded, else None."""
        if self._chars is None and o is self.num and not o.prefix and o.lazy():
            return o.digits(self.pad)

    def __add__(self, o):
        g = self.glue(o)
        if g is not None:
            return mkstr(g)
        return SymStr.__add__(self, o)


def num_len(n, base):
    k = 1
    while n >= base ** k:
        k += 1
    return k


def _bz(x):
    t = boolterm(x)
    return z3.BoolVal(t) if isinstance(t, bool) else t


class SplitState:
    """Scanner shared by the pieces of one split."""

    def __init__(self, src, sep, maxsplit):
        self.src = src
        self.sep = sep
        self.maxsplit = maxsplit
        self.ends = []
        self.scan = 0
        self.final = None

    def step(self):
        c = self.src.at(self.scan)
        if c is None:
            self.final = self.scan
            return
        if (self.maxsplit < 0 or len(self.ends) < self.maxsplit) and core.CTX.decide(cheq(c, self.sep)):
            self.ends.append(self.scan)
        self.scan += 1

    def has(self, k):
        while len(self.ends) < k and self.final is None:
            self.step()
        return len(self.ends) >= k

    def start(self, k):
        return 0 if k == 0 else self.ends[k - 1] + 1

    def piece(self, k):
        s = self.start(k)
        if len(self.ends) > k:
            return mkstr([self.src.at(i) for i in range(s, self.ends[k])])
        if self.final is not None:
            return mkstr([self.src.at(i) for i in range(s, self.final)])
        return LazyPiece(self, k)


class LazyPiece(SymStr):
    def __init__(self, state, k):
        self.state = state
        self.k = k
        self._chars = None

    def at(self, i):
        if self._chars is not None:
            return self._chars[i] if i < len(self._chars) else None
        st = self.state
        p = st.start(self.k) + i
        while st.scan <= p and st.final is None and len(st.ends) <= self.k:
            st.step()
        if len(st.ends) > self.k:
            return st.src.at(p) if p < st.ends[self.k] else None
        if st.final is not None:
            return st.src.at(p) if p < st.final else None
        return st.src.at(p)

    @property
    def chars(self):
        if self._chars is None:
            out = []
            i = 0
            while True:
                c = self.at(i)
                if c is None:
                    break
                out.append(c)
                i += 1
            self._chars = out
        return self._chars


class LazySplit:
    """Result of str.split as list stand-in, scanned on demand."""

    def __init__(self, state, off):
        self.state = state
        self.off = off
        self.forced = None

    def force(self):
        if self.forced is None:
            out = []
            k = self.off
            while self.state.has(k):
                out.append(self.state.piece(k))
                k += 1
            self.forced = out
        return self.forced

    def rejoin(self, sep):
        """sep.join(self) when that is a suffix of the source, else None."""
        if self.forced is not None or sep != self.state.sep:
            return None
        if not self.state.has(self.off):
            return ""
        s = self.state.start(self.off)
        out = []
        i = s
        while True:
            c = self.state.src.at(i)
            if c is None:
                break
            out.append(c)
            i += 1
        return mkstr(out)

    def unpack(self, n, star):
        if self.forced is not None:
            return self.forced
        out = []
        for i in range(n):
            if not self.state.has(self.off + i):
                raise ValueError("not enough values to unpack (expected %s%d, got %d)" % (
                    "at least " if star else "", n, i))
            out.append(None)
        if star:
            rest = LazySplit(self.state, self.off + n)
            out = [self.state.piece(self.off + i) for i in range(n)]
            return out, rest
        if self.state.has(self.off + n):
            raise ValueError("too many values to unpack (expected %d)" % n)
        return [self.state.piece(self.off + i) for i in range(n)]

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        return self.state.has(self.off) if self.forced is None else bool(self.forced)

    def __iter__(self):
        if self.forced is not None:
            yield from self.forced
            return
        k = self.off
        while self.state.has(k):
            yield self.state.piece(k)
            k += 1

    def __getitem__(self, i):
        if self.forced is not None:
            return self.forced[i if isinstance(i, slice) else idx(i)]
        if isinstance(i, slice):
            a, b, s = idx(i.start), idx(i.stop), idx(i.step)
            if s in (None, 1) and (a is None or a >= 0):
                a = a or 0
                if b is None:
                    return LazySplit(self.state, self.off + a) if self.state.has(self.off + a) or True else []
                if b >= 0:
                    out = []
                    for k in range(a, b):
                        if not self.state.has(self.off + k):
                            break
                        out.append(k)
                    return [self.state.piece(self.off + k) for k in out]
            return self.force()[slice(a, b, s)]
        i = idx(i)
        if i >= 0:
            if not self.state.has(self.off + i):
                raise IndexError("list index out of range")
            return self.state.piece(self.off + i)
        return self.force()[i]

    def __eq__(self, o):
        return self.force() == (o.force() if isinstance(o, LazySplit) else o)

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __contains__(self, x):
        from . import models
        return bool(models.contains(self.force(), x))

    def __add__(self, o):
        return self.force() + list(o)

    def __radd__(self, o):
        return list(o) + self.force()

    def __mul__(self, n):
        return self.force() * n

    def __setitem__(self, i, v):
        self.force()[i] = v

    def __delitem__(self, i):
        del self.force()[i]

    def __reversed__(self):
        return reversed(self.force())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.force(), name)


# ---------------------------------------------------------------- bytes


def mkbytes(vals):
    if all(isinstance(v, int) for v in vals):
        return bytes(vals)
    return SymBytes(list(vals))


class SymBytes:
    def __init__(self, vals):
        self.vals = vals

    def __len__(self):
        return len(self.vals)

    def __iter__(self):
        return iter(self.vals)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.vals[i])
        return self.vals[idx(i)]

    def __add__(self, o):
        return mkbytes(self.vals + list(o))

    def __radd__(self, o):
        return mkbytes(list(o) + self.vals)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)) or len(o) != len(self):
            return False
        return mkbool(z_and([boolterm(a == b) for a, b in zip(self.vals, o)]))

    def __ne__(self, o):
        return sx_not(self == o)

    def __hash__(self):
        return 0

    def hex(self, *a):
        if a:
            return concretize(self).hex(*a)
        out = []
        for v in self.vals:
            b = int_bits(v, 8)
            out += [hexch(b[:4], False), hexch(b[4:], False)]
        return mkstr(out)

    def decode(self, encoding="utf-8", errors="strict"):
        from . import models
        out = []
        for v in self.vals:
            if not isinstance(v, int) and not core.CTX.decide(boolterm(v < 128)):
                return concretize(self).decode(encoding, errors)
            if isinstance(v, int) and v >= 128:
                return concretize(self).decode(encoding, errors)
            out += chars_of(models.m_chr(v))
        return mkstr(out)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(bytes, name):
            def f(*a, **k):
                return getattr(concretize(self), name)(*concretize(a), **concretize(k))
            return f
        raise AttributeError(name)


# ---------------------------------------------------------------- enum members


class SymMember:
    """An unspecified member of an Enum class; value is symbolic."""

    def __init__(self, enum, value):
        self.enum = enum
        self.value = value
        self.known = None

    @property
    def _value_(self):
        return self.value

    def resolve(self):
        if self.known is None:
            for m in self.enum:
                r = self.value == m.value
                if r is True or (r is not False and core.CTX.decide(r.t)):
                    self.known = m
                    break
            else:
                raise core.PathInfeasible()
        return self.known

    @property
    def name(self):
        return self.resolve().name

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SymMember):
            return self.enum is o.enum and self.value == o.value
        if isinstance(o, self.enum):
            return self.value == o.value
        return False

    def __ne__(self, o):
        return sx_not(self == o)

    def __hash__(self):
        return hash(self.resolve())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.resolve(), name)


class SymSet:
    """A set with symbolic members: values with the conditions under which
    they belong to it."""

    def __init__(self, items):
        self.items = items            # (condition, value)

    @staticmethod
    def of(x):
        if isinstance(x, SymSet):
            return x.items
        if isinstance(x, LazySplit):
            x = x.force()
        return [(True, v) for v in x]

    def has(self, v):
        from . import models
        return z_or([z_and([t, models.truth_eq(x, v)]) for t, x in self.items])

    def members(self):
        """The distinct members, by forking."""
        out = []
        from . import models
        for t, v in self.items:
            if core.CTX.decide(t) and not any(core.CTX.decide(models.truth_eq(v, w)) for w in out):
                out.append(v)
        self.items = [(True, v) for v in out]
        return out

    def __iter__(self):
        return iter(self.members())

    def __len__(self):
        return len(self.members())

    def __bool__(self):
        return bool(mkbool(self.nonempty()))

    def nonempty(self):
        return z_or([t for t, _v in self.items])

    def _sub(self, o):
        o = SymSet(SymSet.of(o))
        return SymSet([(z_and([t, z_not(o.has(v))]), v) for t, v in self.items])

    def _and(self, o):
        o = SymSet(SymSet.of(o))
        return SymSet([(z_and([t, o.has(v)]), v) for t, v in self.items])

    def difference(self, *others):
        r = self
        for o in others:
            r = r._sub(o)
        return r

    def intersection(self, *others):
        r = self
        for o in others:
            r = r._and(o)
        return r

    def union(self, *others):
        return SymSet([x for o in (self,) + others for x in SymSet.of(o)])

    def issubset(self, o):
        return mkbool(z_not(self._sub(o).nonempty()))

    def issuperset(self, o):
        return mkbool(z_not(SymSet(SymSet.of(o))._sub(self).nonempty()))

    def isdisjoint(self, o):
        return mkbool(z_not(self._and(o).nonempty()))

    def symmetric_difference(self, o):
        return self._sub(o).union(SymSet(SymSet.of(o))._sub(self))

    def copy(self):
        return SymSet(list(self.items))

    @staticmethod
    def _effect():
        if core.CTX.guards:
            raise core.SpecAbort()

    def add(self, v):
        self._effect()
        self.items = self.items + [(True, v)]

    def update(self, *others):
        self._effect()
        self.items = self.union(*others).items

    def discard(self, v):
        self._effect()
        self.items = self._sub([v]).items

    def __sub__(self, o):
        return self._sub(o) if isinstance(o, SETS) else NotImplemented

    def __rsub__(self, o):
        return SymSet(SymSet.of(o))._sub(self) if isinstance(o, SETS) else NotImplemented

    def __and__(self, o):
        return self._and(o) if isinstance(o, SETS) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return self.union(o) if isinstance(o, SETS) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return self.symmetric_difference(o) if isinstance(o, SETS) else NotImplemented

    __rxor__ = __xor__

    def __le__(self, o):
        return self.issubset(o) if isinstance(o, SETS) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if isinstance(o, SETS) else NotImplemented

    def __eq__(self, o):
        if not isinstance(o, SETS):
            return False
        return mkbool(z_and([boolterm(self.issubset(o)), boolterm(self.issuperset(o))]))

    def __ne__(self, o):
        return sx_not(self == o)

    def __lt__(self, o):
        return mkbool(z_and([boolterm(self <= o), boolterm(self != o)])) if isinstance(o, SETS) else NotImplemented

    def __gt__(self, o):
        return mkbool(z_and([boolterm(self >= o), boolterm(self != o)])) if isinstance(o, SETS) else NotImplemented

    def __hash__(self):
        return 0


SETS = (SymSet, set, frozenset, type({}.keys()))
SYM = (SymSet, SymStr, SymInt, SymBool, SymBytes, LazySplit, SymMember)


def is_sym(x):
    return isinstance(x, SYM)


def deep_sym(x, depth=3):
    if isinstance(x, SYM):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(deep_sym(y, depth - 1) for y in x.values()) or any(is_sym(y) for y in x)
    return False


def model_value(m, x):
    """Concrete value of x under model m."""
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.t, model_completion=True))
    if isinstance(x, SymInt):
        return model_int(m, x)
    if isinstance(x, SymDec) and x._chars is None:
        n = model_int(m, x.n)
        d = {2: "b", 8: "o", 10: "d", 16: "X" if x.upper_ else "x"}[x.base]
        return x.prefix + format(n, d)
    if isinstance(x, SymStr):
        return "".join(c if isinstance(c, str) else chr(m.eval(c.t, model_completion=True).as_long())
                       for c in x.chars)
    if isinstance(x, SymBytes):
        return bytes(model_int(m, v) for v in x.vals)
    if isinstance(x, SymSet):
        return {model_value(m, v) for t, v in x.items if model_value(m, mkbool(t)) is True}
    if isinstance(x, LazySplit):
        return [model_value(m, y) for y in x.force()]
    if isinstance(x, SymMember):
        v = model_value(m, x.value)
        for e in x.enum:
            if e.value == v:
                return e
        return v
    if isinstance(x, (list, tuple)):
        return type(x)(model_value(m, y) for y in x)
    if isinstance(x, dict):
        return {model_value(m, k): model_value(m, v) for k, v in x.items()}
    return x


def concretize(x):
    """Pin x to one value (bounds the path; recorded)."""
    if isinstance(x, (list, tuple)):
        if not deep_sym(x):
            return x
        return type(x)(concretize(y) for y in x)
    if isinstance(x, dict):
        if not deep_sym(x):
            return x
        return {concretize(k): concretize(v) for k, v in x.items()}
    if not isinstance(x, SYM):
        return x
    c = core.CTX
    if c.guards:
        raise core.SpecAbort()
    if isinstance(x, SymMember):
        return x.resolve()
    if isinstance(x, LazySplit):
        return concretize(x.force())
    v = c.pick(lambda: model_value(c.need_model(), x))
    r = x == v
    if r is not True:
        c.partial = True
        core.STATS.concretized += 1
        if not c.decide(r.t):
            # replaying the other side of this decision: pick again
            return concretize(x)
    return v


def ite(c, a, b):
    """Merge two values under condition c (z3 Bool); SpecAbort if impossible."""
    if a is b:
        return a
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        ca, cb = chars_of(a), chars_of(b)
        if len(ca) != len(cb):
            raise core.SpecAbort()
        return mkstr([ite_ch(c, x, y) for x, y in zip(ca, cb)])
    ba, bb = isinstance(a, (bool, SymBool)), isinstance(b, (bool, SymBool))
    if ba and bb:
        ta, tb = boolterm(a), boolterm(b)
        if ta is tb:
            return a
        return mkbool(z_or([z_and([c, ta]), z_and([z_not(c), tb])]))
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and not ba and not bb:
        if isinstance(a, int) and isinstance(b, int) and a == b and type(a) is type(b):
            return a
        if type(a) not in (int, SymInt) or type(b) not in (int, SymInt):
            raise core.SpecAbort()
        lo, hi = min(lo_(a), lo_(b)), max(hi_(a), hi_(b))
        w = _width(lo, hi)
        at = z3.BitVecVal(a, w) if isinstance(a, int) else a.term(w)
        bt = z3.BitVecVal(b, w) if isinstance(b, int) else b.term(w)
        if at.eq(bt):
            return a
        return mkint(z3.If(c, at, bt), lo, hi)
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if type(a) is list and type(b) is list and len(a) == len(b):
        return [ite(c, x, y) for x, y in zip(a, b)]
    if a is None and b is None:
        return None
    raise core.SpecAbort()
