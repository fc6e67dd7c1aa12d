"""Python regular expressions over symbolic strings.

The pattern is taken from the compiled pattern object the code under test
uses (parsed with the interpreter's own parser).  Acceptance is computed as
one condition over all characters (position sets with conditions); group
contents are found by a backtracking matcher that follows the interpreter's
preference order and asks the path context about every character test."""
import functools
import re
import sys
import warnings

from . import core
from . import charset as cs
from .core import z_and, z_or, z_not
from .terms import (SymStr, SymBool, chars_of, mkstr, inset, mkbool, concretize, idx, cheq)

import re._parser as sre_parse
import re._constants as C

sys.setrecursionlimit(100000)

_parsed = {}


def parse(p):
    r = _parsed.get((p.pattern, p.flags))
    if r is None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            flags = p.flags
            r = sre_parse.parse(p.pattern, flags & ~re.DEBUG)
        _parsed[(p.pattern, p.flags)] = r
    return r


CATS = {
    C.CATEGORY_DIGIT: ("decimal", False), C.CATEGORY_NOT_DIGIT: ("decimal", True),
    C.CATEGORY_SPACE: ("space", False), C.CATEGORY_NOT_SPACE: ("space", True),
    C.CATEGORY_WORD: ("word", False), C.CATEGORY_NOT_WORD: ("word", True),
}


@functools.lru_cache(None)
def category(cat, ascii_):
    name, neg = CATS[cat]
    if ascii_:
        if name == "space":
            r = cs.from_chars(" \t\n\r\f\v")
        else:
            r = cs.ascii_only(cs.by_predicate(name))
    else:
        r = cs.by_predicate(name)
    return cs.complement(r) if neg else r


@functools.lru_cache(None)
def ignorecase(ranges, ascii_):
    out = list(ranges)
    if sum(hi - lo + 1 for lo, hi in ranges) > 5000:
        ext = ranges
    low = set()
    for lo, hi in ranges:
        for k in range(lo, min(hi, 0x1FFFF) + 1):
            low.add(chr(k).lower() if not ascii_ or k < 128 else chr(k))
    for k in range(0x1FFFF if not ascii_ else 128):
        if chr(k).lower() in low:
            out.append((k, k))
    # the extra equivalences of the sre engine
    if not ascii_:
        for a, b in (("i", "ı"), ("s", "ſ"), ("µ", "μ")):
            if a in low or b in low:
                out += [(ord(a), ord(a)), (ord(b), ord(b))]
    return cs.norm(out)


_sets = {}
ONECHAR = {C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN}


def node_ranges(op, av, flags):
    """Range set of a one-character node, or None."""
    if op not in ONECHAR:
        return None
    key = (op, av if not isinstance(av, list) else tuple(av), flags & (re.I | re.A | re.S))
    r = _sets.get(key)
    if r is not None:
        return r
    a = bool(flags & re.ASCII)
    if op is C.LITERAL:
        r = ((av, av),)
        if flags & re.I:
            r = ignorecase(r, a)
    elif op is C.NOT_LITERAL:
        r = ((av, av),)
        if flags & re.I:
            r = ignorecase(r, a)
        r = cs.complement(r)
    elif op is C.ANY:
        r = ((0, cs.MAX),) if flags & re.S else cs.complement(((10, 10),))
    elif op is C.IN:
        neg = False
        rs = []
        for o, x in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                rs.append((x, x))
            elif o is C.RANGE:
                rs.append(x)
            elif o is C.CATEGORY:
                rs += category(x, a)
            else:
                raise core.PathBudget("regex set %s" % o)
        r = cs.norm(rs)
        if flags & re.I:
            r = ignorecase(r, a)
        if neg:
            r = cs.complement(r)
    else:
        return None
    _sets[key] = r
    return r


def at_cond(av, chars, i, flags):
    n = len(chars)
    nl = ((10, 10),)
    if av is C.AT_BEGINNING_STRING or (av is C.AT_BEGINNING and not flags & re.M):
        return i == 0
    if av is C.AT_BEGINNING:
        return True if i == 0 else inset(chars[i - 1], nl)
    if av is C.AT_END_STRING:
        return i == n
    if av is C.AT_END:
        if i == n:
            return True
        if flags & re.M:
            return inset(chars[i], nl)
        return inset(chars[i], nl) if i == n - 1 else False
    if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
        w = category(C.CATEGORY_WORD, bool(flags & re.A))
        a = inset(chars[i - 1], w) if i > 0 else False
        b = inset(chars[i], w) if i < n else False
        x = z_or([z_and([a, z_not(b)]), z_and([z_not(a), b])])
        return x if av is C.AT_BOUNDARY else z_not(x)
    raise core.PathBudget("regex at %s" % av)


class NoDP(Exception):
    pass


# ------------------------------------------------------------ acceptance


def _merge(d, pos, cond):
    if cond is False:
        return
    o = d.get(pos)
    if o is None:
        d[pos] = cond
    elif o is True or cond is True:
        d[pos] = True
    else:
        d[pos] = z_or([o, cond])


def _limit(chars, i):
    """Concrete length if the string end is not needed: chars may be lazy."""
    return i < len(chars)


def dp_seq(seq, st, chars, flags):
    for op, av in seq:
        if not st:
            return st
        st = dp_node(op, av, st, chars, flags)
    return st


def dp_node(op, av, st, chars, flags):
    rs = node_ranges(op, av, flags)
    out = {}
    if rs is not None:
        for i, c in st.items():
            if i < len(chars):
                _merge(out, i + 1, z_and([c, inset(chars[i], rs)]))
        return out
    if op is C.BRANCH:
        for alt in av[1]:
            for i, c in dp_seq(alt, st, chars, flags).items():
                _merge(out, i, c)
        return out
    if op is C.SUBPATTERN:
        _g, add, rem, p = av
        return dp_seq(p, st, chars, (flags | add) & ~rem)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, p = av
        cur = st
        for _ in range(lo):
            cur = dp_seq(p, cur, chars, flags)
            if not cur:
                return cur
        for i, c in cur.items():
            _merge(out, i, c)
        if hi is C.MAXREPEAT or hi - lo > len(chars):
            todo = sorted(out)
            pend = dict(out)
            while pend:
                i = min(pend)
                c = pend.pop(i)
                nxt = dp_seq(p, {i: out[i]}, chars, flags)
                for j, d in nxt.items():
                    if j > i:
                        _merge(out, j, d)
                        pend[j] = True
            return out
        for _ in range(hi - lo):
            nxt = dp_seq(p, cur, chars, flags)
            if not nxt:
                break
            for j, d in nxt.items():
                _merge(out, j, d)
            cur = nxt
        return out
    if op is C.AT:
        for i, c in st.items():
            _merge(out, i, z_and([c, at_cond(av, chars, i, flags)]))
        return out
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, p = av
        for i, c in st.items():
            if direction > 0:
                ends = dp_seq(p, {i: True}, chars, flags)
                a = z_or(list(ends.values()))
            else:
                lo, hi = p.getwidth()
                if lo != hi or i - lo < 0:
                    a = False
                else:
                    a = dp_seq(p, {i - lo: True}, chars, flags).get(i, False)
            _merge(out, i, z_and([c, a if op is C.ASSERT else z_not(a)]))
        return out
    raise NoDP()


def accept(p, chars, kind):
    """Condition that pattern p fullmatches/matches/occurs in chars."""
    tree = parse(p)
    flags = tree.state.flags | p.flags
    if kind == "search":
        st = {i: True for i in range(len(chars) + 1)}
    else:
        st = {0: True}
    ends = dp_seq(tree, st, chars, flags)
    if kind == "fullmatch":
        return ends.get(len(chars), False)
    return z_or(list(ends.values()))


# ------------------------------------------------------------ backtracking


class Matcher:
    def __init__(self, p, s):
        self.p = p
        self.chars = chars_of(s)
        self.tree = parse(p)
        self.flags = self.tree.state.flags | p.flags

    def m_seq(self, seq, k, i, g, flags, cont):
        if k >= len(seq):
            return cont(i, g)
        op, av = seq[k]
        nxt = lambda j, g2: self.m_seq(seq, k + 1, j, g2, flags, cont)
        chars = self.chars
        rs = node_ranges(op, av, flags)
        if rs is not None:
            if i < len(chars) and core.CTX.decide(inset(chars[i], rs)):
                return nxt(i + 1, g)
            return None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m_seq(alt, 0, i, g, flags, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, add, rem, p = av
            fl = (flags | add) & ~rem

            def done(j, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                    g2["last"] = gid
                return nxt(j, g2)
            return self.m_seq(p, 0, i, g, fl, done)
        if op is C.MAX_REPEAT:
            lo, hi, p = av
            if len(p) == 1:
                rs = node_ranges(p[0][0], p[0][1], flags)
                if rs is not None:
                    n = 0
                    while (hi is C.MAXREPEAT or n < hi) and i + n < len(chars) and \
                            core.CTX.decide(inset(chars[i + n], rs)):
                        n += 1
                    while n >= lo:
                        r = nxt(i + n, g)
                        if r is not None:
                            return r
                        n -= 1
                    return None

            def rep(n, j, g2):
                if hi is C.MAXREPEAT or n < hi:
                    def again(j2, g3):
                        if j2 == j and n >= lo:
                            return None
                        return rep(n + 1, j2, g3)
                    r = self.m_seq(p, 0, j, g2, flags, again)
                    if r is not None:
                        return r
                if n >= lo:
                    return nxt(j, g2)
                return None
            return rep(0, i, g)
        if op is C.MIN_REPEAT:
            lo, hi, p = av

            def rep(n, j, g2):
                if n >= lo:
                    r = nxt(j, g2)
                    if r is not None:
                        return r
                if hi is C.MAXREPEAT or n < hi:
                    def again(j2, g3):
                        if j2 == j and n >= lo:
                            return None
                        return rep(n + 1, j2, g3)
                    return self.m_seq(p, 0, j, g2, flags, again)
                return None
            return rep(0, i, g)
        if op is C.AT:
            if core.CTX.decide(at_cond(av, chars, i, flags)):
                return nxt(i, g)
            return None
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            j = i
            if direction < 0:
                lo, _hi = p.getwidth()
                j = i - lo
            r = None
            if j >= 0:
                r = self.m_seq(p, 0, j, g, flags, lambda e, g2: (e, g2))
            if (r is not None) == (op is C.ASSERT):
                return nxt(i, r[1] if r is not None else g)
            return None
        if op is C.ATOMIC_GROUP:
            r = self.m_seq(av, 0, i, g, flags, lambda e, g2: (e, g2))
            return None if r is None else nxt(*r)
        if op is C.POSSESSIVE_REPEAT:
            lo, hi, p = av
            r = self.m_seq([(C.MAX_REPEAT, av)], 0, i, g, flags, lambda e, g2: (e, g2))
            return None if r is None else nxt(*r)
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            for t in range(b - a):
                if i + t >= len(chars) or not core.CTX.decide(cheq(chars[a + t], chars[i + t])):
                    return None
            return nxt(i + (b - a), g)
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            br = yes if gid in g else no
            if br is None:
                return nxt(i, g)
            return self.m_seq(br, 0, i, g, flags, nxt)
        raise core.PathBudget("regex op %s" % op)

    def at(self, i, full=False, not_empty=False):
        n = len(self.chars)

        def end(j, g):
            if full and j != n:
                return None
            if not_empty and j == i:
                return None
            return (j, g)
        r = self.m_seq(self.tree, 0, i, {}, self.flags, end)
        if r is None:
            return None
        return i, r[0], r[1]

    def search(self, start, not_empty=False):
        for i in range(start, len(self.chars) + 1):
            r = self.at(i, not_empty=not_empty and i == start)
            if r is not None:
                return r
        return None

    def finditer(self):
        pos = 0
        adv = False
        while True:
            r = self.search(pos, adv)
            if r is None:
                return
            yield r
            pos = r[1]
            adv = r[0] == r[1]


class SymMatch:
    def __init__(self, p, s, found=None, kind=None):
        self.re = p
        self.string = s
        self.kind = kind
        self._found = found

    def _get(self):
        if self._found is None:
            m = Matcher(self.re, self.string)
            if self.kind == "search":
                self._found = m.search(0)
            else:
                self._found = m.at(0, full=self.kind == "fullmatch")
            if self._found is None:
                raise core.PathInfeasible()
        return self._found

    def __bool__(self):
        return True

    def _gid(self, g):
        g = idx(g) if not isinstance(g, str) else self.re.groupindex[g] if g in self.re.groupindex else -1
        if g < 0 or g > self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        s, e, gs = self._get()
        g = self._gid(g)
        if g == 0:
            return s, e
        return gs.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        if a < 0:
            return default
        return mkstr(chars_of(self.string)[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    @property
    def pos(self):
        return 0

    @property
    def endpos(self):
        return len(self.string)

    @property
    def lastindex(self):
        return self._get()[2].get("last")

    @property
    def lastgroup(self):
        i = self.lastindex
        for k, v in self.re.groupindex.items():
            if v == i:
                return k
        return None

    def expand(self, template):
        return mkstr(expand(self.re, template, self))


def expand(p, template, m):
    t = sre_parse.parse_template(template, p)
    out = []
    if isinstance(t, tuple):
        # (groups, literals) layout
        groups, literals = t
        lits = list(literals)
        for i, g in groups:
            lits[i] = m._one(g, "")
        for x in lits:
            out += chars_of(x)
        return out
    for x in t:
        if isinstance(x, int):
            x = m._one(x, "")
        out += chars_of(x)
    return out


def run(p, name, s, *args, **kw):
    """Pattern method `name` on a (possibly) symbolic string."""
    from . import models
    if isinstance(s, str):
        s = SymStr(list(s))
    if name in ("fullmatch", "match", "search"):
        if args or kw:
            a = [idx(x) for x in args]
            st = a[0] if a else idx(kw.get("pos", 0))
            en = a[1] if len(a) > 1 else kw.get("endpos")
            if st:
                m = Matcher(p, SymStr(s.chars[:en]) if en is not None else s)
                r = m.search(st) if name == "search" else m.at(st, full=name == "fullmatch")
                return None if r is None else SymMatch(p, s, r)
            if en is not None:
                s = SymStr(s.chars[:idx(en)])
        try:
            cond = accept(p, s.chars, name)
        except NoDP:
            m = Matcher(p, s)
            r = m.search(0) if name == "search" else m.at(0, full=name == "fullmatch")
            return None if r is None else SymMatch(p, s, r)
        if core.CTX.decide(cond):
            return SymMatch(p, s, None, name)
        return None
    m = Matcher(p, s)
    if name == "finditer":
        return iter([SymMatch(p, s, r) for r in m.finditer()])
    if name == "findall":
        out = []
        for r in m.finditer():
            mm = SymMatch(p, s, r)
            if p.groups == 0:
                out.append(mm._one(0))
            elif p.groups == 1:
                out.append(mm._one(1, ""))
            else:
                out.append(mm.groups(""))
        return out
    if name == "split":
        maxsplit = idx(args[0] if args else kw.get("maxsplit", 0))
        out = []
        last = 0
        n = 0
        ch = s.chars
        for a, b, g in m.finditer() if maxsplit >= 0 else ():
            mm = SymMatch(p, s, (a, b, g))
            out.append(mkstr(ch[last:a]))
            out += list(mm.groups())
            last = b
            n += 1
            if n == maxsplit:
                break
        out.append(mkstr(ch[last:]))
        return out
    if name in ("sub", "subn"):
        raise AssertionError
    return getattr(p, name)(concretize(s), *args, **kw)


def sub(p, repl, s, count=0, want_n=False):
    from . import models
    if isinstance(s, str):
        s = SymStr(list(s))
    m = Matcher(p, s)
    count = idx(count)
    out = []
    last = 0
    n = 0
    ch = s.chars
    for a, b, g in m.finditer() if count >= 0 else ():
        mm = SymMatch(p, s, (a, b, g))
        out += ch[last:a]
        if callable(repl):
            out += chars_of(models.call(repl, mm))
        elif isinstance(repl, SymStr):
            if any(not isinstance(c, str) and core.CTX.decide(cheq(c, "\\")) or c == "\\" for c in repl.chars):
                repl = concretize(repl)
                out += expand(p, repl, mm)
            else:
                out += repl.chars
        else:
            out += expand(p, repl, mm)
        last = b
        n += 1
        if n == count:
            break
    out += ch[last:]
    r = mkstr(out)
    return (r, n) if want_n else r
