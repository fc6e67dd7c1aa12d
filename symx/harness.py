"""The interface harness code is written against, for symbolic execution.

The same harness functions run unchanged on the untouched library with
`ConcreteHarness` (symx/replay.py), which is how counterexamples and path
samples are replayed."""
import sys
import z3
from . import core, terms
from .core import STATS


class Outcome:
    """Result of a call that may raise."""
    __slots__ = ("ok", "value", "exc", "refused", "kind")

    def __init__(self, value=None, exc=None, refusal=None):
        self.ok = exc is None
        self.value = value
        self.exc = exc
        self.refused = exc is not None and isinstance(exc, refusal)
        self.kind = "ok" if exc is None else "refused" if self.refused else type(exc).__name__


class Failed(core.Control):
    def __init__(self, label, model):
        self.label = label
        self.model = model


class SymHarness:
    symbolic = True

    def __init__(self, ctx, refusal, restore=None):
        self.ctx = ctx
        self.restore = restore
        self.refusal = refusal
        self.observed = []
        self.candidates = []      # (label, model)
        self.unknown = []
        self.reached = 0

    def require(self, cond, label):
        c = self.ctx
        if c.guards:
            raise core.SpecAbort()
        STATS.obligations += 1
        self.reached += 1
        t = terms.boolterm(cond) if isinstance(cond, terms.SymBool) else bool(cond)
        if t is True:
            STATS.discharged_simplifier += 1
            return
        if t is False:
            m = c.get_model()
            if m is None:
                self.unknown.append(label)
            else:
                self.candidates.append((label, m))
            return
        r, m = c._check(z3.Not(t))
        if r == z3.unsat:
            STATS.discharged_solver += 1
            c._remember(t, True)
        elif r == z3.sat:
            self.candidates.append((label, m))
            # go on with the inputs that satisfy it
            c.add(t)
            c._remember(t, True)
            c.get_model()
        else:
            self.unknown.append(label)
            c.add(t)
            c._remember(t, True)
            c.get_model()

    def observe(self, label, value):
        if self.ctx.guards:
            raise core.SpecAbort()
        self.observed.append((label, value))

    def assume(self, cond):
        if self.ctx.guards:
            raise core.SpecAbort()
        t = cond.t if isinstance(cond, terms.SymBool) else bool(cond)
        self.ctx.assume(t)

    def attempt(self, fn):
        if self.ctx.guards:
            raise core.SpecAbort()
        try:
            v = fn()
        except Exception as e:
            return Outcome(None, e, self.refusal)
        return Outcome(v)

    def fresh(self, fn):
        """Value of fn() in a process in which nothing has happened yet; to be
        used before any other call into the library."""
        self.restore()
        v = fn()
        self.restore()
        return v

    def member(self, enum, value):
        if isinstance(value, str):
            for e in enum:
                if e.value == value:
                    return e
            raise KeyError(value)
        return terms.SymMember(enum, value)

    def same(self, a, b):
        """Structural equality of observed values (strings, None, tuples)."""
        from . import models
        return terms.mkbool(models.truth_eq(a, b))
