"""Path exploration and solver interface.

A case is executed repeatedly, once per path.  A run is driven by a list of
recorded decisions; beyond that list every undecided condition is put to the
solver, one side is taken and the other queued.
"""
import time
import z3


class Control(BaseException):
    """Base of engine-internal control transfers (never an Exception, so code
    under test cannot swallow them)."""


class SpecAbort(Control):
    """Speculative evaluation of both sides of a conditional is not possible."""


class PathInfeasible(Control):
    pass


class PathBudget(Control):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_time = 0.0
        self.paths = 0
        self.decisions = 0
        self.forced = 0
        self.merged = 0
        self.obligations = 0
        self.discharged_solver = 0
        self.discharged_simplifier = 0
        self.concretized = 0
        self.ruled_out = 0
        self.functions = set()

    def merge(self, o):
        for k, v in o.__dict__.items():
            if isinstance(v, set):
                getattr(self, k).update(v)
            else:
                setattr(self, k, getattr(self, k) + v)


STATS = Stats()
CTX = None
FIRST_TIMEOUT_MS = 3000
RETRY_TIMEOUT_MS = 20000
FORKS = None                      # debugging: set to a dict to count fork sites


def ctx():
    return CTX


_true = z3.BoolVal(True)


def z_and(args):
    out = []
    for a in args:
        if a is True:
            continue
        if a is False:
            return False
        out.append(a)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def z_or(args):
    out = []
    for a in args:
        if a is False:
            continue
        if a is True:
            return True
        out.append(a)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def z_not(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)


def z_lift(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a


class Violation(Control):
    """A harness requirement can fail; carries the model's inputs."""

    def __init__(self, label, model):
        self.label = label
        self.model = model


class Ctx:
    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.explorer = explorer
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", explorer.first_timeout)
        self.known = {}
        self.keep = []
        self.model = None
        self.guards = []          # active speculation guards
        self.spec_defs = []       # definitions made under speculation
        self.journal = None       # list mutations under speculation
        self.partial = False
        self.unknown = False
        self.cache = {}           # per path caches (digit expansions, ...)
        self.observed = []
        self.nfresh = 0
        self.deadline = explorer.deadline
        self.steps = 0
        self.max_steps = 200000

    # -- solver ------------------------------------------------------------
    def _check(self, *extra):
        t0 = time.perf_counter()
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        if r == z3.unknown:
            self.explorer.first_timeout = 300
            self.solver.set("timeout", 300)
            # once more from scratch: equations are then solved first
            s = z3.Then("simplify", "propagate-values", "solve-eqs", "qfbv").solver()
            s.set("timeout", RETRY_TIMEOUT_MS)
            s.add(*self.solver.assertions(), *extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
        STATS.queries += 1
        STATS.solver_time += time.perf_counter() - t0
        if r == z3.sat:
            STATS.sat += 1
        elif r == z3.unsat:
            STATS.unsat += 1
        else:
            STATS.unknown += 1
        if self.deadline and time.time() > self.deadline:
            raise PathBudget("time")
        return r, m

    def add(self, t):
        if t is True:
            return
        if t is False:
            t = z3.BoolVal(False)
        self.solver.add(t)
        if self.model is not None and not z3.is_true(self.model.eval(t, model_completion=True)):
            self.model = None

    def define(self, t):
        """Add a definitional constraint for fresh symbols."""
        self.add(t)
        if self.guards:
            self.spec_defs.append((len(self.guards), t))

    def fresh(self, base, width):
        self.nfresh += 1
        return z3.BitVec("%s!%d" % (base, self.nfresh), width)

    def get_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r != z3.sat:
                self.unknown = True
                return None
            self.model = m
        return self.model

    def need_model(self):
        m = self.get_model()
        if m is None:
            raise PathBudget("no model")
        return m

    def assume(self, t):
        if t is True:
            return
        if t is False:
            raise PathInfeasible()
        self.add(t)
        self._remember(t, True)
        self.get_model()

    # -- decisions ----------------------------------------------------------
    def _remember(self, t, val):
        self.known[t.get_id()] = val
        self.keep.append(t)

    def decide(self, t):
        if t is True or t is False:
            return t
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = self.known.get(t.get_id())
        if k is not None:
            return k
        if z3.is_not(t):
            return not self.decide(t.arg(0))
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            self.pos += 1
            assert kind in "df", (kind, "replay divergence")
            self.trace.append((kind, val))
            if kind == "d":
                self.add(t if val else z3.Not(t))
            self._remember(t, val)
            return val
        m = self.get_model()
        if m is None:
            cur = True
            r, _ = self._check(t)
            if r == z3.unsat:
                cur = False
                r2 = z3.sat
                other = False
            else:
                r2, _m = self._check(z3.Not(t))
                other = r2 != z3.unsat
        else:
            cur = z3.is_true(m.eval(t, model_completion=True))
            r2, _m = self._check(z3.Not(t) if cur else t)
            other = r2 != z3.unsat
        if r2 not in (z3.sat, z3.unsat):
            self.unknown = True
        if not other:
            STATS.forced += 1
            self.trace.append(("f", cur))
            self.pos += 1
            self.prefix.append(("f", cur))
            self._remember(t, cur)
            return cur
        if self.guards:
            raise SpecAbort()
        STATS.decisions += 1
        if FORKS is not None:
            import sys
            f = sys._getframe(1)
            site = []
            while f is not None and len(site) < 4:
                fn = f.f_code.co_filename
                if "/symx/" not in fn:
                    site.append("%s:%d" % (fn.rsplit("/", 1)[-1], f.f_lineno))
                f = f.f_back
            site = " < ".join(site)
            FORKS[site] = FORKS.get(site, 0) + 1
        self.explorer.push(self.trace + [("d", not cur)])
        self.trace.append(("d", cur))
        self.prefix.append(("d", cur))
        self.pos += 1
        self.add(t if cur else z3.Not(t))
        self._remember(t, cur)
        return cur

    def rule_out(self, t):
        """Go on with the inputs on which t does not hold, if there are any,
        without exploring the others.  Returns the value t has from here on."""
        k = self.peek(t)
        if k is not None:
            return k
        if self.guards:
            raise SpecAbort()
        if self.pos < len(self.prefix):
            return self.decide(t)
        m = self.get_model()
        free = m is not None and z3.is_false(m.eval(t, model_completion=True))
        if not free:
            r, _m = self._check(z3.Not(t))
            free = r == z3.sat
        if not free:
            return self.decide(t)
        STATS.ruled_out += 1
        self.trace.append(("d", False))
        self.prefix.append(("d", False))
        self.pos += 1
        self.add(z3.Not(t))
        self._remember(t, False)
        return False

    def pick(self, compute):
        """A recorded free choice (a model value); replays identically."""
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            assert kind == "v", (kind, "replay divergence")
        else:
            val = compute()
            self.prefix.append(("v", val))
        self.trace.append(("v", val))
        self.pos += 1
        return val

    def peek(self, t):
        """True/False if already decided syntactically, else None."""
        if t is True or t is False:
            return t
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self.known.get(t.get_id())

    # -- speculation ---------------------------------------------------------
    def speculate(self, cond, thunks, merge):
        """Evaluate thunks[0] under cond and thunks[1] under not cond and
        combine with merge(results, appended).  Returns (True, value), or
        (False, None) if both sides cannot be evaluated without forking,
        raising or unmergeable effects."""
        replaying = self.pos < len(self.prefix)
        if replaying and self.prefix[self.pos][0] == "a":
            self.trace.append(("a", None))
            self.pos += 1
            return False, None
        mark = self.pos
        if replaying:
            assert self.prefix[self.pos][0] == "s", "replay divergence"
        else:
            self.prefix.append(("s", None))
        self.trace.append(("s", None))
        self.pos += 1
        results = []
        appended = []
        defs_out = []
        saved_model = self.model
        outer_journal = self.journal
        ok = True
        for thunk, c in zip(thunks, (cond, z_not(cond))):
            self.solver.push()
            self.guards.append(c)
            saved_known = dict(self.known)
            saved_cache = dict(self.cache)
            ndefs = len(self.spec_defs)
            self.journal = []
            try:
                self.model = saved_model
                self.add(c)
                self._remember(c, True)
                results.append(thunk())
            except (SpecAbort, PathInfeasible):
                ok = False
            except Exception:
                ok = False
            finally:
                self.solver.pop()
                self.guards.pop()
                self.known = saved_known
                self.cache = saved_cache
                jr = self.journal
                self.journal = outer_journal
                app = {}
                for lst, n in reversed(jr):
                    app[id(lst)] = (lst, list(lst[n:]) + (app[id(lst)][1] if id(lst) in app else []))
                    del lst[n:]
                appended.append(app)
                defs = self.spec_defs[ndefs:]
                del self.spec_defs[ndefs:]
                for _lvl, t in defs:
                    defs_out.append(z3.Implies(z_lift(c), t))
            if not ok:
                break
        self.model = saved_model
        value = None
        if ok:
            try:
                value = merge(results)
                extra = []
                a0, a1 = appended
                if set(a0) != set(a1):
                    raise SpecAbort()
                for k in a0:
                    l0, l1 = a0[k][1], a1[k][1]
                    if len(l0) != len(l1):
                        raise SpecAbort()
                    extra.append((a0[k][0], [merge([x, y]) for x, y in zip(l0, l1)]))
            except (SpecAbort, PathInfeasible):
                ok = False
        for t in defs_out:
            self.define(t)
        if not ok:
            assert not replaying, "replay divergence"
            del self.trace[mark:]
            del self.prefix[mark:]
            self.prefix.append(("a", None))
            self.trace.append(("a", None))
            self.pos = mark + 1
            return False, None
        STATS.merged += 1
        for lst, items in extra:
            if self.journal is not None:
                self.journal.append((lst, len(lst)))
            lst.extend(items)
        return True, value


class Explorer:
    """Explores all paths of a case."""

    def __init__(self, max_paths=2000, deadline=None):
        self.first_timeout = FIRST_TIMEOUT_MS
        self.work = [[]]
        self.max_paths = max_paths
        self.deadline = deadline
        self.paths = 0
        self.exhausted = True

    def push(self, prefix):
        self.work.append(list(prefix))

    def run(self, body):
        """body(ctx) executes one path; its return value is collected."""
        global CTX
        while self.work:
            if self.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.exhausted = False
                break
            prefix = self.work.pop()
            c = Ctx(prefix, self)
            CTX = c
            self.paths += 1
            STATS.paths += 1
            try:
                yield c, body(c)
            except PathInfeasible:
                yield c, None
            except PathBudget:
                self.exhausted = False
                break
            finally:
                CTX = None
