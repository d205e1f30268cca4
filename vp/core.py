"""Path-exploring core: one z3 solver, a trail of decisions, deterministic re-execution.

A *path* is one execution of a harness.  Every place where the executed code needs the truth
value of a symbolic condition (or a concrete value of a symbolic integer) is a decision.  The
solver is asked whether the other outcome is possible under the constraints collected so far;
if it is, that alternative is kept and explored later by executing the harness again with the
recorded decisions.  When no alternatives are left, every value of every input within the
declared bounds has been covered.
"""
import time
import z3
from . import zz


class PathEnd(BaseException):
    """Steers the exploration; never visible to the code under test."""


class Infeasible(PathEnd):
    pass


class StopPath(PathEnd):
    pass


class Rec(object):
    __slots__ = ('taken', 'val', 'alt', 'alt_model')

    def __init__(self, taken, val=None, alt=False, alt_model=None):
        self.taken = taken
        self.val = val
        self.alt = alt
        self.alt_model = alt_model


class Engine(object):
    def __init__(self, query_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.trail = []
        self.depth = 0          # how many trail entries the solver currently represents
        self.pos = 0
        self.have = 0           # constraints added before this position are still in the solver
        self.model = None
        self.memo = {}
        self.pinned = {}
        self.stats = {'queries': 0, 'solver_s': 0.0, 'decisions': 0, 'paths': 0, 'unknown': 0,
                      'infeasible': 0, 'checks': 0}
        self.aborting = None
        self.keep = []
        self.max_decisions = 200000

    # ---- solver -----------------------------------------------------------
    def _check(self):
        t = time.perf_counter()
        r = self.solver.check()
        self.stats['solver_s'] += time.perf_counter() - t
        self.stats['queries'] += 1
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def need_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.abort(Infeasible())
            if r == z3.unknown:
                self.abort(StopPath('unknown'))
            self.model = zz.Model.of(self.solver.model())
        return self.model

    def abort(self, exc):
        self.aborting = exc
        raise exc

    def guard(self):
        if self.aborting is not None:
            raise self.aborting

    # ---- path life cycle ----------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.memo = {}
        self.pinned = {}
        self.keep = []
        self.aborting = None
        self.model = None
        self._resume_model = None
        if self.trail:
            self._resume_model = self.trail[-1].alt_model
            self.trail[-1].alt_model = None

    def load_prefix(self, prefix):
        while self.depth > 0:
            self.solver.pop()
            self.depth -= 1
        self.solver.reset()
        self.solver.set('timeout', 20000)
        self.trail = [Rec(t, v) for (t, v) in prefix]
        self.have = 0
        self.model = None
        self._resume_model = None

    def next_path(self):
        """Backtrack to the deepest open alternative.  False when everything is explored."""
        i = len(self.trail) - 1
        while i >= 0 and not self.trail[i].alt:
            i -= 1
        if i < 0:
            return False
        rec = self.trail[i]
        del self.trail[i + 1:]
        while self.depth > i:
            self.solver.pop()
            self.depth -= 1
        rec.alt = False
        rec.taken = not rec.taken
        self.have = i + 1
        self.model = None
        return True

    def pending_prefixes(self):
        out = []
        for i, rec in enumerate(self.trail):
            if rec.alt:
                p = [(r.taken, r.val) for r in self.trail[:i]]
                p.append((not rec.taken, rec.val))
                out.append(p)
                rec.alt = False
        return out

    # ---- constraints ----------------------------------------------------------
    def add(self, e):
        """Assert e at the current point of the path (no decision)."""
        if e is True:
            return
        if self.pos < self.have:
            return
        self.solver.add(zz.lower(e))
        self.model = None

    def declare(self, name, lo, hi, dom=None):
        e = zz.int_var(name)
        if self.pos < self.have:
            return e
        m = self.model
        c = [lo <= e, e <= hi] if lo < hi else [zz.eq(e, lo)]
        if dom is not None and hi - lo + 1 != len(dom):
            c.append(zz.or_([zz.eq(e, x) for x in sorted(dom)]))
        self.solver.add([zz.lower(x) for x in c])
        if m is not None:
            m.extend(name, lo)
        return e

    def assume(self, e):
        self.guard()
        if e is True:
            return
        if e is False:
            self.stats['infeasible'] += 1
            self.abort(Infeasible())
        m = self.model
        self.add(e)
        if self.pos >= len(self.trail):
            if m is not None and m.eval(e):
                self.model = m
                return
            r = self._check()
            if r == z3.unsat:
                self.stats['infeasible'] += 1
                self.abort(Infeasible())
            if r == z3.unknown:
                self.abort(StopPath('unknown'))
            self.model = zz.Model.of(self.solver.model())

    # ---- decisions ----------------------------------------------------------
    def branch(self, e):
        self.guard()
        neg = False
        if e.op == 'not':
            e = e.args[0]
            neg = True
        k = e.id
        hit = self.memo.get(k)
        if hit is not None:
            return hit != neg
        r = self._decide(e, None)
        self.memo[k] = r
        return r != neg

    def _decide(self, e, val):
        p = self.pos
        if p < len(self.trail):
            rec = self.trail[p]
            self.pos = p + 1
            if p >= self.depth:
                self.solver.push()
                self.solver.add(zz.lower(e if rec.taken else zz.not_(e)))
                self.depth += 1
                self.model = self._resume_model if p == len(self.trail) - 1 else None
                if p == len(self.trail) - 1:
                    self._resume_model = None
            return rec.taken
        if p > self.max_decisions:
            self.abort(StopPath('decision bound'))
        self.stats['decisions'] += 1
        m = self.need_model()
        taken = m.eval(e)
        self.solver.push()
        self.solver.add(zz.lower(zz.not_(e) if taken else e))
        r = self._check()
        alt_model = None
        if r == z3.sat:
            alt_model = zz.Model.of(self.solver.model())
        self.solver.pop()
        rec = Rec(taken, val, alt=(r != z3.unsat), alt_model=alt_model)
        self.trail.append(rec)
        self.pos = p + 1
        self.solver.push()
        self.depth += 1
        if r != z3.unsat:
            self.solver.add(zz.lower(e if taken else zz.not_(e)))
        return taken

    def concretize_int(self, e):
        """Fork over the possible values of e."""
        self.guard()
        k = e.id
        hit = self.pinned.get(k)
        if hit is not None:
            return hit
        while True:
            if self.pos < len(self.trail):
                v = self.trail[self.pos].val
            else:
                v = self.need_model().eval(e)
            c = zz.eq(e, v)
            if c is True or self._decide(c, v):
                self.pinned[k] = v
                return v

    def query_violation(self, e):
        """Model of (path constraints and not e), or None when e is implied.  e is a z3 Bool."""
        self.guard()
        if self.pos < len(self.trail):
            return None     # same point, same constraints: decided when the prefix was explored
        self.stats['checks'] += 1
        m = self.model
        if m is None:
            m = self.need_model()
        if not m.eval(e):
            return m
        self.solver.push()
        self.solver.add(zz.lower(zz.not_(e)))
        r = self._check()
        res = None
        if r == z3.sat:
            res = zz.Model.of(self.solver.model())
        self.solver.pop()
        return res


ENGINE = None


def set_engine(e):
    global ENGINE
    ENGINE = e


def engine():
    return ENGINE
