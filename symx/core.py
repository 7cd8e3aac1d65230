"""Path exploration engine: depth-first search over fork decisions by re-execution."""
import random
import time
from fractions import Fraction

import numpy as np
import z3


class PathAbort(BaseException):
    """current path is infeasible under an assumption"""


class Unsupported(BaseException):
    """the encoding does not reach an operation used by the code"""


class Inconclusive(BaseException):
    """solver answered unknown"""


class Deadline(BaseException):
    """time budget of the configuration is over"""


ENG = None  # current engine


def eng():
    if ENG is None:
        raise Unsupported("symbolic value used outside of an exploration")
    return ENG


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.forks = 0
        self.queries = 0
        self.solver_time = 0.0
        self.checks = 0
        self.concretised = 0
        self.undecided = []

    def as_dict(self):
        return dict(
            paths=self.paths, aborted=self.aborted, forks=self.forks, queries=self.queries,
            solver_time=self.solver_time, checks=self.checks, concretised=self.concretised,
            undecided=list(self.undecided),
        )


class Engine:
    MAX_CONCRETE = 4096

    def __init__(self, seed=1, query_timeout_ms=20000, deadline=None):
        self.seed = seed
        self.solver = z3.Solver()
        self.solver.set('random_seed', seed % (2**31))
        self.solver.set('timeout', query_timeout_ms)
        self.qtimeout = query_timeout_ms
        self.deadline = deadline
        self.events = []  # (kind, payload); kind in 'f' (fork), 'i' (implied), 'a' (assume), 'v' (value)
        self.pos = 0
        self.model = None
        self.stats = Stats()
        self.path_cache = {}
        self.names = {}
        self.vars = {}  # name -> (z3 const, kind)
        self.pending_checks = []
        self.relax = []  # (equality of reals, the same with a margin)
        self.bad = self.wide = None
        self.lazy = []  # definitional constraints already asserted on this path

    # -- solver ---------------------------------------------------------------------------
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline()
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        if r == z3.unknown:
            # second opinion: non incremental solver on the same constraints
            s2 = z3.Solver()
            s2.set('timeout', self.qtimeout)
            s2.add(*self.solver.assertions())
            s2.add(*extra)
            r = s2.check()
            self.stats.queries += 1
            self.stats.solver_time += time.perf_counter() - t0
            if r == z3.unknown:
                raise Inconclusive(f"solver unknown: {s2.reason_unknown()}")
            if r == z3.sat:
                self._last_model = s2.model()
            return r
        self.stats.solver_time += time.perf_counter() - t0
        if r == z3.sat:
            self._last_model = self.solver.model()
        return r

    def get_model(self):
        """a model of the current path condition"""
        if self.model is None:
            if self._check() != z3.sat:
                raise PathAbort()
            self.model = self._last_model
        return self.model

    def holds_in_model(self, cond):
        m = self.get_model()
        return z3.is_true(m.eval(cond, model_completion=True))

    # -- events ---------------------------------------------------------------------------
    def _replaying(self):
        return self.pos < len(self.events)

    def fork(self, cond):
        """decide a z3 Bool, exploring both outcomes"""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        while z3.is_not(cond):
            cond = cond.arg(0)
            neg = not neg
        key = cond.get_id()
        hit = self.path_cache.get(key)
        if hit is not None:
            return hit[0] != neg
        res = self._fork(cond)
        self.path_cache[key] = (res, cond)
        return res != neg

    def _fork(self, cond):
        if self._replaying():
            ev = self.events[self.pos]
            self.pos += 1
            assert ev[0] in 'fiF', f"non deterministic replay: {ev[0]}"
            return ev[1]
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline()
        first = self.holds_in_model(cond)
        other = z3.Not(cond) if first else cond
        r = self._check(other)
        if r == z3.unsat:
            self.events.append(['i', first])
            self.pos += 1
            return first
        othermodel = self._last_model
        self.stats.forks += 1
        self.solver.push()
        self.solver.add(cond if first else z3.Not(cond))
        self.events.append(['f', first, cond, othermodel])
        self.pos += 1
        return first

    def assume(self, cond):
        """restrict the path to a z3 Bool"""
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(cond):
            return
        if self._replaying():
            ev = self.events[self.pos]
            self.pos += 1
            assert ev[0] == 'a', f"non deterministic replay: {ev[0]}"
            return
        if z3.is_false(cond):
            raise PathAbort()
        self.solver.push()
        self.solver.add(cond)
        self.events.append(['a', True])
        self.pos += 1
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None

    def define(self, cond):
        """assert a definitional constraint on fresh variables (always satisfiable extension)"""
        self.assume(cond)

    def concretise(self, term, conv):
        """fork over every feasible value of a term; returns the python value"""
        term = z3.simplify(term)
        if z3.is_int_value(term) or z3.is_bv_value(term):
            return conv(term)
        key = ('v', term.get_id())
        hit = self.path_cache.get(key)
        if hit is not None:
            return conv(hit[0])
        if self._replaying():
            ev = self.events[self.pos]
            self.pos += 1
            assert ev[0] == 'v', f"non deterministic replay: {ev[0]}"
            self._known(term, ev[1])
            return conv(ev[1])
        val = self.get_model().eval(term, model_completion=True)
        self.stats.concretised += 1
        self.solver.push()
        self.solver.add(term == val)
        self.events.append(['v', val, term, [val]])
        self.pos += 1
        self._known(term, val)
        return conv(val)

    def _known(self, term, val):
        self.path_cache[('v', term.get_id())] = (val, term)
        if z3.is_add(term) and term.num_args() == 2 and z3.is_int(term):
            for c, x in (term.children(), reversed(term.children())):
                if z3.is_int_value(c):
                    self.path_cache[('v', x.get_id())] = (z3.IntVal(val.as_long() - c.as_long()), x)

    def known(self, term):
        """value of an integer term which this path has fixed, or None"""
        hit = self.path_cache.get(('v', term.get_id()))
        return None if hit is None else hit[0].as_long()

    # -- variables ------------------------------------------------------------------------
    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return f"{base}!{n}"

    # -- checks ---------------------------------------------------------------------------
    def add_check(self, cond, msg):
        """cond: bool or z3 Bool that must hold on this path"""
        if isinstance(cond, bool):
            if cond:
                self.stats.checks += 1
                return
            cond = z3.BoolVal(False)
        self.pending_checks.append((cond, msg))

    def discharge(self):
        """at path end: returns None or (model, [failed messages])"""
        self.bad = self.wide = None
        raw = self.pending_checks
        conds = [(z3.simplify(c), m) for c, m in raw]
        self.pending_checks = []
        self.stats.checks += len(conds)
        todo = [(c, m) for c, m in conds if not z3.is_true(c)]
        if not todo:
            return None
        # batches keep queries small
        for lo in range(0, len(todo), 64):
            chunk = todo[lo:lo + 64]
            r = self._check(z3.Or(*[z3.Not(c) for c, _ in chunk]))
            if r == z3.sat:
                m = self._last_model
                self.bad = z3.Or(*[z3.Not(c) for c, _ in chunk])
                if self.relax:
                    self.wide = z3.Or(*[z3.Not(z3.substitute(c, *self.relax)) for c, _ in raw])
                failed = [msg for c, msg in chunk if not z3.is_true(m.eval(c, model_completion=True))]
                return m, failed
        return None

    def alternatives(self, model, most=24):
        """other models of the same failure, away from the given one in one real variable (a model on the very
        boundary of a comparison is not reproduced with floats)"""
        from fractions import Fraction

        for c in (self.wide, self.bad):
            if c is not None:
                try:
                    if self._check(c) == z3.sat:
                        yield self.diverse(self._last_model, random.Random(0), 40, c)
                        break
                except Inconclusive:
                    pass
        left = most
        for v, kind in list(self.vars.values()):
            if kind != 'real':
                continue
            old = model.eval(v, model_completion=True)
            if not z3.is_rational_value(old):
                continue
            q = Fraction(old.numerator_as_long(), old.denominator_as_long())
            d = abs(q) / 4 or Fraction(1, 1024)
            for c in (v >= z3.RealVal(q + d), v <= z3.RealVal(q - d)):
                if left == 0:
                    return
                left -= 1
                try:
                    if self._check(z3.And(c, self.bad) if self.bad is not None else c) == z3.sat:
                        yield self._last_model
                except Inconclusive:
                    pass

    def diverse(self, model, rng, most=10, given=None):
        """another model of the path condition with as many reals as possible at random values: minimal models are
        mostly zeros, which hide differences when the path is replayed"""
        from fractions import Fraction

        want = []
        for v, kind in self.vars.values():
            if kind == 'real':
                old = model.eval(v, model_completion=True)
                if z3.is_rational_value(old):
                    q = Fraction(old.numerator_as_long(), old.denominator_as_long())
                    want.append(v == z3.RealVal(q + Fraction(rng.randint(-640, 640), 64)))
            elif kind == 'f64':
                want.append(v == int(np.float64(rng.randint(-4096, 4096) / 64).view(np.uint64)))
        best, todo, have = model, [want] if want else [], [] if given is None else [given]
        self.solver.set('timeout', 1000)
        try:
            while todo and most > 0:
                most -= 1
                g = todo.pop(0)
                self.stats.queries += 1
                t0 = time.perf_counter()
                r = self.solver.check(*have, *g)
                self.stats.solver_time += time.perf_counter() - t0
                if r == z3.sat:
                    have += g
                    best = self.solver.model()
                elif len(g) > 1:
                    todo += [g[:len(g) // 2], g[len(g) // 2:]]
        finally:
            self.solver.set('timeout', self.qtimeout)
        return best

    # -- exploration ----------------------------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.path_cache = {}
        self.names = {}
        self.vars = {}
        self.pending_checks = []
        self.relax = []
        self.bad = self.wide = None

    def backtrack(self):
        """move to the next unexplored leaf; False when the tree is exhausted"""
        while self.events:
            ev = self.events[-1]
            if ev[0] == 'i':
                self.events.pop()
                continue
            if ev[0] == 'a':
                self.events.pop()
                self.solver.pop()
                continue
            if ev[0] == 'f':
                self.solver.pop()
                self.events.pop()
                cond = ev[2]
                other = not ev[1]
                self.solver.push()
                self.solver.add(cond if other else z3.Not(cond))
                self.events.append(['F', other])  # consumed fork: outcome is now fixed
                self.model = ev[3]
                return True
            if ev[0] == 'F':
                self.events.pop()
                self.solver.pop()
                continue
            if ev[0] == 'v':
                self.solver.pop()
                term, seen = ev[2], ev[3]
                if len(seen) >= self.MAX_CONCRETE:
                    raise Unsupported(f"more than {self.MAX_CONCRETE} values to enumerate for {term}")
                block = [term != v for v in seen]
                r = self._check(*block)
                if r == z3.unsat:
                    self.events.pop()
                    continue
                m = self._last_model
                val = m.eval(term, model_completion=True)
                seen.append(val)
                ev[1] = val
                self.solver.push()
                self.solver.add(term == val)
                self.model = m
                return True
            raise AssertionError(ev[0])
        return False
