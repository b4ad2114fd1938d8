"""Path-exploring symbolic executor for ordinary Python code.

The code under test is the real nilmtk source, imported from /repo and run by
the ordinary interpreter on *proxy* values (see proxies.py) that carry z3
terms.  Whenever the code turns a symbolic condition into a truth value the
engine asks z3 which outcomes are feasible under the path condition, follows
one and queues the other (depth-first, by re-execution).  At the end of every
path the assertions of the harness are decided by z3 for *all* values that
satisfy the path condition.
"""
import sys
import time
from fractions import Fraction

import z3

# --------------------------------------------------------------- exceptions
# BaseException: `except Exception` in the code under test must not eat them.


class PathSteer(BaseException):
    pass


class Infeasible(PathSteer):
    """The path condition became unsatisfiable (an assume failed)."""


class Unsupported(PathSteer):
    """The code did something to a proxy that has no encoding."""


class Budget(PathSteer):
    """Out of time / too many decisions on this path."""


class SolverUnknown(PathSteer):
    pass


class CheckFailed(PathSteer):
    """A harness assertion can fail on this path (z3 model attached)."""

    def __init__(self, msg, model=None):
        super().__init__(msg)
        self.msg = msg
        self.model = model


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branches = 0
        self.asserts = 0
        self.asserts_discharged = 0
        self.undecided = 0
        self.witness_ok = 0
        self.witness_skipped = 0
        self.offgrid = 0
        self.reached = 0
        self.fallback_models = 0
        self.assert_labels = {}

    def add(self, o):
        for k, v in o.__dict__.items():
            if isinstance(v, dict):
                mine = self.__dict__.setdefault(k, {})
                for kk, vv in v.items():
                    mine[kk] = mine.get(kk, 0) + vv
            else:
                self.__dict__[k] = self.__dict__.get(k, 0) + v


_CUR = None


def cur():
    return _CUR


def set_cur(e):
    global _CUR
    _CUR = e


def is_sat_val(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


class Engine(object):
    """One exploration of one harness case."""

    MAX_DECISIONS = 4000

    def __init__(self, stats=None, query_timeout_ms=20000, deadline=None):
        self.stats = stats or Stats()
        self.query_timeout_ms = query_timeout_ms
        self.deadline = deadline
        self.work = [()]           # prefixes still to explore
        self._reset()

    # -- one run ----------------------------------------------------------
    def _reset(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_timeout_ms)
        self.solver.set('random_seed', 1)
        self.pc = []
        self.decisions = []
        self.prefix = ()
        self.model = None
        self.vars = []             # (name, kind, z3var) in creation order
        self.names = set()
        self.choices = {}
        self.fresh_n = 0
        self.notes = []
        self.roots = {}

    def start(self, prefix):
        self._reset()
        self.prefix = prefix
        set_cur(self)

    def stop(self):
        set_cur(None)

    # -- solver -----------------------------------------------------------
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("deadline")
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def _model_says(self, c):
        """Truth value of c in the cached model of the pc, or None."""
        if self.model is None:
            return None
        try:
            return is_sat_val(self.model.eval(c, model_completion=True))
        except z3.Z3Exception:
            return None

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise SolverUnknown("path condition")
            self.model = self.solver.model()
        return self.model

    def assume(self, c):
        c = z3.simplify(c)
        v = is_sat_val(c)
        if v is True:
            return
        if v is False:
            raise Infeasible()
        self._add(c)
        if self._model_says(c) is not True:
            self.model = None
            if len(self.decisions) >= len(self.prefix):
                self.get_model()

    def branch(self, c):
        """Decide a symbolic condition on this path; fork if both feasible."""
        c = z3.simplify(c)
        v = is_sat_val(c)
        if v is not None:
            return v
        i = len(self.decisions)
        if i >= self.MAX_DECISIONS:
            raise Budget("more than %d decisions on one path" % i)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self._add(c if d else z3.Not(c))
            self.model = None
            return d
        self.get_model()
        says = self._model_says(c)
        if says is None:
            r = self._check(c)
            if r == z3.sat:
                says = True
                self.model = self.solver.model()
            elif r == z3.unsat:
                says = False
            else:
                raise SolverUnknown("branch")
        other = z3.Not(c) if says else c
        r = self._check(other)
        if r == z3.unknown:
            raise SolverUnknown("branch")
        if r == z3.unsat:
            # implied: a decision with one outcome; no fork, nothing to record
            # in the prefix, but keep the fact out of pc (it is implied).
            # Re-execution repeats the query only for the fresh suffix.
            self.decisions.append(says)
            return says
        self.stats.branches += 1
        self.work.append(tuple(self.decisions) + ((not says),))
        self.decisions.append(says)
        self._add(c if says else z3.Not(c))
        return says

    def choose(self, name, n):
        """A symbolic choice among n alternatives (an int variable)."""
        v = self.fresh('int', name)
        self.assume(z3.And(v >= 0, v < n))
        for k in range(n - 1):
            if self.branch(v == k):
                return k
        return n - 1

    def concretize_int(self, expr, limit=64):
        """Fork over every feasible integer value of expr."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        for _ in range(limit):
            val = self._next_value(expr)
            if self.branch(expr == val):
                return val
        raise Unsupported("too many values to concretize")

    def _next_value(self, expr):
        # the smallest feasible value: deterministic under re-execution
        m = self.get_model()
        v = m.eval(expr, model_completion=True)
        if not z3.is_int_value(v):
            raise Unsupported("non-integer in concretize")
        v = v.as_long()
        for _ in range(200):
            r = self._check(expr < v)
            if r == z3.unsat:
                return v
            if r != z3.sat:
                raise SolverUnknown("concretize")
            v = self.solver.model().eval(expr, model_completion=True).as_long()
        raise Unsupported("unbounded integer concretized")

    # -- variables --------------------------------------------------------
    def fresh(self, kind, name):
        n, i = name, 1
        while n in self.names:
            i += 1
            n = "%s#%d" % (name, i)
        self.names.add(n)
        mk = {'int': z3.Int, 'bool': z3.Bool}.get(kind, z3.Real)
        v = mk(n)
        self.vars.append((n, kind, v))
        return v

    # -- assertions -------------------------------------------------------
    def prove(self, c, label):
        """Decide: does c hold for every value on this path?"""
        self.stats.asserts += 1
        d = self.stats.assert_labels
        d[label] = d.get(label, 0) + 1
        c = z3.simplify(c, som=True)
        v = is_sat_val(c)
        if v is True:
            # decided by z3's simplifier (term normalisation)
            self.stats.asserts_discharged += 1
            return
        if v is False:
            raise CheckFailed(label, self.get_model())
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            self.stats.asserts_discharged += 1
            return
        if r == z3.sat:
            m = self.solver.model()
            self._add(z3.Not(c))       # models below are counterexamples
            self.model = m
            raise CheckFailed(label, self.model)
        raise SolverUnknown("assert " + label)

    # -- models -----------------------------------------------------------
    def nice_models(self, n=1, seed=0, diverse=False):
        """Up to n assignments satisfying the path condition, preferring
        values that floats represent exactly.  With diverse, half of them from
        the next finer grid."""
        out = []
        s = z3.Solver()
        s.set('timeout', 5000)
        s.set('random_seed', seed)
        s.add(*self.pc)
        grids = []
        for vname, kind, v in self.vars:
            if kind == 'int' or kind == 'bool':
                continue
            k = z3.Int(vname + '!grid')
            grids.append((kind, v, k))

        def attempt(extra):
            t = time.time()
            r = s.check(*extra)
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
            return r
        integral = [v == z3.ToReal(k) for kind, v, k in grids]
        quarter = [(v == z3.ToReal(k)) if kind == 'time' else
                   (v == z3.ToReal(k) / 4) for kind, v, k in grids]
        milli = [(v == z3.ToReal(k) / 1000) if kind == 'time' else
                 (v == z3.ToReal(k) / 64) for kind, v, k in grids]
        fine = [[v == z3.ToReal(k) / d for kind, v, k in grids] for d in (1000, 1000000)]
        mode = None
        self.offgrid = True
        for m in [integral, quarter, milli] + fine + [[]]:
            r = attempt(m)
            if r == z3.sat:
                mode = m
                break
            if r == z3.unknown:
                self.offgrid = False
        if mode is None:
            return out
        # no value of the path is a multiple of 1e-6: floats and nanosecond
        # timestamps cannot tell such inputs apart from their neighbours
        self.offgrid = self.offgrid and bool(grids) and mode == []
        finer = None
        if diverse and mode is integral and grids:
            frac = [z3.Not(z3.IsInt(v)) for kind, v, k in grids if kind == 'time'] or [z3.Not(z3.IsInt(v)) for kind, v, k in grids]
            finer = [(v == z3.ToReal(k) / 4) for kind, v, k in grids] + [z3.Or(*frac)]
        s.push()
        s.add(*mode)
        for i in range(n):
            if finer is not None and i == (n + 1) // 2:
                s.pop()
                s.push()
                s.add(*finer)
                finer = None
            if s.check() != z3.sat:
                if finer is None:
                    break
                continue
            m = s.model()
            assign = {}
            block = []
            for vname, kind, v in self.vars:
                val = m.eval(v, model_completion=True)
                block.append(v != val)
                assign[vname] = to_py(val)
            out.append(assign)
            if not block:
                break
            s.add(z3.Or(*block))
        return out


def to_py(val):
    if z3.is_true(val):
        return True
    if z3.is_false(val):
        return False
    if z3.is_int_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        f = Fraction(val.numerator_as_long(), val.denominator_as_long())
        return f
    if z3.is_algebraic_value(val):
        a = val.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value %r" % (val,))
