"""Harness API: the same harness runs symbolically (proxies, z3) and concretely
(real pandas/numpy values taken from a z3 model, no stand-ins)."""
import math
from fractions import Fraction

import numpy as np
import pandas as pd
import z3

from . import core
from .core import CheckFailed, Infeasible
from .proxies import (Sym, SymBool, SymNum, SymTimestamp, SymTimedelta, SymStr, SymId, BASE,
                      isnan, is_sym)


class ConcreteViolation(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class ConcreteInfeasible(BaseException):
    pass


RTOL, ATOL = 1e-6, 1e-6


def close(a, b):
    """Concrete equality up to float rounding; NaN equals NaN."""
    if a is None or b is None:
        return a is b
    if isinstance(a, (pd.Timestamp, pd.Timedelta)) or isinstance(b, (pd.Timestamp, pd.Timedelta)):
        if a is pd.NaT or b is pd.NaT:
            return a is b
        try:
            return abs(a - b) <= pd.Timedelta(microseconds=1)
        except TypeError:
            return False
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return bool(a == b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ATOL + RTOL * max(abs(a), abs(b))


class Ctx(object):
    symbolic = False

    def expect(self, cond, label):
        raise NotImplementedError

    # -------------------------------------------------- shared conveniences
    def all_eq(self, got, want, label):
        got, want = list(got), list(want)
        if len(got) != len(want):
            self.expect(False, "%s: %d items, expected %d" % (label, len(got), len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            self.eq(g, w, label)

    def raises(self, excs, f, label):
        try:
            f()
        except excs:
            return
        self.expect(False, label)

    def isnan(self, x):
        return not is_sym(x) and isinstance(x, (float, np.floating)) and x != x


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, eng):
        self.eng = eng

    def real(self, name, lo=None, hi=None):
        v = self.eng.fresh('real', name)
        if lo is not None:
            self.eng.assume(v >= _c(lo))
        if hi is not None:
            self.eng.assume(v <= _c(hi))
        return SymNum(v)

    def int(self, name, lo=None, hi=None):
        v = self.eng.fresh('int', name)
        if lo is not None:
            self.eng.assume(v >= lo)
        if hi is not None:
            self.eng.assume(v <= hi)
        return SymNum(v)

    def bool(self, name):
        """A boolean input, forked immediately."""
        v = self.eng.fresh('bool', name)
        return self.eng.branch(v)

    def choose(self, name, options):
        return options[self.eng.choose(name, len(options))]

    def string(self, name, options):
        """One of finitely many strings, not forked until needed."""
        v = self.eng.fresh('int', name)
        self.eng.assume(z3.And(v >= 0, v < len(options)))
        return SymStr(v, options)

    def id(self, name, lo, hi):
        v = self.eng.fresh('int', name)
        self.eng.assume(z3.And(v >= lo, v <= hi))
        return SymId(v)

    def time(self, name, lo=0, hi=100000, tz='UTC'):
        v = self.eng.fresh('time', name)
        self.eng.assume(z3.And(v >= lo, v <= hi))
        return SymTimestamp(v, tz)

    def seconds(self, name, lo=None, hi=None):
        """A duration in (whole, in models) seconds as a number."""
        v = self.eng.fresh('time', name)
        if lo is not None:
            self.eng.assume(v >= _c(lo))
        if hi is not None:
            self.eng.assume(v <= _c(hi))
        return SymNum(v)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.eng.assume(cond.e)
        elif not cond:
            raise Infeasible()

    def ite(self, cond, a, b):
        if isinstance(cond, SymBool):
            if type(a) is type(b) and isinstance(a, Sym):
                x, y = a.e, b.e
                if x.sort() == y.sort():
                    r = z3.If(cond.e, x, y)
                    return SymTimestamp(r, a.tz) if isinstance(a, SymTimestamp) else type(a)(r)
            return a if cond else b
        return a if cond else b

    def expect(self, cond, label):
        if isinstance(cond, SymBool):
            self.eng.prove(cond.e, label)
        else:
            self.eng.prove(z3.BoolVal(bool(cond)), label)

    def eq(self, a, b, label):
        na, nb = self.isnan(a), self.isnan(b)
        if na or nb:
            self.expect(na and nb, label)
            return
        if a is None or b is None:
            self.expect(a is b, label)
            return
        r = (a == b)
        self.expect(r, label)

    def same(self, a, b):
        """Equality as a condition (NaN == NaN)."""
        if self.isnan(a) or self.isnan(b):
            return self.isnan(a) and self.isnan(b)
        if a is None or b is None:
            return a is b
        return a == b

    # containers
    def index(self, times):
        arr = np.empty(len(times), dtype=object)
        for i, t in enumerate(times):
            arr[i] = t
        return pd.Index(arr, dtype=object)

    def array(self, vals):
        arr = np.empty(len(vals), dtype=object)
        for i, t in enumerate(vals):
            arr[i] = t
        return arr

    def concrete_index(self, secs, tz='UTC'):
        return conc_index(secs, tz)

    def td(self, x):
        return x


class ConcreteCtx(Ctx):
    symbolic = False

    def __init__(self, assign, tz='UTC'):
        self.assign = dict(assign)
        self.used = []
        self.tz = tz
        self.names = set()
        self.failures = []

    def _get(self, name, default):
        n, i = name, 1
        while n in self.names:
            i += 1
            n = "%s#%d" % (name, i)
        self.names.add(n)
        return self.assign.get(n, default)

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, lo if lo is not None else 0))

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, name, options):
        return options[int(self._get(name, 0))]

    def string(self, name, options):
        return options[int(self._get(name, 0))]

    def id(self, name, lo, hi):
        return int(self._get(name, lo))

    def time(self, name, lo=0, hi=100000, tz='UTC'):
        return conc_time(self._get(name, lo), tz, self.tz)

    def seconds(self, name, lo=None, hi=None):
        v = Fraction(self._get(name, lo if lo is not None else 0))
        return int(v) if v.denominator == 1 else float(v)

    def assume(self, cond):
        if not cond:
            raise ConcreteInfeasible()

    def ite(self, cond, a, b):
        return a if cond else b

    def expect(self, cond, label):
        if not bool(cond):
            raise ConcreteViolation(label)

    def eq(self, a, b, label):
        if not close(a, b):
            raise ConcreteViolation("%s: got %r, expected %r" % (label, a, b))

    def same(self, a, b):
        return close(a, b)

    def index(self, times):
        return pd.DatetimeIndex(times) if times else pd.DatetimeIndex([], tz=self.tz)

    def array(self, vals):
        return np.array(vals, dtype=float)

    def concrete_index(self, secs, tz='UTC'):
        return conc_index(secs, self.tz if tz else None)

    def td(self, x):
        return x


def _c(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, float):
        return z3.RealVal(str(Fraction(x)))
    return x


def conc_time(secs, tz, ctx_tz='UTC'):
    ts = BASE + pd.Timedelta(round(Fraction(secs) * 10 ** 9), 'ns')
    if tz is None:
        return ts.tz_localize(None)
    return ts.tz_convert(ctx_tz)


def conc_index(secs, tz='UTC'):
    ix = pd.DatetimeIndex([BASE + pd.Timedelta(round(Fraction(s) * 10 ** 9), 'ns') for s in secs])
    if len(ix) == 0:
        return pd.DatetimeIndex([], tz=tz or None)
    return ix.tz_convert(tz) if tz else ix.tz_localize(None)
