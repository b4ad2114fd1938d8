"""Proxy values that carry z3 terms through the real code.

Numbers are exact reals / mathematical integers (rounding of IEEE floats is
outside the encoding; replays use real floats).  Timestamps are reals counting
seconds from BASE, plus a concrete tz tag; timedeltas are reals in seconds.
"""
import datetime
import math
import numbers
from fractions import Fraction

import numpy as np
import pandas as pd
import z3

from .core import cur, Unsupported

BASE = pd.Timestamp('2020-03-29 00:59:00', tz='UTC')   # one minute before a DST
#                                                        change in Europe/London
BASE_NS = BASE.value


def isnan(x):
    return isinstance(x, (float, np.floating)) and x != x


def isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def ideal(x):
    """The rational a float stands for: the simplest one that rounds to it."""
    f = Fraction(x)
    g = f.limit_denominator(1000000)
    return g if float(g) == x else f


def _const(x):
    """z3 constant for a concrete number, or None."""
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        return z3.RealVal(str(ideal(float(x))))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return None


class Sym(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return 7

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, str(self.e)[:60])

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def item(self):
        return self


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return cur().branch(self.e)

    @staticmethod
    def lift(o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def _bin(self, o, f):
        l = SymBool.lift(o)
        if l is None:
            if isinstance(o, (int, np.integer, float, np.floating)):
                return NotImplemented
            return NotImplemented
        return SymBool(f(self.e, l))

    def __and__(self, o):
        return self._bin(o, z3.And)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, z3.Or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, z3.Xor)
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def logical_not(self):
        return ~self

    def num(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        l = SymBool.lift(o)
        if l is None:
            return self.num() == o
        return SymBool(self.e == l)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r
    __hash__ = Sym.__hash__

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __truediv__(self, o):
        return self.num() / o

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))


def _num(o):
    if isinstance(o, SymNum):
        return o.e
    if isinstance(o, SymBool):
        return o.num().e
    return _const(o)


def _coerce(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.is_int():
        a = z3.ToReal(a)
    if b.is_int():
        b = z3.ToReal(b)
    return a, b


NOENC = (str, bytes, list, tuple, dict, set, type(None))


class SymNum(Sym):
    """A symbolic real or integer."""
    __slots__ = ()
    dtype = np.dtype(object)

    def __format__(self, spec):
        # only progress messages format numbers
        return repr(self)

    def _arr(self, o, f):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return f(self, o.item())
            out = np.empty(o.shape, dtype=object)
            for i, x in np.ndenumerate(o):
                out[i] = f(self, x)
            return out
        return NotImplemented

    def _bin(self, o, f, rev=False):
        if isnan(o):
            return float('nan')
        b = _num(o) if not isinstance(o, float) or not math.isinf(o) else None
        if b is None:
            return NotImplemented
        x, y = _coerce(self.e, b)
        return SymNum(f(y, x) if rev else f(x, y))

    def __add__(self, o):
        if isinf(o):
            return float(o)
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinf(o):
            return float(o)
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if isinf(o):
            return -float(o)
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinf(o):
            return float(o)
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, SymTimedelta):
            return NotImplemented
        if isinf(o):
            if self == 0:
                return float('nan')
            return float(o) if self > 0 else -float(o)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if isinf(o):
            return SymNum(z3.RealVal(0))
        return SymNum._div(self, o)

    def __rtruediv__(self, o):
        if isinf(o):
            if self == 0:
                raise Unsupported("inf / 0")
            return float(o) if self > 0 else -float(o)
        return SymNum._div(o, self)

    @staticmethod
    def _div(a, b):
        if isnan(a) or isnan(b):
            return float('nan')
        x, y = _num(a), _num(b)
        if x is None or y is None:
            return NotImplemented
        if x.is_int():
            x = z3.ToReal(x)
        if y.is_int():
            y = z3.ToReal(y)
        ys = z3.simplify(y)
        if not z3.is_rational_value(ys):
            if cur().branch(ys == 0):
                return _div_zero(x)
        elif ys.as_fraction() == 0:
            return _div_zero(x)
        return SymNum(x / y)

    def __floordiv__(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        if self.e.is_int() and b.is_int():
            bs = z3.simplify(b)
            if z3.is_int_value(bs) and bs.as_long() > 0:
                return SymNum(self.e / bs)
        q = self / o
        return q.__floor__() if isinstance(q, SymNum) else q

    def __mod__(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        if self.e.is_int() and b.is_int():
            bs = z3.simplify(b)
            if z3.is_int_value(bs) and bs.as_long() > 0:
                return SymNum(self.e % bs)
        return self - (self // o) * o

    def __rfloordiv__(self, o):
        q = SymNum._div(o, self)
        return q.__floor__() if isinstance(q, SymNum) else q

    def __pow__(self, o):
        if isinstance(o, (float, np.floating)) and float(o) == 0.5:
            return self.sqrt()
        if isinstance(o, (float, np.floating)) and float(o).is_integer():
            o = int(o)
        if isinstance(o, (int, np.integer)) and 0 <= int(o) <= 6:
            r = SymNum(z3.RealVal(1) if self.e.is_real() else z3.IntVal(1))
            for _ in range(int(o)):
                r = r * self
            return r
        raise Unsupported("power %r" % (o,))

    def __neg__(self):
        return SymNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.e >= 0, self.e, -self.e))

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, f, inf_res):
        if isnan(o):
            return False
        if isinf(o):
            return inf_res(float(o))
        b = _num(o)
        if b is None:
            return NotImplemented
        x, y = _coerce(self.e, b)
        return SymBool(f(x, y))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda i: i > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda i: i > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda i: i < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda i: i < 0)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda i: False)
        return False if r is NotImplemented and isinstance(o, NOENC) else r

    def __ne__(self, o):
        if isnan(o):
            return True
        r = self._cmp(o, lambda a, b: a != b, lambda i: True)
        return True if r is NotImplemented and isinstance(o, NOENC) else r
    __hash__ = Sym.__hash__

    def __bool__(self):
        return cur().branch(self.e != 0)

    # numpy object-dtype ufunc fallbacks call these methods by name
    def sqrt(self):
        # a fresh non-negative root: x >= 0 is forked, sqrt(<0) is nan
        if cur().branch(self.e < 0):
            return float('nan')
        arg = z3.simplify(z3.ToReal(self.e) if self.e.is_int() else self.e, som=True)
        memo = cur().roots             # one root per argument
        if arg.get_id() not in memo:
            r = cur().fresh('aux', 'sqrt')
            cur().assume(z3.And(r >= 0, r * r == arg))
            for a0, r0 in memo.values():      # roots keep the order (a lemma for the solver)
                cur().assume((a0 <= arg) == (r0 <= r))
            memo[arg.get_id()] = (arg, r)
        return SymNum(memo[arg.get_id()][1])

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def rint(self):
        return self.__round__()

    def isnan(self):
        return False

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def __floor__(self):
        if self.e.is_int():
            return self
        return SymNum(z3.ToInt(self.e))

    def __ceil__(self):
        if self.e.is_int():
            return self
        return SymNum(-z3.ToInt(-self.e))

    def __trunc__(self):
        if self.e.is_int():
            return self
        return SymNum(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, nd=None):
        if self.e.is_int():
            return self
        if nd not in (None, 0):
            k = 10 ** int(nd)
            return SymNum(z3.ToReal((self * k).__round__().e)) / k
        fl = z3.ToInt(self.e)
        fr = self.e - z3.ToReal(fl)
        even = fl % 2 == 0
        r = z3.If(fr < z3.Q(1, 2), fl, z3.If(fr > z3.Q(1, 2), fl + 1,
                                             z3.If(even, fl, fl + 1)))
        return SymNum(r)

    def __index__(self):
        if not self.e.is_int():
            raise TypeError("symbolic real used as an index")
        return cur().concretize_int(self.e)

    def __int__(self):
        return cur().concretize_int(self.__trunc__().e)

    def is_integer(self):
        if self.e.is_int():
            return True
        return SymBool(z3.IsInt(self.e))

    def astype(self, dt):
        return self


def _div_zero(x):
    """numpy semantics of x / 0 (python floats raise instead; the code under
    test divides numpy scalars)."""
    if cur().branch(x == 0):
        return float('nan')
    return float('inf') if cur().branch(x > 0) else float('-inf')


# ------------------------------------------------------------------ time

def _td_const(x):
    if isinstance(x, (pd.Timedelta, datetime.timedelta, np.timedelta64)):
        x = pd.Timedelta(x)
        if x is pd.NaT:
            return None
        return z3.RealVal(str(Fraction(x.value, 10 ** 9)))
    return None


def _td(x):
    return x.e if isinstance(x, SymTimedelta) else _td_const(x)


class SymTimedelta(Sym):
    __slots__ = ()

    def total_seconds(self):
        return SymNum(self.e)

    @property
    def value(self):
        return SymNum(self.e * 1000000000)

    @property
    def days(self):
        return SymNum(z3.ToInt(self.e / 86400))

    @property
    def seconds(self):
        return SymNum(z3.ToInt(self.e - z3.ToReal(self.days.e) * 86400))

    @property
    def microseconds(self):
        return SymNum(z3.ToInt((self.e - z3.ToReal(z3.ToInt(self.e))) * 1000000))

    def _cmp(self, o, f):
        b = _td(o)
        if b is None:
            return NotImplemented
        return SymBool(f(self.e, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r
    __hash__ = Sym.__hash__

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __add__(self, o):
        b = _td(o)
        if b is None:
            return NotImplemented
        return SymTimedelta(self.e + b)
    __radd__ = __add__

    def __sub__(self, o):
        b = _td(o)
        if b is None:
            return NotImplemented
        return SymTimedelta(self.e - b)

    def __rsub__(self, o):
        b = _td(o)
        if b is None:
            return NotImplemented
        return SymTimedelta(b - self.e)

    def __neg__(self):
        return SymTimedelta(-self.e)

    def __abs__(self):
        return SymTimedelta(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        b = _td(o)
        if b is not None:
            return SymNum(self.e) / SymNum(b)
        n = _num(o)
        if n is None:
            return NotImplemented
        r = SymNum(self.e) / o
        return SymTimedelta(r.e)

    def __rtruediv__(self, o):
        b = _td(o)
        if b is None:
            return NotImplemented
        return SymNum(b) / SymNum(self.e)

    def __mul__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymTimedelta(self.e * (z3.ToReal(n) if n.is_int() else n))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        r = self / o
        if isinstance(r, SymNum):
            return r // 1
        return NotImplemented

    def __mod__(self, o):
        b = _td(o)
        if b is None:
            return NotImplemented
        return SymTimedelta(self.e - (SymNum(self.e) / SymNum(b) // 1).e * b)

    @property
    def value(self):
        return SymNum(self.e * 1000000000)

    def to_timedelta64(self):
        return self

    def to_pytimedelta(self):
        return self

    def astype(self, dt):
        raise Unsupported("timedelta astype")


def ts_expr(ts):
    return z3.RealVal(str(Fraction(pd.Timestamp(ts).value - BASE_NS, 10 ** 9)))


def fixed_offset(tz):
    """Seconds east of UTC of a tz with a fixed offset; others are only tags."""
    if isinstance(tz, str) and tz.startswith('Etc/GMT') and len(tz) > 7:
        return -3600 * int(tz[7:])
    if isinstance(tz, datetime.timezone):
        return int(tz.utcoffset(None).total_seconds())
    return 0


class TzTag(str):
    """The tz of a SymTimestamp as a tzinfo."""

    def utcoffset(self, dt):
        return datetime.timedelta(0)


class SymTimestamp(Sym):
    __slots__ = ('tz',)

    def __init__(self, e, tz='UTC'):
        self.e = e
        self.tz = tz

    @property
    def tzinfo(self):
        return None if self.tz is None else TzTag(self.tz)

    @property
    def value(self):
        return SymNum(self.e * 1000000000 + BASE_NS)

    def timestamp(self):
        return SymNum(self.e + z3.RealVal(str(Fraction(BASE_NS, 10 ** 9))))

    def _other(self, o):
        if isinstance(o, SymTimestamp):
            if (o.tz is None) != (self.tz is None):
                raise TypeError("Cannot compare tz-naive and tz-aware timestamps")
            return o.e
        if isinstance(o, (pd.Timestamp, datetime.datetime, np.datetime64)):
            o = pd.Timestamp(o)
            if o is pd.NaT:
                return None
            if (o.tz is None) != (self.tz is None):
                raise TypeError("Cannot compare tz-naive and tz-aware timestamps")
            return ts_expr(o)
        return None

    def _cmp(self, o, f):
        b = self._other(o)
        if b is None:
            if o is pd.NaT:
                return False
            return NotImplemented
        return SymBool(f(self.e, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, SymTimestamp) and (o.tz is None) != (self.tz is None):
            return False
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if isinstance(o, SymTimestamp) and (o.tz is None) != (self.tz is None):
            return True
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r
    __hash__ = Sym.__hash__

    def __sub__(self, o):
        d = _td(o)
        if d is not None:
            return SymTimestamp(self.e - d, self.tz)
        b = self._other(o)
        if b is None:
            return NotImplemented
        return SymTimedelta(self.e - b)

    def __rsub__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        return SymTimedelta(b - self.e)

    def __add__(self, o):
        if isinstance(o, pd.DateOffset):
            o = offset_to_timedelta(o)
        d = _td(o)
        if d is None:
            return NotImplemented
        return SymTimestamp(self.e + d, self.tz)
    __radd__ = __add__

    def tz_localize(self, tz):
        if tz is None:
            return SymTimestamp(self.e + fixed_offset(self.tz), None)
        if self.tz is not None:
            raise TypeError("Cannot localize tz-aware Timestamp, use tz_convert for conversions")
        if tz != 'UTC' and str(tz) != 'UTC' and not fixed_offset(tz) and not str(tz).startswith('Etc/GMT'):
            raise Unsupported('local times of %s' % (tz,))
        return SymTimestamp(self.e - fixed_offset(tz), tz)

    def tz_convert(self, tz):
        if self.tz is None:
            raise TypeError("Cannot convert tz-naive Timestamp")
        return SymTimestamp(self.e, tz)

    def isoformat(self, sep='T', timespec='auto'):
        unit = {'seconds': 1, 'minutes': 60, 'hours': 3600, 'milliseconds': Fraction(1, 1000)}.get(timespec)
        if unit is None:
            return IsoStr(self)
        off = fixed_offset(self.tz) if self.tz is not None else 0
        u = z3.RealVal(str(unit))
        return IsoStr(SymTimestamp(z3.ToReal(z3.ToInt((self.e + off) / u)) * u - off, self.tz))

    def to_datetime64(self):
        return self

    def to_pydatetime(self, *a, **k):
        return self

    def strftime(self, fmt):
        return '<symts>'

    def __format__(self, spec):
        return '<symts>'

    def __str__(self):
        return '<symts>'


class IsoStr(str):
    """The ISO text of a symbolic timestamp: an opaque string from which the
    timestamp can be parsed again (contract of isoformat / Timestamp(str))."""

    def __new__(cls, ts):
        s = str.__new__(cls, '<iso>')
        s.ts = ts
        return s

    def __eq__(self, o):
        if isinstance(o, IsoStr):
            return self.ts == o.ts
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 7


def offset_to_timedelta(o):
    k = dict(o.kwds)
    if not k:
        return datetime.timedelta(days=o.n)
    bad = set(k) - {'days', 'hours', 'minutes', 'seconds', 'weeks',
                    'microseconds', 'milliseconds'}
    if bad:
        raise Unsupported("calendar offset %r" % (o,))
    return datetime.timedelta(**k) * o.n


def is_sym(x):
    return isinstance(x, Sym)


def contains_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(isinstance(x, Sym) for x in a.ravel())
    if isinstance(a, (pd.Series, pd.Index)):
        return a.dtype == object and any(isinstance(x, Sym) for x in np.asarray(a))
    if isinstance(a, pd.DataFrame):
        return any(contains_sym(a.iloc[:, i]) for i in range(a.shape[1]))
    if isinstance(a, (list, tuple)):
        return any(contains_sym(x) for x in a)
    return False


class SymStr(str):
    """A string which is one of finitely many options (an int variable).
    Comparisons are symbolic; whatever needs the characters forks."""

    def __new__(cls, e, options):
        o = str.__new__(cls, '\0symbolic')
        o.e = e
        o.options = list(options)
        return o

    def conc(self):
        eng = cur()
        for k in range(len(self.options) - 1):
            if eng.branch(self.e == k):
                return self.options[k]
        return self.options[-1]

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return SymBool(z3.Or([z3.And(self.e == i, o.e == j) for i, a in enumerate(self.options)
                                  for j, b in enumerate(o.options) if a == b] or [z3.BoolVal(False)]))
        if isinstance(o, str):
            return SymBool(z3.Or([self.e == i for i, a in enumerate(self.options) if a == o] or [z3.BoolVal(False)]))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else r

    def __hash__(self):
        return hash(self.conc())

    def __repr__(self):
        return repr(self.conc())

    def __str__(self):
        return self.conc()

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __bool__(self):
        return bool(SymBool(z3.Or([self.e == i for i, a in enumerate(self.options) if a] or [z3.BoolVal(False)])))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _str_method(name):
    f = getattr(str, name)

    def g(self, *a, **k):
        a = [x.conc() if isinstance(x, SymStr) else [y.conc() if isinstance(y, SymStr) else y for y in x] if isinstance(x, list) else x for x in a]
        return f(self.conc(), *a, **k)
    return g


for _n in ('__add__', '__len__', '__getitem__', '__lt__', '__le__', '__gt__', '__ge__', '__mod__', '__contains__', '__iter__', '__mul__',
           'replace', 'split', 'startswith', 'endswith', 'capitalize', 'lower', 'upper', 'title', 'strip', 'lstrip', 'rstrip',
           'partition', 'rpartition', 'encode', 'find', 'index', 'count', 'format', 'join', 'isdigit', 'rfind', 'rindex'):
    setattr(SymStr, _n, _str_method(_n))


class SymId(int):
    """A small integer used as an identifier: compared, hashed, printed."""

    def __new__(cls, e):
        o = int.__new__(cls, -10 ** 9)
        o.e = e
        return o

    def conc(self):
        return cur().concretize_int(self.e)

    def _cmp(self, o, f):
        if isinstance(o, SymId):
            return SymBool(f(self.e, o.e))
        if isinstance(o, SymNum):
            return SymBool(f(self.e, o.e))
        if isinstance(o, (int, np.integer)):
            return SymBool(f(self.e, int(o)))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(SymBool(self.e != 0))

    def __hash__(self):
        return hash(self.conc())

    def __repr__(self):
        return repr(self.conc())
    __str__ = __repr__

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __index__(self):
        return self.conc()
    __int__ = __trunc__ = __index__

    def __float__(self):
        return float(self.conc())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _int_method(name):
    f = getattr(int, name)

    def g(self, *a):
        return f(self.conc(), *[x.conc() if isinstance(x, SymId) else x for x in a])
    return g


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__floordiv__', '__rfloordiv__', '__mod__', '__rmod__',
           '__truediv__', '__rtruediv__', '__neg__', '__abs__', '__pow__', '__and__', '__or__'):
    setattr(SymId, _n, _int_method(_n))
