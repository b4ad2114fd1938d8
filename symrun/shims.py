"""Stand-ins installed in the globals of the nilmtk modules while they run
symbolically.  They only change how *proxy* arguments are treated: called with
ordinary values every stand-in calls the original.  They are removed for every
concrete run and replay.

Replacement is by identity of the object, whatever name the module gave it, so
`import pandas as pd`, `from pandas import Timestamp` and so on are all found.
"""
import builtins
import contextlib
import datetime
import gc
import operator
import sys
import types

import numpy as np
import pandas as pd
from pandas.core import roperator
import z3

from .core import cur, Unsupported
from .proxies import (Sym, SymBool, SymNum, SymTimestamp, SymTimedelta, IsoStr,
                      contains_sym, is_sym, isnan, _num, _td, BASE)


class ModuleShim(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__['_real'], k)


class _ClsMeta(type):
    """A class stand-in: isinstance accepts proxies, attributes fall through."""
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or isinstance(x, cls._syms) and cls._ok(x)

    def __subclasscheck__(cls, c):
        try:
            return issubclass(c, cls._real) or issubclass(c, cls._syms)
        except TypeError:
            return False

    def __getattr__(cls, k):
        return getattr(type.__getattribute__(cls, '_real'), k)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is type.__getattribute__(cls, '_real')

    def __hash__(cls):
        return hash(type.__getattribute__(cls, '_real'))

    def __repr__(cls):
        return repr(cls._real)

    def __or__(cls, o):
        return cls._real | o


def _cls(real, syms, make, ok=lambda x: True):
    return _ClsMeta(real.__name__, (), dict(_real=real, _syms=syms,
                                            _make=staticmethod(make),
                                            _ok=staticmethod(ok)))


def _mk_timestamp(*a, **k):
    x = a[0] if a else k.get('ts_input')
    if isinstance(x, IsoStr):
        x = x.ts
    if isinstance(x, SymTimestamp):
        tz = k.get('tz')
        if tz is not None:
            return x.tz_localize(tz) if x.tz is None else x.tz_convert(tz)
        return x
    if isinstance(x, Sym):
        raise Unsupported("Timestamp of a symbolic number")
    return pd.Timestamp(*a, **k)


UNITS = {'s': 1, 'S': 1, 'sec': 1, 'seconds': 1, 'second': 1, 'm': 60,
         'min': 60, 'T': 60, 'minutes': 60, 'h': 3600, 'H': 3600,
         'hours': 3600, 'd': 86400, 'D': 86400, 'days': 86400,
         'ms': 0.001, 'milliseconds': 0.001}


def _secs(**k):
    tot = 0
    per = dict(days=86400, hours=3600, minutes=60, seconds=1, weeks=604800)
    for u, v in k.items():
        if u not in per:
            raise Unsupported("timedelta unit " + u)
        tot = tot + v * per[u]
    return tot


def _as_td(n):
    e = _num(n)
    return SymTimedelta(z3.ToReal(e) if e.is_int() else e)


def _mk_timedelta(real):
    def make(*a, **k):
        if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
            k = dict(k)
            if a and isinstance(a[0], SymTimedelta):
                return a[0]
            if real is pd.Timedelta and a:
                unit = a[1] if len(a) > 1 else k.get('unit', 'ns')
                if unit not in UNITS:
                    raise Unsupported("Timedelta unit %r" % (unit,))
                return _as_td(a[0] * UNITS[unit])
            k.pop('unit', None)
            if a:
                k['days'] = a[0]
                if len(a) > 1:
                    k['seconds'] = a[1]
                if len(a) > 2:
                    raise Unsupported("timedelta args")
            return _as_td(_secs(**k))
        return real(*a, **k)
    return make


def _mk_int(*a, **k):
    if a and isinstance(a[0], SymNum):
        return a[0].__trunc__()
    if a and isinstance(a[0], SymBool):
        return a[0].num()
    return int(*a, **k)


def _mk_float(*a, **k):
    if a and isinstance(a[0], SymNum):
        e = a[0].e
        return SymNum(z3.ToReal(e)) if e.is_int() else a[0]
    if a and isinstance(a[0], SymBool):
        return SymNum(z3.ToReal(a[0].num().e))
    return float(*a, **k)


def _mk_bool(*a, **k):
    return bool(*a, **k)


def _mk_np(real):
    def make(*a, **k):
        if a and isinstance(a[0], SymNum):
            if issubclass(real, np.integer):
                return a[0].__trunc__()
            return _mk_float(a[0])
        return real(*a, **k)
    return make


Timestamp = _cls(pd.Timestamp, SymTimestamp, _mk_timestamp)
Timedelta = _cls(pd.Timedelta, SymTimedelta, _mk_timedelta(pd.Timedelta))
timedelta = _cls(datetime.timedelta, SymTimedelta, _mk_timedelta(datetime.timedelta))
dt_datetime = _cls(datetime.datetime, SymTimestamp, lambda *a, **k: datetime.datetime(*a, **k))
Int = _cls(int, SymNum, _mk_int, lambda x: x.e.is_int())
Float = _cls(float, SymNum, _mk_float, lambda x: x.e.is_real())


# --------------------------------------------------------------------- numpy

def _obj(a):
    return np.asarray(a, dtype=object) if not isinstance(a, (pd.Series, pd.DataFrame)) else a


def _elem(f, a):
    if isinstance(a, pd.DataFrame):
        return a.map(f)
    if isinstance(a, pd.Series):
        return a.map(f)
    arr = np.asarray(a, dtype=object)
    if arr.ndim == 0:
        return f(arr.item())
    out = np.empty(arr.shape, dtype=object)
    for i, x in np.ndenumerate(arr):
        out[i] = f(x)
    return out


def _is_floaty(dt):
    if dt is None:
        return True
    if isinstance(dt, _ClsMeta):
        dt = dt._real
    try:
        return np.dtype(dt).kind in 'fc'
    except TypeError:
        return False


def _dt(dt):
    return dt._real if isinstance(dt, _ClsMeta) else dt


def _np_isnan(a, *r, **k):
    if contains_sym(a) or (getattr(a, 'dtype', None) == object):
        res = _elem(lambda x: bool(not is_sym(x) and x is not None and x != x), a)
        if isinstance(res, np.ndarray):
            return res.astype(bool)
        return res.astype(bool) if isinstance(res, (pd.Series, pd.DataFrame)) else bool(res)
    return np.isnan(a, *r, **k)


def _np_isfinite(a, *r, **k):
    if contains_sym(a) or getattr(a, 'dtype', None) == object:
        res = _elem(lambda x: bool(is_sym(x) or np.isfinite(x)), a)
        return res.astype(bool) if isinstance(res, np.ndarray) else bool(res)
    return np.isfinite(a, *r, **k)


def _alloc(name):
    real = getattr(np, name)

    def f(shape, *a, **k):
        if name == 'full':
            fill = a[0] if a else k.pop('fill_value')
            a = a[1:]
            dt = a[0] if a else k.get('dtype')
            if contains_sym(fill) or (dt is None and isinstance(fill, float)) or \
                    (dt is not None and _is_floaty(dt)):
                out = np.empty(shape, dtype=object)
                out[...] = fill
                return out
            return real(shape, fill, *[_dt(x) for x in a], **{kk: _dt(v) for kk, v in k.items()})
        dt = a[0] if a else k.get('dtype')
        if _is_floaty(dt):
            out = np.empty(shape, dtype=object)
            out[...] = {'zeros': 0.0, 'ones': 1.0, 'empty': None}[name]
            return out
        return real(shape, *[_dt(x) for x in a], **{kk: _dt(v) for kk, v in k.items()})
    return f


def _np_array(name):
    real = getattr(np, name)

    def f(x, *a, **k):
        dt = a[0] if a else k.get('dtype')
        if contains_sym(x):
            if isinstance(x, (pd.Series, pd.Index, pd.DataFrame)):
                return np.array(x.values, dtype=object)
            return real(x, dtype=object)
        return real(x, *[_dt(v) for v in a], **{kk: _dt(v) for kk, v in k.items()})
    return f


def _nanred(name):
    real = getattr(np, name)

    def f(a, axis=None, **k):
        if not contains_sym(a):
            return real(a, axis=axis, **k)
        arr = np.asarray(a, dtype=object)

        def red(v):
            v = [x for x in v if not isnan(x)]
            if name == 'nansum':
                return sum(v) if v else 0.0
            if not v:
                return float('nan')
            if name == 'nanmean':
                return sum(v) / SymNum(z3.RealVal(len(v)))
            if name == 'nanmax':
                return _vmax(v)
            if name == 'nanmin':
                return _vmin(v)
            raise Unsupported(name)
        if axis is None:
            return red(list(arr.ravel()))
        return np.array([red(list(r)) for r in np.moveaxis(arr, axis, -1).reshape(-1, arr.shape[axis])],
                        dtype=object)
    return f


def _vmax(v):
    m = v[0]
    for x in v[1:]:
        if x > m:
            m = x
    return m


def _vmin(v):
    m = v[0]
    for x in v[1:]:
        if x < m:
            m = x
    return m


def _pairwise(name):
    real = getattr(np, name)

    def pick(a, b):
        if isnan(a) or isnan(b):
            return float('nan')
        if name == 'minimum':
            return a if a < b else b
        return a if a > b else b

    def f(a, b, **k):
        if not (contains_sym(a) or contains_sym(b)):
            return real(a, b, **k)
        if isinstance(a, Sym) and isinstance(b, (Sym, int, float)) or \
                isinstance(b, Sym) and isinstance(a, (int, float)):
            return pick(a, b)
        aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(aa.shape, dtype=object)
        for i in np.ndindex(aa.shape):
            out[i] = pick(aa[i], bb[i])
        if isinstance(a, pd.Series):
            return pd.Series(out, index=a.index)
        return out

    def reduce(a, axis=0, **k):
        if not contains_sym(a):
            return real.reduce(a, axis=axis, **k)
        if axis not in (0, None) or k:
            raise Unsupported('np.%s.reduce' % name)
        arr = np.asarray(a, dtype=object)
        r = arr[0]
        for x in (arr.ravel() if axis is None else arr)[1:]:
            r = f(r, x)
        return r

    def accumulate(a, axis=0, **k):
        if not contains_sym(a):
            return real.accumulate(a, axis=axis, **k)
        if axis != 0 or k:
            raise Unsupported('np.%s.accumulate' % name)
        arr = np.array(a, dtype=object)
        for i in range(1, len(arr)):
            arr[i] = f(arr[i - 1], arr[i])
        return arr
    f.reduce, f.accumulate = reduce, accumulate
    return f


def _moment(name):
    real = getattr(np, name)

    def f(a, axis=None, dtype=None, out=None, ddof=0, **k):
        if not contains_sym(a):
            return real(a, axis=axis, ddof=ddof, **k)
        arr = np.asarray(a, dtype=object)
        if k or out is not None or axis not in (None, 0) or axis == 0 and arr.ndim > 1:
            raise Unsupported('np.' + name)
        r = _var(list(arr.ravel()), ddof)
        return r.sqrt() if name == 'std' and is_sym(r) else r ** 0.5 if name == 'std' else r
    return f


def _var(v, ddof):
    if any(isnan(x) for x in v) or len(v) <= ddof:
        return float('nan')
    m = sum(v) / SymNum(z3.RealVal(len(v)))
    return sum((x - m) * (x - m) for x in v) / SymNum(z3.RealVal(len(v) - ddof))


def _median(v):
    """By rank, without forking on the order of the others."""
    if any(isnan(x) for x in v) or not v:
        return float('nan')
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def _np_median(a, axis=None, **k):
    if not contains_sym(a):
        return np.median(a, axis=axis, **k)
    arr = np.asarray(a, dtype=object)
    if k or axis not in (None, 0) or axis == 0 and arr.ndim > 1:
        raise Unsupported('np.median')
    return _median(list(arr.ravel()))


def _np_isclose_etc(name):
    def f(*a, **k):
        if any(contains_sym(x) for x in a):
            raise Unsupported('np.' + name)
        return getattr(np, name)(*a, **k)
    return f


def _np_round(a, *r, **k):
    if contains_sym(a):
        nd = r[0] if r else k.get('decimals', 0)
        return _elem(lambda x: x.__round__(nd) if is_sym(x) else (x if isnan(x) else round(x, nd)), a)
    return np.round(a, *r, **k)


def _np_abs(a, *r, **k):
    if contains_sym(a) and not isinstance(a, (pd.Series, pd.DataFrame)):
        return _elem(abs, a)
    return np.abs(a, *r, **k)


def _np_fabs(a, *r, **k):
    if contains_sym(a) or getattr(a, 'dtype', None) == object:
        return _elem(abs, a)
    return np.fabs(a, *r, **k)


def _np_sqrt(a, *r, **k):
    if contains_sym(a):
        return _elem(lambda x: x.sqrt() if is_sym(x) else float(np.sqrt(x)), a)
    return np.sqrt(a, *r, **k)


def _np_unary(name, meth):
    real = getattr(np, name)

    def f(a, *r, **k):
        if contains_sym(a):
            return _elem(lambda x: getattr(x, meth)() if is_sym(x) else real(x), a)
        return real(a, *r, **k)
    return f


def _np_where(c, *r):
    if isinstance(c, np.ndarray) and c.dtype == object:
        c = c.astype(bool)
    return np.where(c, *r)


def _np_count_nonzero(a, *r, **k):
    if isinstance(a, np.ndarray) and a.dtype == object:
        a = a.astype(bool)
    return np.count_nonzero(a, *r, **k)


class _RoundArr(np.ndarray):
    """Object array which supports the numeric methods round() and astype()."""
    def round(self, decimals=0, out=None):
        return _elem(lambda x: x.__round__(decimals or None) if is_sym(x) else round(x, decimals), self).view(_RoundArr)

    def astype(self, dt, *a, **k):
        dt = _dt(dt)
        if contains_sym(self) and np.dtype(dt).kind in 'iu':
            return _elem(lambda x: x.__trunc__() if is_sym(x) else int(x), self).view(_RoundArr)
        return super().astype(dt, *a, **k)


def rounded_array(ctx, vals):
    """Array of learnt parameters, as numpy would hold them."""
    if not ctx.symbolic:
        return np.array(vals, dtype=float)
    return np.array(vals, dtype=object).view(_RoundArr)


# -------------------------------------------------------------------- pandas
def _mk_frame(real):
    def make(*a, **k):
        dt = k.get('dtype')
        if dt is not None and _is_floaty(dt):
            data = a[0] if a else k.get('data')
            if isinstance(data, dict):
                sym = any(contains_sym(v) for v in data.values())
            else:
                sym = contains_sym(data)
            if sym:
                k = dict(k)
                del k['dtype']
        elif isinstance(dt, _ClsMeta):
            k = dict(k, dtype=_dt(dt))
        return real(*a, **k)
    return make


DataFrame = _cls(pd.DataFrame, (), _mk_frame(pd.DataFrame))
Series = _cls(pd.Series, (), _mk_frame(pd.Series))


def _mk_timedelta64(*a, **k):
    """Object arrays of symbolic durations need a scalar they can be compared with."""
    if a and isinstance(a[0], SymTimedelta):
        return a[0]
    if a and isinstance(a[0], SymNum):
        if len(a) != 2 or a[1] not in UNITS64:
            raise Unsupported('timedelta64')
        if a[1] in ('ms', 'us', 'ns'):
            return _as_td(SymNum(z3.ToReal(a[0].e) if a[0].e.is_int() else a[0].e) / UNITS64[a[1]])
        return _as_td(SymNum(z3.ToReal(a[0].e) if a[0].e.is_int() else a[0].e) * UNITS64[a[1]])
    r = np.timedelta64(*a, **k)
    return r if np.isnat(r) or np.datetime_data(r)[0] in ('Y', 'M', 'generic') else pd.Timedelta(r)


UNITS64 = {'ms': 10**3, 'us': 10**6, 'ns': 10**9, 's': 1, 'm': 60, 'h': 3600, 'D': 86400, 'W': 604800}


def np_shim():
    over = dict(
        isnan=_np_isnan, isfinite=_np_isfinite, nansum=_nanred('nansum'),
        nanmean=_nanred('nanmean'), nanmax=_nanred('nanmax'),
        nanmin=_nanred('nanmin'), zeros=_alloc('zeros'), ones=_alloc('ones'),
        empty=_alloc('empty'), full=_alloc('full'), array=_np_array('array'),
        asarray=_np_array('asarray'), minimum=_pairwise('minimum'),
        maximum=_pairwise('maximum'), round=_np_round, abs=_np_abs,
        absolute=_np_abs, fabs=_np_fabs, sqrt=_np_sqrt, floor=_np_unary('floor', '__floor__'),
        ceil=_np_unary('ceil', '__ceil__'), where=_np_where,
        count_nonzero=_np_count_nonzero,
        var=_moment('var'), std=_moment('std'), median=_np_median,
        timedelta64=_cls(np.timedelta64, SymTimedelta, _mk_timedelta64),
        isclose=_np_isclose_etc('isclose'), allclose=_np_isclose_etc('allclose'),
    )
    for n in ('float32', 'float64', 'int32', 'int64'):
        real = getattr(np, n)
        over[n] = _cls(real, SymNum, _mk_np(real), lambda x: False)
    return over


# ---------------------------------------------------------------- pandas tz
def _index_tz(self):
    for x in self:
        if isinstance(x, SymTimestamp):
            return x.tz
    raise AttributeError('tz')


def _index_total_seconds(self):
    if not len(self) or not all(isinstance(x, SymTimedelta) or isinstance(x, datetime.timedelta) for x in self):
        raise AttributeError('total_seconds')
    return pd.Index([x.total_seconds() for x in self], dtype=object)


def _nanred_axis(values, axis, skipna, red):
    def one(v):
        v = [x for x in v if not isnan(x)] if skipna else list(v)
        return red(v)
    if axis is None or values.ndim == 1:
        return one(list(values.ravel()))
    return np.array([one(list(r)) for r in np.moveaxis(values, axis, -1)], dtype=object)


class _Dt(object):
    """Series.dt for durations."""
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return pd.Series([x.total_seconds() if isinstance(x, (SymTimedelta, datetime.timedelta)) and x is not pd.NaT else float('nan') for x in self.s],
                         index=self.s.index, name=self.s.name, dtype=object)

    def __getattr__(self, k):
        raise Unsupported('Series.dt.' + k)


_REAL_DT = pd.Series.__dict__['dt']


class _DtAttr(object):
    def __get__(self, obj, owner=None):
        if obj is not None and obj.dtype == object and any(isinstance(x, (SymTimedelta, SymTimestamp)) for x in obj):
            return _Dt(obj)
        return _REAL_DT.__get__(obj, owner)


def _pd_method(cls, name, f):
    real = getattr(cls, name)

    def method(self, *a, **k):
        if contains_sym(self):
            r = f(self, *a, **k)
            if r is not NotImplemented:
                return r
        return real(self, *a, **k)
    return (cls, name, method)


def _pd_astype(self, dtype=None, *a, **k):
    if not isinstance(dtype, dict) and dtype is not None and not isinstance(dtype, str) or isinstance(dtype, str) and dtype.startswith('float'):
        try:
            if np.dtype(_dt(dtype)).kind == 'f':
                return self.copy()
        except TypeError:
            pass
    if isinstance(dtype, _ClsMeta):
        return self.astype(_dt(dtype), *a, **k)
    return NotImplemented


def _pd_round(self, decimals=0, *a, **k):
    return _elem(lambda x: x.__round__(decimals or None) if is_sym(x) else x if isnan(x) or x is None else round(x, decimals), self)


def _pd_nlargest(self, n=5, keep='first'):
    return self.sort_values(ascending=False, kind='stable').head(n) if keep == 'first' else NotImplemented


def _pd_nsmallest(self, n=5, keep='first'):
    return self.sort_values(kind='stable').head(n) if keep == 'first' else NotImplemented


PD_ATTRS = [_pd_method(pd.Series, 'astype', _pd_astype), _pd_method(pd.DataFrame, 'astype', _pd_astype),
            _pd_method(pd.Series, 'round', _pd_round), _pd_method(pd.DataFrame, 'round', _pd_round),
            _pd_method(pd.Series, 'nlargest', _pd_nlargest), _pd_method(pd.Series, 'nsmallest', _pd_nsmallest),
            (pd.Series, 'dt', _DtAttr())]


def _safe_div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


@contextlib.contextmanager
def installed(extra=None):
    """Install the stand-ins in every loaded nilmtk module (tests excluded)."""
    extra = extra or {}
    np_over = np_shim()
    np_over.update(extra.get('np', {}))
    pd_over = dict(Timestamp=Timestamp, Timedelta=Timedelta, DataFrame=DataFrame, Series=Series)
    pd_over.update(extra.get('pd', {}))
    npm = ModuleShim(np, np_over)
    pdm = ModuleShim(pd, pd_over)
    import math
    dtm = ModuleShim(datetime, dict(timedelta=timedelta, datetime=dt_datetime))
    subst = {id(np): npm, id(pd): pdm, id(pd.Timestamp): Timestamp,
             id(pd.Timedelta): Timedelta, id(pd.DataFrame): DataFrame, id(pd.Series): Series, id(datetime.timedelta): timedelta,
             id(datetime): dtm, id(datetime.datetime): dt_datetime,
             id(gc): ModuleShim(gc, dict(collect=lambda *a: 0))}
    for n, f in np_over.items():
        real = getattr(np, n, None)
        if real is not None:
            subst[id(real)] = f
    for real, f in extra.get('subst', []):
        subst[id(real)] = f
    undo = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == 'nilmtk' or name.startswith('nilmtk.')):
            continue
        if '.tests' in name or 'dataset_converters' in name and not extra.get('converters'):
            continue
        d = mod.__dict__
        for k, v in list(d.items()):
            if k.startswith('__'):
                continue
            s = subst.get(id(v))
            if s is not None:
                undo.append((d, k, v, True))
                d[k] = s
        for k, v in dict({'int': Int, 'float': Float}, **extra.get('builtins', {})).items():
            if k not in d:
                undo.append((d, k, None, False))
                d[k] = v
        for k, v in extra.get('globals', {}).get(name, {}).items():
            undo.append((d, k, d.get(k), k in d))
            d[k] = v
    import pandas.core.nanops as nanops
    orig = nanops._ensure_numeric

    def ens(x):
        if contains_sym(x):
            return x
        return orig(x)
    nanops._ensure_numeric = ens
    # object arrays hold what would be floats: all-missing sums are NaN (not
    # None), and division by zero follows numpy, not Python
    orig_null = nanops._maybe_null_out

    def null_out(result, *a, **k):
        r = orig_null(result, *a, **k)
        if isinstance(r, np.ndarray) and r.dtype == object:
            for i, x in np.ndenumerate(r):
                if x is None:
                    r[i] = float('nan')
        return r
    nanops._maybe_null_out = null_out
    import pandas.core.computation.expressions as pexpr
    orig_eval = pexpr.evaluate

    def evaluate(op, a, b, *r, **k):
        if op in (operator.truediv, roperator.rtruediv) and \
                (getattr(a, 'dtype', None) == object or getattr(b, 'dtype', None) == object):
            x, y = (a, b) if op is operator.truediv else (b, a)
            return np.frompyfunc(_safe_div, 2, 1)(x, y)
        return orig_eval(op, a, b, *r, **k)
    pexpr.evaluate = evaluate
    saved_ops = {n: getattr(nanops, n) for n in ('nanvar', 'nanmedian')}

    def nanvar(values, *, axis=None, skipna=True, ddof=1, mask=None):
        if not contains_sym(values):
            return saved_ops['nanvar'](values, axis=axis, skipna=skipna, ddof=ddof, mask=mask)
        return _nanred_axis(values, axis, skipna, lambda v: _var(v, ddof))

    def nanmedian(values, *, axis=None, skipna=True, mask=None):
        if not contains_sym(values):
            return saved_ops['nanmedian'](values, axis=axis, skipna=skipna, mask=mask)
        return _nanred_axis(values, axis, skipna, _median)
    nanops.nanvar, nanops.nanmedian = nanvar, nanmedian
    attrs = []
    for cls, n, f in PD_ATTRS + extra.get('attrs', []):
        attrs.append((cls, n, cls.__dict__.get(n), n in cls.__dict__))
        setattr(cls, n, f)
    had_tz = 'tz' in pd.Index.__dict__
    if not had_tz:
        pd.Index.tz = property(_index_tz)
        pd.Index.total_seconds = _index_total_seconds
    try:
        yield
    finally:
        nanops._ensure_numeric = orig
        nanops._maybe_null_out = orig_null
        pexpr.evaluate = orig_eval
        if not had_tz:
            del pd.Index.tz
            del pd.Index.total_seconds
        for n, f in saved_ops.items():
            setattr(nanops, n, f)
        for cls, n, f, had in reversed(attrs):
            if had:
                setattr(cls, n, f)
            else:
                delattr(cls, n)
        for d, k, v, had in reversed(undo):
            if had:
                d[k] = v
            else:
                d.pop(k, None)
