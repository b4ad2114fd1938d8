"""Raw data files (CSV and the like) whose cells may be symbolic.

The files are real ones in a scratch directory.  In symbolic runs a symbolic
cell is written as digits which stand for it; pd.read_csv parses the file for
real (as text) and the digits are then replaced by the symbolic value.
Concrete runs write the values themselves."""
import importlib
import io
import os

import numpy as np
import pandas as pd
import z3
from fractions import Fraction

from symrun.core import Unsupported
from symrun.proxies import BASE, BASE_NS, SymNum, SymTimestamp, contains_sym, is_sym, isnan
from symrun import shims
from . import fakestore, resampling

TOKENS = {}
EPOCH = BASE_NS // 10 ** 9
UNIT = {'s': 1, 'ms': 1000, 'us': 10 ** 6, 'ns': 10 ** 9}


def token(x):
    d = '7%09d' % (len(TOKENS) + 1)
    TOKENS[d] = x
    return d


class Text(object):
    """An instant written as text."""
    def __init__(self, t, fmt='%Y-%m-%d %H:%M:%S%z', tz='UTC'):
        self.t, self.fmt, self.tz = t, fmt, tz

    def write(self):
        if is_sym(self.t):
            t = self.t.tz_convert(self.tz)
            return token(t if '%z' in self.fmt else t.tz_localize(None))
        s = self.t.tz_convert(self.tz).strftime(self.fmt)
        return s[:-2] + ':' + s[-2:] if self.fmt.endswith('%z') else s


def cell(x):
    if isinstance(x, Text):
        return x.write()
    if is_sym(x):
        return token(x)
    if isnan(x):
        return ''
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    return str(x)


def write(path, rows, sep=',', head=(), opener=open):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with opener(path, 'wt') as f:
        for line in head:
            f.write(line + '\n')
        for r in rows:
            f.write(sep.join(cell(x) for x in r) + '\n')


def epoch(ctx, name, lo=0, hi=1000, unit='s'):
    """(number as written in a file, instant)"""
    n = ctx.int(name, lo * UNIT[unit], hi * UNIT[unit])
    return n + EPOCH * UNIT[unit], instant(ctx, n, unit)


def instant(ctx, n, unit='s'):
    if ctx.symbolic:
        e = z3.ToReal(n.e)
        return SymTimestamp(e if unit == 's' else e / UNIT[unit])
    return BASE + pd.Timedelta(int(n), unit)


def second(ctx, name, lo=0, hi=1000):
    """An instant at a full second."""
    return epoch(ctx, name, lo, hi)[1]


# ------------------------------------------------------------------ stand-ins
_read = pd.read_csv


def _value(v):
    if is_sym(v) or isnan(v):
        return v
    s = str(v)
    if s.endswith('.0'):
        s = s[:-2]
    return TOKENS.get(s, v)


def _obj(vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


def _column(vals, dtype):
    vals = [_value(v) for v in vals]
    if any(is_sym(v) for v in vals):
        return _obj([v if is_sym(v) or isnan(v) else _number(v) for v in vals])
    try:
        a = pd.to_numeric(pd.Series(vals)).values
    except (ValueError, TypeError):
        return _obj(vals)
    return a.astype(dtype) if dtype is not None else a


def _number(v):
    try:
        return float(v)
    except ValueError:
        return v


def _frame(df, dtype):
    cols = []
    for j in range(df.shape[1]):
        d = dtype
        if isinstance(dtype, dict):
            d = dtype.get(df.columns[j])
        if d is not None:
            d = shims._dt(d)
        cols.append(_column(list(df.iloc[:, j]), d))
    out = pd.DataFrame(dict(enumerate(cols)), index=df.index)
    out.columns = df.columns
    if not isinstance(df.index, pd.RangeIndex):
        if isinstance(df.index, pd.MultiIndex):
            raise Unsupported('index of several columns')
        ix = _column(list(df.index), None)
        out.index = pd.Index(ix, name=df.index.name, dtype=object if contains_sym(ix) else None)
    return out


def read_csv(src, *a, **k):
    if a and len(a) > 1:
        raise Unsupported('read_csv options')
    if a:
        k['sep'] = a[0]
    if isinstance(src, io.StringIO):
        pos = src.tell()
        found = any(t in src.getvalue() for t in TOKENS)
        src.seek(pos)
    else:
        p = os.fspath(src)
        import gzip
        with (gzip.open if p.endswith('.gz') else open)(p, 'rb') as f:
            text = f.read().decode('latin-1')
        found = any(t in text for t in TOKENS)
    if not found:
        return _read(src, **k)
    bad = set(k) - {'sep', 'delimiter', 'names', 'header', 'usecols', 'index_col', 'dtype', 'na_values', 'skiprows', 'chunksize', 'nrows', 'engine',
                    'encoding', 'on_bad_lines', 'iterator', 'low_memory', 'delim_whitespace', 'skipinitialspace', 'memory_map', 'keep_default_na'}
    if bad:
        raise Unsupported('read_csv(%s)' % ', '.join(sorted(bad)))
    dtype = k.pop('dtype', None)
    r = _read(src, dtype=str, **k)
    if isinstance(r, pd.DataFrame):
        return _frame(r, dtype)
    return (_frame(c, dtype) for c in r)


def _ts(v, unit, utc):
    if isinstance(v, SymTimestamp):
        if v.tz is None:
            return v.tz_localize('UTC') if utc else v
        return v.tz_convert('UTC') if utc else v
    if isinstance(v, SymNum):
        e = z3.ToReal(v.e) if v.e.is_int() else v.e
        f = UNIT[unit or 'ns']
        t = SymTimestamp((e if f == 1 else e / f) - EPOCH)
        return t if utc else t.tz_localize(None)
    return pd.to_datetime(v, unit=unit, utc=utc)


def to_datetime(x, *a, **k):
    vals = [x] if is_sym(x) else x
    if not contains_sym(vals):
        return pd.to_datetime(x, *a, **k)
    k.pop('infer_datetime_format', None)
    k.pop('cache', None)
    unit, utc, fmt = k.pop('unit', None), k.pop('utc', False), k.pop('format', None)
    if a or k or unit not in (None,) + tuple(UNIT) or fmt not in (None, 'ISO8601', 'mixed'):
        raise Unsupported('to_datetime options')
    if is_sym(x):
        return _ts(x, unit, utc)
    out = _obj([_ts(v, unit, utc) for v in x])
    if isinstance(x, pd.Series):
        return pd.Series(out, index=x.index, name=x.name, dtype=object)
    return pd.Index(out, dtype=object, name=getattr(x, 'name', None))


def to_numeric(x, *a, **k):
    return x if contains_sym(x) else pd.to_numeric(x, *a, **k)


class _DtiMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, pd.DatetimeIndex) or isinstance(x, pd.Index) and len(x) > 0 and all(isinstance(t, SymTimestamp) for t in x)

    def __call__(cls, data=None, *a, **k):
        if contains_sym(data) and not a and not set(k) - {'name'}:
            return pd.Index(_obj([_ts(v, None, False) for v in data]), dtype=object, **k)
        return pd.DatetimeIndex(data, *a, **k)

    def __getattr__(cls, k):
        return getattr(pd.DatetimeIndex, k)


class DatetimeIndex(metaclass=_DtiMeta):
    pass


class _Instants(np.ndarray):
    """Values of an index of symbolic instants."""
    def astype(self, dt, *a, **k):
        d = shims._dt(dt)
        if d != object and np.dtype(d).kind == 'i':
            return _obj([SymNum(z3.ToInt(t.value.e)) for t in self])
        return np.asarray(self).astype(d, *a, **k)


_values = pd.Index.__dict__['values']


def _index_values(self):
    v = _values.__get__(self, type(self))
    if isinstance(v, np.ndarray) and v.dtype == object and len(v) and all(isinstance(t, SymTimestamp) for t in v):
        return v.view(_Instants)
    return v


def _each(name):
    def f(self, *a, **k):
        for o in ('ambiguous', 'nonexistent'):
            if k.get(o, 'raise') == 'raise':
                k.pop(o, None)
        if len(self) and all(isinstance(t, SymTimestamp) for t in self):
            return pd.Index(_obj([getattr(t, name)(*a, **k) for t in self]), dtype=object, name=self.name)
        raise TypeError('index is not a valid DatetimeIndex or PeriodIndex')
    return f


_concat = pd.concat


def concat(objs, *a, **k):
    """Side by side: rows are matched by instant."""
    axis = k.get('axis', a[0] if a else 0)
    objs = list(objs) if not isinstance(objs, dict) else objs
    if axis not in (1, 'columns') or isinstance(objs, dict) or not any(contains_sym(list(o.index)) for o in objs):
        return _concat(objs, *a, **k)
    if set(k) - {'axis', 'sort'} or len(a) > 1 or not all(isinstance(o, pd.DataFrame) for o in objs):
        raise Unsupported('concat options')
    rows = list(objs[0].index)
    same = True
    for o in objs[1:]:
        mine = list(o.index)
        if len(mine) == len(rows) and all(x is y or bool(x == y) for x, y in zip(rows, mine)):
            continue
        same = False
        for t in mine:
            if not any(t is x or bool(t == x) for x in rows):
                rows.append(t)
    if not same:
        import functools
        rows.sort(key=functools.cmp_to_key(lambda x, y: -1 if x < y else 1))
    data, names = [], []
    for o in objs:
        at = []
        for t in rows:
            hit = [i for i, x in enumerate(o.index) if t is x or bool(t == x)]
            if len(hit) > 1:
                raise Unsupported('concat of a repeated index')
            at.append(hit[0] if hit else None)
        for j in range(o.shape[1]):
            names.append(o.columns[j])
            col = [float('nan') if i is None else o.iat[i, j] for i in at]
            data.append(_obj(col) if contains_sym(col) else np.array(col, dtype=float))
    out = pd.DataFrame(dict(enumerate(data)), index=pd.Index(_obj(rows), dtype=object))
    out.columns = names
    return out


def _reindex(real):
    def f(self, labels=None, *a, **k):
        if labels is None:
            labels = k.get('index')
        if labels is None or not contains_sym(list(self.index)):
            return real(self, labels, *a, **k) if labels is not None else real(self, *a, **k)
        if a or set(k) - {'index'}:
            raise Unsupported('reindex options')
        mine = list(self.index)
        rows = []
        for t in labels:
            hit = [i for i, x in enumerate(mine) if bool(x == t)]
            if len(hit) > 1:
                raise ValueError('cannot reindex on an axis with duplicate labels')
            rows.append(hit[0] if hit else None)
        data = [[float('nan') if i is None else self.iat[i, j] for i in rows] for j in range(self.shape[1])]
        out = pd.DataFrame(dict(enumerate(_obj(c) if contains_sym(c) else np.array(c, dtype=float) for c in data)), index=labels)
        out.columns = self.columns
        return out
    return f


def extra(values=False):
    def f(ctx):
        # the stand-ins are installed in modules which are already loaded
        for name in ('redd', 'ukdale', 'refit', 'hipe', 'dred', 'ideal', 'smart', 'ampds', 'iawe', 'combed', 'caxe', 'greend', 'eco'):
            importlib.import_module('nilmtk.dataset_converters.%s.convert_%s' % (name, name))
        importlib.import_module('nilmtk.dataset_converters.dataport.csv_converter')
        TOKENS.clear()
        over = dict(fakestore.EXTRA['pd'], read_csv=read_csv, to_datetime=to_datetime, to_numeric=to_numeric, DatetimeIndex=DatetimeIndex, concat=concat)
        attrs = list(resampling.ATTRS) + [(pd.DataFrame, 'reindex', _reindex(pd.DataFrame.reindex)), (pd.Index, 'tz_convert', _each('tz_convert')), (pd.Index, 'tz_localize', _each('tz_localize'))]
        if values:
            attrs.append((pd.Index, 'values', property(_index_values)))
        return {'pd': over, 'subst': list(fakestore.EXTRA['subst']) + [(getattr(pd, n), v) for n, v in over.items() if n != 'HDFStore'],
                'attrs': attrs, 'converters': True}
    return f
