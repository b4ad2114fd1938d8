"""Stand-in for DataFrame/Series.resample on symbolic instants: bins counted
from midnight of the first row's day (pandas' default origin), every bin from
the first to the last row.  Replays use pandas itself."""
import re

import numpy as np
import pandas as pd
import z3

from symrun.core import Unsupported, cur
from symrun.proxies import BASE, SymNum, SymTimestamp, contains_sym, isnan
from .stream import is_sym_

OFFSET = int((BASE - BASE.normalize()).total_seconds())
SECS = {'S': 1, 's': 1, 'T': 60, 'min': 60, 'H': 3600, 'h': 3600}


def bin_of(ctx, t, period):
    """Number of the bin of an instant (forks until it is known)."""
    if isinstance(t, SymTimestamp):
        q = z3.ToInt((t.e + OFFSET) / z3.RealVal(period)) - OFFSET // period
        return cur().concretize_int(q) + OFFSET // period
    return int((t - t.normalize()).total_seconds() // period)


def label(ctx, k, period, tz='UTC'):
    """Instant at which bin k starts."""
    if ctx is None or ctx.symbolic:
        return SymTimestamp(z3.RealVal(k * period - OFFSET), tz)
    return (BASE.normalize() + pd.Timedelta(seconds=k * period)).tz_convert(ctx.tz)


def seconds(rule):
    m = re.fullmatch(r'(\d*)([A-Za-z]+)', rule) if isinstance(rule, str) else None
    if not m or m.group(2) not in SECS:
        raise Unsupported('resample rule %r' % (rule,))
    return int(m.group(1) or 1) * SECS[m.group(2)]


def _agg(name):
    def f(v):
        w = [x for x in v if not isnan(x)]
        if name == 'count':
            return len(w)
        if name == 'sum':
            return sum(w) if w else 0
        if not w:
            return float('nan')
        if name == 'mean':
            return sum(w) / (SymNum(z3.RealVal(len(w))) if contains_sym(w) else len(w))
        if name in ('max', 'min'):
            m = w[0]
            for x in w[1:]:
                if (x > m) if name == 'max' else (x < m):
                    m = x
            return m
        if name == 'first':
            return w[0]
        if name == 'last':
            return w[-1]
        raise Unsupported('resample().' + name)
    return f


class _Resampler(object):
    def __init__(self, obj, rule):
        self.obj, self.period = obj, seconds(rule)
        self.tz = obj.index[0].tz
        self.bins = [bin_of(None, t, self.period) for t in obj.index]
        if any(a > b for a, b in zip(self.bins, self.bins[1:])):
            raise Unsupported('resample of unsorted rows')

    def _do(self, name):
        f = _agg(name)
        ks = range(self.bins[0], self.bins[-1] + 1)
        index = pd.Index(np.array([label(None, k, self.period, self.tz) for k in ks] + [None], dtype=object)[:-1], dtype=object)

        def column(vals):
            return [f([v for v, b in zip(vals, self.bins) if b == k]) for k in ks]
        if isinstance(self.obj, pd.Series):
            return pd.Series(_col(column(list(self.obj.values))), index=index, name=self.obj.name)
        data = [_col(column(list(self.obj.iloc[:, j].values))) for j in range(self.obj.shape[1])]
        out = pd.DataFrame({j: d for j, d in enumerate(data)}, index=index)
        out.columns = self.obj.columns
        return out

    def __getattr__(self, name):
        if name in ('mean', 'sum', 'min', 'max', 'first', 'last', 'count'):
            return lambda *a, **k: self._do(name)
        raise Unsupported('resample().' + name)


def _col(vals):
    if contains_sym(vals):
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return a
    return np.array(vals, dtype=float)


def _resample(real):
    def f(self, rule=None, *a, **k):
        if len(self) and self.index.dtype == object and isinstance(self.index[0], SymTimestamp):
            if a or any(v is not None for v in k.values()):
                raise Unsupported('resample options')
            return _Resampler(self, rule)
        return real(self, rule, *a, **k)
    return f


def _fill(real):
    def f(self, *a, **k):
        if is_sym_(k.get('limit')):
            k['limit'] = int(k['limit'])
        return real(self, *a, **k)
    return f


ATTRS = [(c, n, _fill(getattr(c, n))) for c in (pd.DataFrame, pd.Series) for n in ('ffill', 'bfill')]
ATTRS += [(pd.DataFrame, 'resample', _resample(pd.DataFrame.resample)), (pd.Series, 'resample', _resample(pd.Series.resample))]
