"""Chunk streams as HDFDataStore.load produces them (its contract is C01)."""
import warnings

import numpy as np
import pandas as pd

from .common import *

COL = ('power', 'active')


class Upstream(object):
    """A meter: metadata plus a generator of chunks."""

    def __init__(self, chunks, metadata):
        self.chunks = chunks
        self.metadata = metadata

    def process(self):
        for c in self.chunks:
            yield c

    def get_metadata(self):
        return self.metadata

    def dry_run_metadata(self):
        return self.metadata


def times(ctx, n, prefix='t', lo=0, hi=100000):
    ts = [ctx.time('%s%d' % (prefix, i), lo, hi) for i in range(n)]
    for a, b in zip(ts, ts[1:]):
        ctx.assume(a < b)
    return ts


def frame(ctx, ts, cols):
    """cols: {col: list of values}"""
    data = {}
    for c, v in cols.items():
        sym = any(is_sym_(x) for x in v)
        data[c] = ctx.array(v) if sym or not ctx.symbolic else np.array(v, dtype=float)
    df = pd.DataFrame(data, index=ctx.index(ts), columns=pd.MultiIndex.from_tuples(list(cols), names=['physical_quantity', 'type']))
    return df


def is_sym_(x):
    from symrun.proxies import is_sym
    return is_sym(x)


def set_attr(df, name, val):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        setattr(df, name, val)


def chunked(df, c, look_ahead=None, window=None):
    """Consecutive chunks of c rows plus the shared boundary row, with their
    time frames, as the HDF5 store yields them."""
    from nilmtk.timeframe import TimeFrame
    n = len(df)
    out = []
    starts = list(range(0, max(n - 1, 1), c))
    for k, s in enumerate(starts):
        e = min(s + c, n - 1) + 1
        ch = df.iloc[s:e]
        ch = ch.copy()
        start, end = ch.index[0], ch.index[-1]
        if window is not None:
            if k == 0 and window[0] is not None:
                start = window[0]
            if k == len(starts) - 1 and window[1] is not None:
                end = window[1]
        set_attr(ch, 'timeframe', TimeFrame(start, end))
        if look_ahead:
            set_attr(ch, 'look_ahead', df.iloc[e:e + look_ahead].copy())
        out.append(ch)
    return out
