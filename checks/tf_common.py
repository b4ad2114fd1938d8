from symrun.core import Unsupported
from .common import *


def contains(tf, t):
    """Denotation of a TimeFrame: is instant t inside it?"""
    if tf.empty:
        return False
    c = True
    if tf.start is not None:
        c = conj(c, t >= tf.start)
    if tf.end is not None:
        c = conj(c, (t <= tf.end) if tf.include_end else (t < tf.end))
    return c


def mk_tf(ctx, name, kinds=('both', 'start', 'end', 'none', 'empty', 'disabled'),
          include_end=True, tz='UTC', lo=0, hi=1000):
    """An arbitrary TimeFrame of one of the given kinds."""
    from nilmtk.timeframe import TimeFrame
    kind = ctx.choose(name + '_kind', list(kinds))
    s = e = None
    if kind in ('both', 'start', 'disabled'):
        s = ctx.time(name + '_s', lo, hi, tz)
    if kind in ('both', 'end', 'disabled'):
        e = ctx.time(name + '_e', lo, hi, tz)
    if s is not None and e is not None:
        ctx.assume(s < e)
    tf = TimeFrame(s, e)
    if kind == 'empty':
        # the only public way to an empty frame: a disjoint intersection
        a, b = TimeFrame(end=_anchor(0)), TimeFrame(start=_anchor(1))
        tf = a.intersection(b)
    if kind == 'disabled':
        tf.enabled = False
    if include_end and kind in ('both', 'end'):
        tf.include_end = ctx.bool(name + '_incl')
    return tf


def _anchor(k):
    import pandas as pd
    return pd.Timestamp('2000-01-01', tz='UTC') + pd.Timedelta(days=k)
