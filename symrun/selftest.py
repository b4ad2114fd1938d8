"""Engine self-test: known-true and known-false assertions, vacuity, NaN."""
import numpy as np
import pandas as pd

from . import runner
from .runner import Case, explore
import time


def t_true(ctx):
    x = ctx.real('x', -10, 10)
    y = abs(x)
    ctx.expect(y >= 0, "abs")
    ctx.expect(max(x, 3) >= 3, "max")


def t_false(ctx):
    x = ctx.real('x', -10, 10)
    ctx.expect(x * x != 9, "must be refuted")


def t_np(ctx):
    v = ctx.array([ctx.real('a', 0, 9), ctx.real('b', 0, 9)])
    s = pd.Series(v)
    ctx.eq(s.sum(), v[0] + v[1], "sum")
    ctx.expect(s.max() >= s.min(), "max >= min")
    ctx.expect(v[int(np.argmin(v))] <= v[0], "argmin")


def t_vac(ctx):
    x = ctx.real('x', 0, 1)
    ctx.assume(x > 2)
    ctx.expect(False, "unreachable")


def main():
    d = time.time() + 60
    a, b, c, v = (explore(Case(f, witness=True), d) for f in (t_true, t_false, t_np, t_vac))
    ok = (not a['violations'] and not a['undecided'] and a['stats'].paths >= 1
          and len(b['violations']) == 1
          and not c['violations'] and not c['undecided']
          and v['stats'].paths == 0 and not v['violations'])
    print('selftest', 'ok' if ok else 'FAILED', a['stats'].paths, b['violations'], c['undecided'], v['stats'].paths)
    return 0 if ok else 1
