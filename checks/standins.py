"""sklearn metrics on proxies (symbolic runs only; replays use sklearn)."""
import numpy as np
import sklearn.metrics as M
from symrun.core import Unsupported
from symrun.proxies import contains_sym, isnan


def _cols(x):
    a = np.asarray(x, dtype=object)
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    return a


def _mean(v):
    v = list(v)
    s = 0
    for x in v:
        s = s + x
    return s / len(v)


def _pair(name, f):
    real = getattr(M, name)

    def g(y_true, y_pred, *r, **k):
        if not (contains_sym(y_true) or contains_sym(y_pred)):
            return real(y_true, y_pred, *r, **k)
        if r or k:
            raise Unsupported(name + ' options')
        a, b = _cols(y_true), _cols(y_pred)
        if a.shape != b.shape:
            raise ValueError('inconsistent numbers of samples')
        if a.shape[0] == 0:
            raise ValueError('Found array with 0 sample(s)')
        if any(isnan(x) for x in list(a.ravel()) + list(b.ravel())):
            raise ValueError('Input contains NaN.')
        return _mean(f([(x, y) for x, y in zip(a[:, j], b[:, j])]) for j in range(a.shape[1]))
    return real, g


def _r2(p):
    m = _mean(x for x, _ in p)
    num, den = 0, 0
    for x, y in p:
        num = num + (x - y) * (x - y)
        den = den + (x - m) * (x - m)
    if den == 0:
        return 1.0 if num == 0 else 0.0
    return 1 - num / den


METRICS = [_pair('mean_squared_error', lambda p: _mean((x - y) * (x - y) for x, y in p)),
           _pair('mean_absolute_error', lambda p: _mean(abs(x - y) for x, y in p)),
           _pair('r2_score', _r2)]
EXTRA = {'subst': METRICS}
