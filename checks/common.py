"""Shared by the property checks."""
import numpy as np
import pandas as pd

from symrun.core import Unsupported
from symrun.harness import ConcreteInfeasible
from symrun.runner import Case

LEVEL = 'model_checking'

BASE_ASSUMPTIONS = [
    "IEEE floats are encoded as exact reals; rounding, overflow and NaN payloads are outside the encoding "
    "(NaN itself is an explicit forked alternative where a property mentions it).  Replays use real floats.",
    "Timestamps are encoded as exact instants plus a concrete tz tag; replays run in UTC and Europe/London "
    "around a DST change.",
    "numpy/pandas/sklearn are trusted: their object-dtype code runs for real on the proxies, and the stand-ins "
    "listed in DESIGN.md follow their documented contracts.",
    "nilm_metadata is not installed here; stubs/nilm_metadata supplies the four names nilmtk imports.",
]


def need(ctx, obj, name):
    """A non-public name a harness drives; gone -> the case is undecided, not
    a violation."""
    if not hasattr(obj, name):
        if ctx.symbolic:
            raise Unsupported("no %s in %s" % (name, getattr(obj, '__name__', obj)))
        raise ConcreteInfeasible()
    return getattr(obj, name)


def implies(ctx, a, b):
    """a -> b as one condition where both are symbolic."""
    from symrun.proxies import SymBool
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        import z3
        la = a if isinstance(a, SymBool) else SymBool(z3.BoolVal(bool(a)))
        return (~la) | b
    return (not a) or b


def conj(*cs):
    r = True
    for c in cs:
        if r is True:
            r = c
        elif c is True:
            pass
        else:
            r = r & c if not (isinstance(r, bool) and isinstance(c, bool)) else (r and c)
    return r


def disj(*cs):
    r = False
    for c in cs:
        if r is False:
            r = c
        elif c is False:
            pass
        else:
            r = r | c if not (isinstance(r, bool) and isinstance(c, bool)) else (r or c)
    return r


def neg(c):
    return (not c) if isinstance(c, (bool, np.bool_)) else ~c


def iff(a, b):
    """a == b for truth values."""
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, (bool, np.bool_)):
        a, b = b, a
    return a == b
