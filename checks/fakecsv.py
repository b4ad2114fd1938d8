"""CSV and YAML files whose contents stay in memory, for the symbolic runs.

The directories and (empty) files are real ones in a scratch directory, so
exists / isfile / listdir / makedirs / remove / rmtree are the real ones; only
the contents may be symbolic and are kept here, line by line, as
DataFrame.to_csv writes and pd.read_csv reads them.  Everything these two
functions do which is not modelled raises Unsupported (the path is then run on
real files).  Concrete runs use real files throughout."""
import contextlib
import io
import os
import shutil
import tempfile
from copy import deepcopy

import numpy as np
import pandas as pd
import yaml
import z3

from symrun.core import Unsupported
from symrun.proxies import Sym, SymNum, SymTimestamp, is_sym, isnan
from symrun import shims

LINES = {}     # path -> list of lines
DOCS = {}      # path -> yaml document
TOKENS = {}    # digits -> SymNum

def _key(path):
    if not isinstance(path, (str, os.PathLike)):
        raise Unsupported('to_csv/read_csv of a file object')
    return os.path.abspath(os.fspath(path))


def _to_csv(df, path_or_buf=None, mode='w', header=True, index=True, index_label=None, **kw):
    if path_or_buf is None or kw or index is not True or mode not in ('w', 'a') or header not in (True, False):
        raise Unsupported('to_csv options')
    if not isinstance(df.columns, pd.MultiIndex) or df.columns.nlevels != 2:
        raise Unsupported('to_csv of other columns')
    path = _key(path_or_buf)
    fresh = mode == 'w' or not os.path.exists(path)
    with open(path_or_buf, mode):
        pass
    lines = [] if fresh else LINES.setdefault(path, [])
    if header:
        for lev in range(2):
            lines.append(('head', lev, [c[lev] for c in df.columns], df.columns.names[lev]))
        label = index_label if index_label is not None else df.index.name
        if label is not None:
            lines.append(('name', label))
    for i, t in enumerate(df.index):
        lines.append(('row', t if is_sym(t) else str(t), [df.iat[i, j] for j in range(df.shape[1])]))
    LINES[path] = lines


def _index(rows):
    ts = [r[1] for r in rows]
    if ts and all(isinstance(t, SymTimestamp) for t in ts):
        arr = np.empty(len(ts), dtype=object)
        arr[:] = ts
        return pd.Index(arr, dtype=object)
    if any(is_sym(t) for t in ts):
        raise Unsupported('mixed index')
    return shims_read(io.StringIO('i,v\n' + ''.join('%s,1\n' % t for t in ts)), index_col=0, parse_dates=True).index.rename(None)


shims_read = pd.read_csv


def _build(rows, columns, name):
    n = len(columns)
    data = np.empty((len(rows), n), dtype=object)
    for i, r in enumerate(rows):
        if r[0] != 'row' or len(r[2]) != n:
            raise Unsupported('not a table of values')
        for j, v in enumerate(r[2]):
            data[i, j] = v
    df = pd.DataFrame({j: data[:, j] if any(is_sym(v) for v in data[:, j]) else np.array(list(data[:, j]), dtype=float)
                       for j in range(n)}, index=_index(rows), columns=range(n))
    df.columns = columns
    df.index.name = name
    return df


def _read_csv(path, index_col=None, header='infer', parse_dates=None, chunksize=None, iterator=False, skiprows=None, nrows=None, **kw):
    if not isinstance(path, (str, os.PathLike)):
        return shims_read(path, index_col=index_col, header=header, parse_dates=parse_dates, chunksize=chunksize,
                          iterator=iterator, skiprows=skiprows, nrows=nrows, **kw)
    if kw or index_col != 0 or parse_dates is not True or iterator:
        raise Unsupported('read_csv options')
    if not os.path.isfile(path):
        raise FileNotFoundError(2, 'No such file or directory', path)
    p = _key(path)
    if p not in LINES:
        raise Unsupported('read_csv of an unknown file')
    skip = 0 if skiprows is None else int(skiprows)
    if not 0 <= skip:
        raise Unsupported('skiprows')
    lines = LINES[p][skip:]
    if not lines:
        raise pd.errors.EmptyDataError('No columns to parse from file')
    if header is None:
        if any(r[0] != 'row' for r in lines):
            raise Unsupported('header lines read as data')
        columns = pd.RangeIndex(1, 1 + len(lines[0][2]))
        name, rows = None, lines
    else:
        if list(header) != [0, 1] or [x[:2] for x in lines[:2]] != [('head', 0), ('head', 1)]:
            raise Unsupported('header')
        labels = [[('Unnamed: %d_level_%d' % (j + 1, lev) if c == '' else c) for j, c in enumerate(lines[lev][2])] for lev in (0, 1)]
        columns = pd.MultiIndex.from_arrays(labels, names=[x[3] for x in lines[:2]])
        name, rows = None, lines[2:]
        if rows and rows[0][0] == 'name':
            name, rows = rows[0][1], rows[1:]
        elif rows and rows[0][0] == 'row' and all(isnan(v) for v in rows[0][2]):
            # pandas takes such a row for the line with the index name
            name, rows = str(rows[0][1]), rows[1:]
    if nrows is not None:
        rows = rows[:int(nrows)]
    if chunksize is None:
        return _build(rows, columns, name)
    chunksize = int(chunksize)
    if chunksize < 1:
        raise ValueError("'chunksize' must be an integer >=1")
    if nrows is not None:
        raise Unsupported('nrows and chunksize')

    def chunks():
        for s in range(0, len(rows), chunksize):
            yield _build(rows[s:s + chunksize], columns, name)
    if not rows:
        raise Unsupported('a table without rows')
    return chunks()


class _DtiMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, pd.DatetimeIndex) or isinstance(x, pd.Index) and len(x) > 0 and all(isinstance(t, SymTimestamp) for t in x)

    def __call__(cls, data=None, *a, **k):
        if isinstance(data, pd.Index) and isinstance(data, cls) and not a and not k:
            return data
        return pd.DatetimeIndex(data, *a, **k)

    def __getattr__(cls, k):
        return getattr(pd.DatetimeIndex, k)


class DatetimeIndex(metaclass=_DtiMeta):
    pass


def _to_datetime(x, *a, **k):
    if isinstance(x, pd.Index) and len(x) and all(isinstance(t, SymTimestamp) for t in x):
        if set(k) - {'utc'} or a:
            raise Unsupported('to_datetime options')
        return x.map(lambda t: t.tz_convert('UTC')) if k.get('utc') else x
    if is_sym(x):
        raise Unsupported('to_datetime')
    return pd.to_datetime(x, *a, **k)


class Yaml(shims.ModuleShim):
    pass


def _dump(doc, stream=None, **kw):
    if stream is None:
        raise Unsupported('yaml.dump to a string')
    DOCS[_key(stream.name)] = deepcopy(doc)


def _load_file(directory, filename):
    path = os.path.join(directory, filename)
    if not os.path.isfile(path):
        return None
    return deepcopy(DOCS[_key(path)])


def _digits(n):
    """A symbolic integer, printed: digits which stand for it."""
    for d, v in TOKENS.items():
        if z3.eq(v.e, n.e):
            return d
    d = '70%08d' % (len(TOKENS) + 1)
    TOKENS[d] = n
    return d


def _num_format(self, spec):
    if not self.e.is_int() or spec not in ('', 'd'):
        raise Unsupported('format of a symbolic number')
    return _digits(self)


class _IntMeta(shims._ClsMeta):
    def __call__(cls, *a, **k):
        if a and isinstance(a[0], str) and a[0] in TOKENS:
            return TOKENS[a[0]]
        return shims._mk_int(*a, **k)


Int = _IntMeta('int', (), dict(_real=int, _syms=SymNum, _make=staticmethod(shims._mk_int), _ok=staticmethod(lambda x: x.e.is_int())))
Str = shims._cls(str, (), lambda *a, **k: _digits(a[0]) if a and isinstance(a[0], SymNum) and a[0].e.is_int() else str(*a, **k))


def extra(ctx):
    """For Case(extra=...): called at the beginning of every path."""
    from nilm_metadata.convert_yaml_to_hdf5 import _load_file as real_load
    LINES.clear()
    DOCS.clear()
    TOKENS.clear()
    from . import fakestore
    return {'pd': dict(fakestore.EXTRA['pd'], read_csv=_read_csv, DatetimeIndex=DatetimeIndex, to_datetime=_to_datetime),
            'subst': list(fakestore.EXTRA['subst']) + [(yaml, Yaml(yaml, {'dump': _dump})), (real_load, _load_file),
                                                       (pd.read_csv, _read_csv), (pd.to_datetime, _to_datetime),
                                                       (pd.DatetimeIndex, DatetimeIndex)],
            'attrs': [(pd.DataFrame, 'to_csv', _to_csv), (SymNum, '__format__', _num_format)],
            'builtins': {'int': Int, 'str': Str}}


@contextlib.contextmanager
def directory():
    d = tempfile.mkdtemp(prefix='symrun-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
