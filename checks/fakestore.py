"""An in-memory pd.HDFStore for the symbolic runs (documented contract of
select / select_as_coordinates / append / put).  Concrete runs use a real
HDF5 file in a scratch directory that is removed afterwards."""
import contextlib
import os
import re
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd

from symrun.core import Unsupported

OPS = {'>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b, '<': lambda a, b: a < b,
       '>': lambda a, b: a > b, '==': lambda a, b: a == b, '=': lambda a, b: a == b}


class _Attrs(object):
    pass


class _Node(object):
    def __init__(self, children=()):
        self._v_attrs = _Attrs()
        self._v_children = dict.fromkeys(children)


class _Storer(object):
    def __init__(self, df):
        self.nrows = len(df)
        self.non_index_axes = [(1, list(df.columns))]


def _norm(key):
    return '/' + key.strip('/')


class FakeHDFStore(object):
    files = None            # {path: (tables, nodes)} while files outlive the stores

    def __init__(self, path, mode='a', **kw):
        self.path = self.filename = path
        if mode != 'w' and path in (self.files or ()):
            self.tables, self.nodes = self.files[path]
        else:
            self.tables, self.nodes = {}, {}
        if self.files is not None:
            self.files[path] = self.tables, self.nodes
        self.is_open = True

    def _df(self, key):
        if _norm(key) not in self.tables:
            raise KeyError('No object named %s in the file' % key)
        return self.tables[_norm(key)]

    def keys(self):
        return list(self.tables)

    def __contains__(self, key):
        k = _norm(key)
        return key in (k, k[1:]) and any(t == k or t.startswith(k + '/') for t in self.tables)

    def __getitem__(self, key):
        return self._df(key).copy()

    get = __getitem__

    def put(self, key, value, format=None, index=True, append=False, **kw):
        if append:
            return self.append(key, value)
        self.tables[_norm(key)] = value.copy()

    def append(self, key, value, **kw):
        k = _norm(key)
        if k in self.tables and set(self.tables[k].columns) != set(value.columns):
            raise ValueError('cannot match existing table structure')
        self.tables[k] = pd.concat([self.tables[k], value]) if k in self.tables else value.copy()

    def remove(self, key, *a, **kw):
        k = _norm(key)
        gone = [t for t in self.tables if t == k or t.startswith(k + '/')]
        if not gone:
            raise KeyError(key)
        for t in gone:
            del self.tables[t]

    def create_table_index(self, *a, **k):
        pass

    def flush(self, *a, **k):
        pass

    def close(self):
        self.is_open = False

    def open(self, mode='a', **k):
        self.is_open = True

    def get_storer(self, key):
        return _Storer(self._df(key))

    def get_node(self, key):
        k = _norm(key)
        names = list(self.tables) + list(self.nodes)
        kids = {n[len(k.rstrip('/')) + 1:].split('/')[0] for n in names if n.startswith(k.rstrip('/') + '/') and n != k}
        if k not in self.nodes:
            if k != '/' and k not in self.tables and not kids:
                return None
            self.nodes[k] = _Node()
        self.nodes[k]._v_children = dict.fromkeys(sorted(x for x in kids if x))
        return self.nodes[k]

    @property
    def root(self):
        return self.get_node('/')

    def _rows(self, key, where, frame):
        df = self._df(key)
        if where is None or (isinstance(where, (list, tuple)) and not len(where)):
            return list(range(len(df)))
        if isinstance(where, (np.ndarray, pd.Index)) or isinstance(where, (list, tuple)) and not isinstance(where[0], str):
            return [int(i) for i in where]
        terms = [where] if isinstance(where, str) else list(where)
        terms = [t for w in terms for t in re.split(r'\s*(?:&|\band\b)\s*', w)]
        conds = []
        for t in terms:
            m = re.match(r'^\s*\(?\s*index\s*(>=|<=|==|=|<|>)\s*(.+?)\s*\)?\s*$', t)
            if not m:
                raise Unsupported('HDFStore where term %r' % t)
            rhs = m.group(2)
            f = frame
            for _ in range(3):
                try:
                    val = eval(rhs, f.f_globals, f.f_locals)
                    break
                except NameError:
                    f = f.f_back
                    if f is None:
                        raise
            else:
                raise NameError(rhs)
            if isinstance(val, str):
                val = pd.Timestamp(val)
            conds.append((OPS[m.group(1)], val))
        return [i for i, t in enumerate(df.index) if all(bool(op(t, v)) for op, v in conds)]

    def select_as_coordinates(self, key, where=None, start=None, stop=None):
        rows = self._rows(key, where, sys._getframe(1))
        lo, hi = self._bounds(key, start, stop)
        return pd.Index([r for r in rows if lo <= r < hi], dtype='int64')

    def _bounds(self, key, start, stop):
        n = len(self._df(key))
        lo = 0 if start is None else int(start)
        hi = n if stop is None else int(stop)
        lo = lo + n if lo < 0 else lo
        hi = hi + n if hi < 0 else hi
        return max(lo, 0), min(hi, n)

    def select(self, key, where=None, start=None, stop=None, columns=None, iterator=False, chunksize=None, **kw):
        if iterator or chunksize:
            raise Unsupported('HDFStore.select iterator')
        df = self._df(key)
        rows = self._rows(key, where, sys._getframe(1))
        lo, hi = self._bounds(key, start, stop)
        out = df.iloc[[r for r in rows if lo <= r < hi]]
        if columns is not None:
            cols = set(columns)
            out = out[[c for c in df.columns if c in cols]]
        return out.copy()


EXTRA = {'pd': {'HDFStore': FakeHDFStore}, 'subst': [(pd.HDFStore, FakeHDFStore)]}


@contextlib.contextmanager
def store(ctx):
    """An empty HDFDataStore (real file when concrete)."""
    from nilmtk.datastore import HDFDataStore
    d = tempfile.mkdtemp(prefix='symrun-') if not ctx.symbolic else None
    st = HDFDataStore(os.path.join(d or '/nonexistent-symrun', 'x.h5'), 'w')
    try:
        yield st
    finally:
        if d:
            st.close()
            shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def directory():
    """A directory whose HDF5 files can be opened again."""
    d = tempfile.mkdtemp(prefix='symrun-')
    FakeHDFStore.files = {}
    try:
        yield d
    finally:
        FakeHDFStore.files = None
        shutil.rmtree(d, ignore_errors=True)
