"""C24 learnt appliance states, histograms and exported models."""
import builtins
import contextlib
import io
import json as REAL_JSON
import os
import shutil
import sys
import tempfile

import sklearn.cluster
import sklearn.metrics

from symrun.core import Unsupported
from symrun.shims import _RoundArr, _elem, _np_round
from symrun.proxies import contains_sym, is_sym
from .standins import EXTRA as METRICS, METRICS as METRIC_LIST
from .stream import *

EXPLANATION = ("feature_detectors.cluster.cluster (and its copy in steady_states), CO.partial_fit with cartesian state combinations, "
               "histogram_from_generator, find_steady_states_transients, hart85_means_shift_cluster, Hart85.partial_fit, export_model / import_model, "
               "best_matched_appliance, Mean.save_model / load_model and Disaggregator.clear_model_checkpoints run symbolically.  k-means, mean shift and the silhouette score are "
               "oracles which return arbitrary centres and scores: z3 proves what nilmtk makes of them for all their answers.")
BOUNDS = {"readings": "18..23 (of which 1..4 arbitrary or missing) and one run of 2002", "clusters": "1..3", "appliances": "1..2 and 13", "chunks": "1..3 of 1..3 readings",
          "histogram bins": "1..4", "mains": "up to 5 readings"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["k-means, mean shift and silhouette_score answer arbitrarily, k-means with centres inside the range of its data",
                                  "np.histogram counts readings into half-open equal bins, the last one closed (its documentation)"]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def ts(i):
    return pd.Timestamp('2014-01-01', tz='UTC') + pd.Timedelta(minutes=int(i))


def _append(a, v, axis=None):
    if not (contains_sym(a) or contains_sym(v)) or axis is not None:
        return np.append(a, v, axis=axis)
    x = list(np.asarray(a, dtype=object).ravel()) + list(np.asarray(v, dtype=object).ravel())
    out = np.empty(len(x), dtype=object)
    out[:] = x
    return out.view(_RoundArr)


def _unique(a, *r, **k):
    if not contains_sym(a):
        return np.unique(a, *r, **k)
    if r or k:
        raise Unsupported('np.unique options')
    out = []
    for x in list(np.asarray(a, dtype=object).ravel()):
        i = 0
        while i < len(out) and bool(out[i] < x):
            i += 1
        if i == len(out) or not bool(out[i] == x):
            out.insert(i, x)
    res = np.empty(len(out), dtype=object)
    res[:] = out
    return res.view(_RoundArr)


def _round(a, *r, **k):
    if getattr(a, 'dtype', None) == object:
        a = np.asarray(a)
        out = _elem(lambda x: x.__round__(*r) if is_sym(x) else float(np.round(float(x), *r)), a)
    else:
        out = _np_round(a, *r, **k)
    return out.view(_RoundArr) if isinstance(out, np.ndarray) and out.dtype == object else out


def _histogram(a, bins=10, range=None, **k):
    if not contains_sym(a) and not contains_sym(range or ()):
        return np.histogram(np.asarray(a, dtype=float), bins=bins, range=range, **k)
    if k:
        raise Unsupported('np.histogram options')
    if isinstance(bins, (list, np.ndarray)):
        edges = list(bins)
    else:
        n = int(bins)
        if n < 1:
            raise ValueError('`bins` must be positive, when an integer')
        lo, hi = range
        if not bool(lo <= hi):
            raise ValueError('max must be larger than min in range parameter.')
        if bool(lo == hi):
            lo, hi = lo - 0.5, hi + 0.5
        edges = [lo + (hi - lo) * i / n for i in builtins.range(n + 1)]
    return count(list(np.asarray(a, dtype=object).ravel()), edges), np.array(edges, dtype=object)


def count(values, edges):
    """How many values fall into each bin."""
    out = np.empty(len(edges) - 1, dtype=object)
    for j in range(len(edges) - 1):
        c = 0
        for x in values:
            if isinstance(x, float) and x != x:
                continue
            inside = conj(x >= edges[j], (x <= edges[j + 1]) if j == len(edges) - 2 else (x < edges[j + 1]))
            c = c + (inside.num() if hasattr(inside, 'num') else int(bool(inside)))
        out[j] = c
    return out


NP = {'np': {'append': _append, 'unique': _unique, 'round': _round, 'histogram': _histogram}}


# ---------------------------------------------------------------- clustering
@contextlib.contextmanager
def oracles(ctx, flat=False, fixed=None):
    """k-means and silhouette scores which answer anything."""
    log = []

    class KMeans(object):
        def __init__(self, n_clusters=8, init='k-means++', **kw):
            self.n_clusters = int(n_clusters)

        def fit(self, X):
            X = np.asarray(X, dtype=object)
            if X.ndim != 2 or X.shape[1] != 1:
                raise ValueError('Expected 2D array')
            if len(X) < self.n_clusters:
                raise ValueError('n_samples should be >= n_clusters')
            n = len(log)
            same = all(not is_sym(x) and x == X[0, 0] for x in X.ravel())
            if same:
                c = [X[0, 0]] * self.n_clusters
            elif fixed:
                c = [float(fixed[j]) for j in range(self.n_clusters)]
            else:
                c = [ctx.real('c%d_%d' % (n, j), 0, 40) for j in range(self.n_clusters)]
            k = 1 if same or (flat and self.n_clusters > 1) else self.n_clusters
            self.labels_ = np.array([i % k for i in range(len(X))])
            self.cluster_centers_ = ctx.array(c).reshape(-1, 1)
            log.append([self.n_clusters, [x for x in X.ravel()], c, None])
            return self

        def fit_predict(self, X):
            return self.fit(X).labels_

    def silhouette(X, labels, metric='euclidean', **kw):
        if not 2 <= len(set(labels)) < len(labels):
            raise ValueError('Number of labels is %d.' % len(set(labels)))
        log[-1][3] = ctx.real('s%d' % (len(log) - 1), -0.99, 1)
        return log[-1][3]
    saved = sklearn.cluster.KMeans, sklearn.metrics.silhouette_score
    undo = []
    for mod in list(sys.modules.values()):
        if mod is not None and getattr(mod, '__name__', '').startswith('nilmtk'):
            for n, real, new in (('KMeans', saved[0], KMeans), ('silhouette_score', saved[1], silhouette)):
                if mod.__dict__.get(n) is real:
                    undo.append((mod, n, real))
                    setattr(mod, n, new)
    sklearn.cluster.KMeans, sklearn.metrics.silhouette_score = KMeans, silhouette
    np.random.seed(0)
    try:
        yield log
    finally:
        sklearn.cluster.KMeans, sklearn.metrics.silhouette_score = saved
        for mod, n, real in undo:
            setattr(mod, n, real)


def rounded(c):
    return c.__round__() if is_sym(c) else float(np.round(float(c)))


def states_are(ctx, got, centres, label):
    """Sorted, distinct, whole watts: the centres and off."""
    got = list(np.asarray(got).ravel())
    for a, b in zip(got, got[1:]):
        ctx.expect(a < b, label + ": sorted and distinct")
    want = [rounded(c) for c in centres] + [0]
    for w in want:
        ctx.expect(disj(*[g == w for g in got]), label + ": every centre in whole watts, and off")
    for g in got:
        ctx.expect(disj(*[g == w for w in want]), label + ": nothing else")


def readings(ctx, base, sym, miss=True):
    v = [20.0 + (i % 3) for i in range(base)]
    for j in range(sym):
        v.insert(j * 5 % (len(v) + 1), float('nan') if miss and ctx.bool('nan%d' % j) else ctx.real('x%d' % j, 0, 40))
    return v


def data(ctx, v, form):
    df = frame(ctx, [ts(i) for i in range(len(v))], {COL: v})
    return df[COL] if form == 'series' else df


def check_data(ctx, got, v):
    """What k-means is given: the readings above 10 W."""
    n = 0
    keep = [x for x in v if not ctx.isnan(x) and bool(x > 10)]
    if len(keep) < 20:
        ctx.expect(len(got) > 0 and all(not is_sym(x) and x == 0 for x in got), "too few readings: off only")
    elif len(keep) > 2000:
        ctx.expect(len(got) == 2000, "a sample of 2000 readings")
        ok = [x for x in keep if is_sym(x)]
        conc = {x for x in keep if not is_sym(x)}
        for x in got:
            if not (not is_sym(x) and x in conc) and not any(x is y for y in ok):
                ctx.expect(disj(*[x == y for y in keep]), "sampled from the readings above the threshold")
    else:
        ctx.expect(len(got) == len(keep), "every reading above 10 W, nothing missing")
        ctx.all_eq(got, keep, "the readings above 10 W")


def h_cluster(ctx, base, sym, most, exact, form, module, flat=False):
    mod = importlib_('nilmtk.feature_detectors.' + module)
    f = need(ctx, mod, 'cluster')
    v = readings(ctx, base, sym)
    with oracles(ctx, flat) as log:
        got = f(data(ctx, v, form), most, exact) if exact else f(data(ctx, v, form), most)
    for n, X, c, _ in log:
        check_data(ctx, X, v)
        ctx.expect(n == exact if exact else n < most, "no more states than asked for, off included")
    if exact:
        states_are(ctx, got, log[-1][2], "exactly the clusters asked for")
        return
    by = {n: c for n, X, c, _ in log}
    ctx.expect(sorted(by) == list(range(1, most)), "every number of clusters is tried")
    if flat or most == 2 or all(not is_sym(x) and x == 0 for x in log[0][1]):
        states_are(ctx, got, by[most - 1], "the clusters found")
        return
    scores = {x[0]: x[3] for x in log if x[3] is not None}
    if not scores:
        return
    best = 2
    for n in sorted(scores):
        if scores[n] > scores[best]:
            best = n
    states_are(ctx, got, by[best], "the clustering with the best silhouette")


def importlib_(name):
    import importlib
    return importlib.import_module(name)


def h_co(ctx, apps, again):
    """One model per appliance; training again adds only new appliances."""
    from nilmtk.disaggregate import CO
    co = CO({})
    vs = [readings(ctx, 18, 0) if a else readings(ctx, 19, 2) for a in range(apps)]
    with oracles(ctx, fixed=(30.4, 21.0, 12.0) if again else None) as log, quiet():
        mk = lambda v: [frame(ctx, [ts(i) for i in range(12)], {COL: v[:12]}), frame(ctx, [ts(i) for i in range(20, 8 + len(v))], {COL: v[12:]})]
        main = [frame(ctx, [ts(0)], {COL: [1.0]})]
        co.partial_fit(main, [('app%d' % a, mk(v)) for a, v in enumerate(vs)])
        n1 = len(log)
        first = [(m['appliance_name'], list(np.asarray(m['states']).ravel())) for m in co.model]
        if again:
            w = [25.0] * 10 + [ctx.real('y', 12, 40)] * 12
            co.disaggregate_chunk([frame(ctx, [ts(0)], {COL: [1.0]})])
            co.partial_fit(main, [('app%d' % (apps - 1), mk(w)), ('new', mk(w))])
    ctx.expect([m['appliance_name'] for m in co.model] == ['app%d' % a for a in range(apps)] + (['new'] if again else []), "one model per appliance, in order")
    per = n1 // apps
    ctx.expect(per * apps == n1, "every appliance clustered alike")
    for a, v in enumerate(vs):
        for n, X, c, _ in log[a * per:(a + 1) * per]:
            check_data(ctx, X, v)
        ctx.expect(max(n for n, X, c, _ in log[a * per:(a + 1) * per]) == (2 if apps <= 12 else 1), "at most three states, two if there are many appliances")
        states_are(ctx, co.model[a]['states'], log[(a + 1) * per - 1][2], "states of the appliance")
        got = list(np.asarray(co.model[a]['states']).ravel())
        ctx.expect(len(got) == len(first[a][1]) and conj(*[x == y for x, y in zip(got, first[a][1])]), "not trained twice")
    if again:
        with quiet():
            p = co.disaggregate_chunk([frame(ctx, [ts(0)], {COL: [ctx.real('mains', 0, 100)]})])[0]
        ctx.expect(list(p.columns) == [m['appliance_name'] for m in co.model], "every appliance trained so far is estimated")
        for j, m in enumerate(co.model):
            x = p.iloc[0, j]
            ctx.expect(disj(*[x == s for s in list(np.asarray(m['states']).ravel())]), "the estimate is one of its states")


# ----------------------------------------------------------------- histogram
def h_hist(ctx, chunks, bins, rng):
    from nilmtk.stats.histogram import histogram_from_generator
    vs, n = [], 0
    for c in chunks:
        vs.append([ctx.real('x%d' % (n + i), 0, 6) for i in range(c)])
        n += c
    if rng is None:
        ctx.assume(max_(vs[0]) - min_(vs[0]) >= 1)
        want = (min_(vs[0]), max_(vs[0]))
        arg = None
    else:
        want = tuple((min_ if i == 0 else max_)(vs[0]) if r is None else float(r) for i, r in enumerate(rng))
        ctx.assume(want[1] - want[0] >= 1)
        arg = rng
    kw = {} if arg is None else {'range': arg}
    if bins:
        kw['bins'] = bins
    h, e = histogram_from_generator((pd.Series(ctx.array(v), index=[ts(i) for i in range(len(v))]) for v in vs), **kw)
    nb = bins or len(e) - 1
    if not bins:
        ctx.expect(conj(nb <= want[1] - want[0], want[1] - want[0] < nb + 1), "one bin per watt")
    ctx.expect(len(e) == nb + 1 and len(h) == nb, "bins and their edges")
    edges = [want[0] + (want[1] - want[0]) * i / nb for i in range(nb + 1)]
    ctx.all_eq(list(e), edges, "equal bins over the range of the first chunk")
    if not ctx.symbolic:
        edges = list(e)
    ctx.all_eq(list(h), list(count([x for v in vs for x in v], edges)), "the histogram of all readings of all chunks")


def min_(v):
    m = v[0]
    for x in v[1:]:
        m = x if x < m else m
    return m


def max_(v):
    m = v[0]
    for x in v[1:]:
        m = x if x > m else m
    return m


# ---------------------------------------------------------------------- Hart
class Load(object):
    def __init__(self, dfs):
        self.dfs, self.calls = dfs, []

    def load(self, **kw):
        self.calls.append(kw)
        return iter(self.dfs)


def h_transients(ctx, chunks, k):
    """Edges of every chunk, missing rows left out."""
    from nilmtk.feature_detectors.steady_states import find_steady_states_transients, find_steady_states
    from .c12 import edges, levels
    dfs, vals, n0 = [], [], 0
    cols = [COL, ('power', 'reactive')][:k]
    for c in chunks:
        rows = []
        for i in range(c):
            r = [ctx.real('p%d_%d' % (n0 + i, j), 0, 3000) for j in range(k)]
            if c > 1 and i == 0 and ctx.bool('miss%d' % n0):
                r[k - 1] = float('nan')
            rows.append(r)
        vals.append((n0, rows))
        dfs.append(frame(ctx, [ts(n0 + i) for i in range(c)], {col: [r[j] for r in rows] for j, col in enumerate(cols)}) if c else
                   pd.DataFrame(columns=cols, index=pd.DatetimeIndex([], tz='UTC')))
        n0 += c
    g = Load(dfs)
    with quiet():
        st, tr = find_steady_states_transients(g, cols, 70, 15, sections='S')
    ctx.expect(g.calls == [{'columns': cols, 'sections': 'S'}], "loads what was asked for, once")
    want = []
    for n, rows in vals:
        keep = [(n + i, r) for i, r in enumerate(rows) if not any(ctx.isnan(x) for x in r)]
        if keep:
            want += [(ts(keep[at][0]), d) for at, d, _ in edges([r for _, r in keep], 15, 70)]
    ctx.expect(list(tr.index) == [t for t, _ in want], "the edges of every chunk in order")
    for r, (t, d) in enumerate(want):
        ctx.all_eq(list(tr.iloc[r]), d, "power of the edge")


def h_meanshift(ctx, n, k):
    """Features handed to mean shift: the mean size of each pair of edges."""
    from nilmtk.feature_detectors.cluster import hart85_means_shift_cluster
    names = ['active', 'reactive'][:k]
    cols = [('power', x) for x in names]
    t = [[[ctx.real('t%d_%d_%d' % (i, s, j), -3000, 3000) for j in range(k)] for s in (0, 1)] for i in range(n)]
    d = {}
    for s in (0, 1):
        d['T%d Time' % (s + 1)] = [ts(i * 2 + s) for i in range(n)]
        for j, x in enumerate(names):
            d['T%d %s' % (s + 1, x.capitalize())] = ctx.array([t[i][s][j] for i in range(n)])
    cents = [[ctx.real('c%d_%d' % (i, j), 0, 3000) for j in range(k)] for i in range(2)]
    with meanshift(ctx, cents) as log:
        got = hart85_means_shift_cluster(pd.DataFrame(d), cols)
    ctx.expect(len(log) == 1 and log[0].shape == (n, k), "one row per pair, one column per power")
    for i in range(n):
        for j in range(k):
            ctx.eq(log[0][i, j], (abs(t[i][0][j]) + abs(t[i][1][j])) / 2, "mean size of the two edges")
    ctx.expect(list(got.columns) == cols and len(got) == 2, "one centroid per cluster")
    for i in range(2):
        ctx.all_eq(list(got.iloc[i]), cents[i], "the centroids found")


@contextlib.contextmanager
def meanshift(ctx, cents):
    log = []

    class MeanShift(object):
        def __init__(self, **kw):
            pass

        def fit(self, X):
            X = np.asarray(X, dtype=object)
            log.append(X)
            self.labels_ = np.array([i % len(cents) for i in range(len(X))])
            self.cluster_centers_ = ctx.array([c for r in cents for c in r]).reshape(len(cents), -1)
            return self
    real = sklearn.cluster.MeanShift
    mod = sys.modules['nilmtk.feature_detectors.cluster']
    top = mod.__dict__.get('MeanShift') is real
    if top:
        mod.MeanShift = MeanShift
    sklearn.cluster.MeanShift = MeanShift
    try:
        yield log
    finally:
        sklearn.cluster.MeanShift = real
        if top:
            mod.MeanShift = real


def h_train(ctx, n, cents):
    """Train, then export and import: the copy predicts the same."""
    from nilmtk.disaggregate import Hart85
    h = Hart85({})
    # an appliance goes on and off, then arbitrary readings
    v = [0.0, 0.0, 200.0, 200.0, 0.0, 0.0] + [ctx.real('p%d' % i, 0, 2000) for i in range(n)]
    truth = [[ctx.real('g%d_%d' % (a, i), 0, 2000) if i == 3 else 0.0 for i in range(len(v))] for a in range(2)]
    ix = [ts(i) for i in range(len(v))]
    main = frame(ctx, ix, {COL: v})
    with meanshift(ctx, [[float(c)] for c in cents]), quiet():
        h.partial_fit([main], [('app%d' % a, [frame(ctx, ix, {COL: g})]) for a, g in enumerate(truth)])
    ctx.expect(h.model['best_matches'] == h.best_matches and list(h.best_matches) == ['app0', 'app1'], "one centroid for each appliance")
    with quiet():
        p = h.disaggregate_chunk([main])[0]
        allp = {}
        for j in range(len(cents)):
            h2 = Hart85({})
            h2.columns, h2.centroids, h2.state_threshold, h2.noise_level = h.columns, h.centroids, h.state_threshold, h.noise_level
            h2.appliances, h2.best_matches = ['x'], {'x': j}
            allp[j] = [x for x in h2.disaggregate_chunk([main])[0]['x']]
    for a, g in enumerate(truth):
        err = lambda q: sum((x - y) * (x - y) for x, y in zip(q, g))
        mine = err([x for x in p['app%d' % a]])
        for j in allp:
            e = err(allp[j])
            ctx.expect(mine <= e + (0 if ctx.symbolic else 1e-6 * (1 + abs(e))), "no other centroid explains the appliance better")


class Pickle(object):
    """pickle in the symbolic runs: binary files, objects kept in memory."""
    kept = {}

    @classmethod
    def dump(cls, obj, f, *a, **k):
        f.write(b'')
        f.flush()
        cls.kept[os.path.abspath(f.name)] = dict(obj)

    @classmethod
    def load(cls, f, *a, **k):
        if not isinstance(f.read(0), bytes):
            raise TypeError("a bytes-like object is required, not 'str'")
        return dict(cls.kept[os.path.abspath(f.name)])


def h_export(ctx, n, match):
    from nilmtk.disaggregate import Hart85
    from .c12 import model
    h = model([[100.0], [500.0]])
    h.state_threshold, h.noise_level = ctx.real('thr', 5, 30), ctx.real('noise', 40, 90)
    h.appliances = ['app%d' % a for a in range(len(match))]
    h.best_matches = dict(zip(h.appliances, match))
    h.steady_states, h.transients = pd.DataFrame({COL: [1.0]}), pd.DataFrame({COL: [2.0]})
    h.model = dict(best_matches=h.best_matches, columns=h.columns, state_threshold=h.state_threshold, noise_level=h.noise_level,
                   steady_states=h.steady_states, transients=h.transients, centroids=h.centroids)
    v = [ctx.real('p%d' % i, 0, 2000) for i in range(n)]
    df = frame(ctx, [ts(i) for i in range(n)], {COL: v})
    d = tempfile.mkdtemp(prefix='symrun-')
    try:
        with quiet():
            want = h.disaggregate_chunk([df])[0]
            fn = os.path.join(d, 'model.pickle')
            h.export_model(fn)
            c = Hart85({})
            c.import_model(fn)
            got = c.disaggregate_chunk([df])[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.expect(list(got.columns) == list(want.columns) and got.index.equals(want.index), "the same appliances")
    for a in range(len(match)):
        ctx.all_eq(list(got.iloc[:, a]), list(want.iloc[:, a]), "the imported model predicts what the exported one does")


class Json(object):
    """json in the symbolic runs: solver terms are written as numbered marks."""
    kept = []

    @classmethod
    def _out(cls, x):
        if isinstance(x, dict):
            return {k: cls._out(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [cls._out(v) for v in x]
        if is_sym(x):
            cls.kept.append(x)
            return {'__term__': len(cls.kept) - 1}
        return x

    @classmethod
    def _in(cls, d):
        return cls.kept[d['__term__']] if set(d) == {'__term__'} else d

    @classmethod
    def dumps(cls, obj, *a, **k):
        return REAL_JSON.dumps(cls._out(obj), *a, **k)

    @classmethod
    def dump(cls, obj, f, *a, **k):
        f.write(cls.dumps(obj, *a, **k))

    @classmethod
    def loads(cls, s, *a, **k):
        return REAL_JSON.loads(s, *a, object_hook=cls._in, **k)

    @classmethod
    def load(cls, f, *a, **k):
        return cls.loads(f.read(), *a, **k)


def h_mean_saved(ctx, apps, later, nested):
    """A Mean model loaded from where it was saved goes on like the original;
    what was saved is the state after the last training call."""
    from nilmtk.disaggregate import Mean
    d = tempfile.mkdtemp(prefix='symrun-')
    path = os.path.join(d, 'deep', 'er') if nested else d

    def call(k, which):
        out = []
        for a in which:
            v = [ctx.real('p%d_%d_%d' % (k, a, i), 0, 3000) for i in range(2)]
            if ctx.bool('nan%d_%d' % (k, a)):
                v[1] = float('nan')
            out.append(('app%d' % a, [frame(ctx, [ts(10 * k + i) for i in range(2)], {COL: v})]))
        return out
    mains = frame(ctx, [ts(100), ts(101)], {COL: [1.0, 2.0]})

    def same(m, n, what):
        p, q = m.disaggregate_chunk([mains])[0], n.disaggregate_chunk([mains])[0]
        ctx.expect(list(p.columns) == list(q.columns) and p.index.equals(q.index), what + ": the appliances")
        for c in p.columns:
            ctx.all_eq(list(p[c]), list(q[c]), what + ": the predictions")
    try:
        with quiet():
            m = Mean({'save-model-path': path})
            for k, which in enumerate(apps):
                m.partial_fit([mains], call(k, which))
            ref = Mean({})
            ref.model = {a: dict(x) for a, x in m.model.items()}
            c = Mean({'pretrained-model-path': path})
            same(c, ref, "loaded")
            by_hand = Mean({})
            by_hand.load_model(path)
            same(by_hand, ref, "loaded by hand")
            if later is not None:
                more = call(len(apps), later)
                c.partial_fit([mains], more)
                m.partial_fit([mains], more)
                same(c, m, "trained on")
                same(by_hand, ref, "the other copy")
                same(Mean({'pretrained-model-path': path}), m, "saved again")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def h_best(ctx, n, preds, truth):
    from nilmtk.disaggregate import Hart85
    h = Hart85({})
    ix = [ts(i) for i in range(n + 1)]
    P = {j: [ctx.real('p%d_%d' % (j, i), 0, 3000) if i < 1 else 7.0 * j for i in range(n)] for j in range(preds)}
    T = {'m%d' % j: [ctx.real('t%d_%d' % (j, i), 0, 3000) if i < 1 else 10.0 * j for i in range(n + 1)] for j in range(truth)}

    class Sub(object):
        def dataframe_of_meters(self, **kw):
            return pd.DataFrame({k: ctx.array(v) for k, v in T.items()}, index=ix)
    with quiet():
        got = h.best_matched_appliance(Sub(), pd.DataFrame({k: ctx.array(v) for k, v in P.items()}, index=ix[:n]))
    ctx.expect(got is not None and len(got) == preds, "one match per predicted appliance")
    for r, (j, key) in enumerate(got):
        ctx.expect(j == r and key in T, "predicted appliance and meter")
        err = {k: sum((a - b) * (a - b) for a, b in zip(P[j], v)) for k, v in T.items()}
        for k in T:
            ctx.expect(err[key] <= err[k] + (0 if ctx.symbolic else 1e-6 * (1 + abs(err[k]))), "no other meter is closer")


def h_checkpoints(ctx):
    """Only this model's checkpoint files go."""
    from nilmtk.disaggregate import Disaggregator
    m = Disaggregator()
    m.MODEL_NAME = 'M'
    prefix = ctx.choose('prefix', [None, 'run-a', 'run'])
    m.file_prefix = prefix
    d = tempfile.mkdtemp(prefix='symrun-')
    cwd = os.getcwd()
    try:
        names = ['%s-%d%s' % (ctx.string('f%d' % i, ['run-a', 'run-b', 'x-run-a']), i, str(ctx.string('e%d' % i, ['.h5', '.h5.bak', '.csv']))) for i in range(2)]
        for x in names:
            open(os.path.join(d, x), 'w').close()
        os.mkdir(os.path.join(d, 'run-a.h5'))
        os.mkdir(os.path.join(d, 'sub'))
        open(os.path.join(d, 'sub', 'run-a-9.h5'), 'w').close()
        os.chdir(d)
        with quiet():
            m.clear_model_checkpoints()
        left = sorted(os.listdir(d))
        ctx.expect(os.listdir(os.path.join(d, 'sub')) == ['run-a-9.h5'], "nothing below the directory")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    keep = [x for x in names if prefix is None or not (x.startswith(prefix) and x.endswith('.h5'))]
    ctx.expect(left == sorted(keep + ['run-a.h5', 'sub']), "exactly the checkpoint files with the prefix are removed")


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_cluster, extra=NP, base=b, sym=s, most=m, exact=e, form=f, module=mod) for b, s, m, e, f, mod in
          ((18, 3, 3, None, 'series', 'cluster'), (19, 2, 3, None, 'frame', 'cluster'), (20, 1, 4, None, 'series', 'cluster'), (19, 1, 3, 2, 'frame', 'cluster'),
           (20, 1, 2, None, 'frame', 'cluster'), (20, 0, 3, 3, 'series', 'cluster'), (20, 1, 3, None, 'series', 'steady_states'), (20, 0, 4, None, 'frame', 'steady_states'),
           (2001, 1, 3, None, 'series', 'cluster'), (2000, 0, 3, None, 'frame', 'cluster'))]
    cs += [Case(h_cluster, extra=NP, base=20, sym=0, most=3, exact=None, form='series', module=mod, flat=True) for mod in ('cluster', 'steady_states')]
    cs += [Case(h_co, extra=NP, apps=a, again=g) for a, g in ((1, False), (2, True), (13, False))]
    cs += [Case(h_hist, extra=NP, chunks=c, bins=b, rng=r) for c, b, r in (([2], 2, None), ([2, 1], 3, None), ([2, 2], None, None), ([2, 1, 1], 2, None),
                                                                 ([2, 2], 4, [0, None]), ([2, 1], 3, [None, 5]), ([1, 2], None, [1, 4]), ([1, 1, 1], 3, (1, 4)))]
    cs += [Case(h_transients, chunks=c, k=k) for c, k in (([3], 1), ([2, 3], 1), ([0, 3], 1), ([3], 2))]
    cs += [Case(h_meanshift, n=n, k=k) for n, k in ((1, 1), (2, 1), (2, 2))]
    cs += [Case(h_train, extra=METRICS, n=n, cents=c) for n, c in ((0, [150]), (0, [150, 600]), (1, [150]))]
    pk = dict(METRICS, subst=METRIC_LIST + [(__import__('pickle'), Pickle)])
    cs += [Case(h_export, extra=pk, n=n, match=m) for n, m in ((3, [0]), (3, [1, 0]))]
    js = dict(METRICS, subst=METRIC_LIST + [(REAL_JSON, Json)])
    cs += [Case(h_mean_saved, extra=js, apps=a, later=b, nested=n) for a, b, n in (([[0]], None, True), ([[0], [0, 1]], [1], False), ([[0, 1], [1]], [0, 2], True))]
    cs += [Case(h_best, extra=METRICS, n=n, preds=p, truth=q) for n, p, q in ((1, 1, 2), (2, 2, 2), (1, 1, 3))]
    cs += [Case(h_checkpoints)]
    if t:
        cs += [Case(h_cluster, extra=NP, base=17, sym=4, most=3, exact=None, form='series', module='cluster'), Case(h_cluster, extra=NP, base=20, sym=1, most=5, exact=None, form='series', module='cluster'),
               Case(h_hist, extra=NP, chunks=[3, 2, 2], bins=3, rng=None), Case(h_transients, chunks=[4, 3], k=1),
               Case(h_transients, chunks=[2, 2], k=2), Case(h_export, extra=pk, n=4, match=[1, 0]), Case(h_best, extra=METRICS, n=3, preds=2, truth=3),
               Case(h_train, extra=METRICS, n=1, cents=[150, 600])]
    return cs
