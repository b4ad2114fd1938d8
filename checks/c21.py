"""C21 the experiment API."""
import contextlib
import io
from types import SimpleNamespace

from .stream import *
from .standins import EXTRA

EXPLANATION = ("API(params) runs a whole experiment symbolically: training and testing, jointly and chunk by chunk, on stand-in "
               "datasets whose meters hold arbitrary readings, arbitrary rows of which are missing (NaN or absent); stand-in "
               "models record what they are given and return arbitrary predictions.  z3 proves that models see only "
               "consistent rows and that every reported error is the metric of the aligned truth and prediction.")
BOUNDS = {"rows": "2..3 per meter", "appliances": "2 (up to 5 in the common-rows case)", "buildings": "1..2", "models": "1..3", "chunks": "1..2",
          "extra (padding) predictions": "0..2"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["DataSet is replaced by stand-ins (loading is C01, C15, C17)", "sklearn metrics stand-ins in symbolic runs"]
APPS = ['fridge', 'kettle']
COL2 = ('power', 'reactive')


def ts(i):
    return pd.Timestamp('2020-01-01', tz='UTC') + pd.Timedelta(minutes=i)


def rows(ctx, name, n, nan, absent, at=0, lo=0):
    """{minute: value}; NaN or absent rows by choice of the solver."""
    out = {}
    for i in range(n):
        nm = '%s_%d' % (name, at + i)
        if i in absent and ctx.bool('absent' + nm):
            continue
        out[at + i] = float('nan') if i in nan and ctx.bool('nan' + nm) else ctx.real('v' + nm, lo, 3000)
    return out


def df_of(ctx, r, col=COL):
    if r and isinstance(next(iter(r.values())), tuple):
        return frame(ctx, [ts(i) for i in r], {c: [v[k] for v in r.values()] for k, c in enumerate((COL, COL2))})
    return frame(ctx, [ts(i) for i in r], {col: list(r.values())}) if r else pd.DataFrame()


@contextlib.contextmanager
def world(ctx, data, plots=False):
    """data: {path: {building: {'mains': [chunks], app: [chunks]}}} (chunk: {minute: value})"""
    import nilmtk.api as A
    log = []

    class Meter(object):
        def __init__(self, chunks, who):
            self.chunks, self.who = chunks, who

        def load(self, **kw):
            log.append((self.who, kw))
            for c in self.chunks:
                yield df_of(ctx, c)

    class Elec(object):
        def __init__(self, d, who):
            self.d, self.who = d, who

        def mains(self):
            return Meter(self.d['mains'], self.who + ('mains',))

        def __getitem__(self, app):
            return Meter(self.d[app], self.who + (app,))

    class FakeDataSet(object):
        def __init__(self, path):
            self.metadata = {'timezone': 'UTC'}
            self.buildings = {b: SimpleNamespace(elec=Elec(d, (path, b))) for b, d in data[path].items()}
            self.path = path

        def set_window(self, start=None, end=None):
            log.append((self.path, start, end))

    saved = A.DataSet, A.clear_output
    A.DataSet, A.clear_output = FakeDataSet, lambda *a, **k: None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield log
    finally:
        A.DataSet, A.clear_output = saved


class Model(object):
    MODEL_NAME = 'stand-in'
    load_model_path = None

    def __init__(self, ctx, name, pad=0, chunkwise=False, timestamps=True, lo=0):
        self.ctx, self.name, self.pad, self.chunk_wise_training, self.timestamps = ctx, name, pad, chunkwise, timestamps
        self.fits, self.tests, self.preds, self.epochs, self.lo = [], [], [], [], lo

    def partial_fit(self, mains, apps, *a, **k):
        self.fits.append(([m.copy() for m in mains], [(n, [d.copy() for d in l]) for n, l in apps]))
        self.epochs.append((getattr(self, 'n_epochs', None), list(a) + list(k.values())))

    def disaggregate_chunk(self, mains):
        self.tests.append([m.copy() for m in mains])
        out = []
        for m in mains:
            n = len(m) + self.pad
            cols = {a: [self.ctx.real('%s_%s_%d_%d' % (self.name, a, len(self.preds), i), self.lo, 3000) for i in range(n)] for a in APPS}
            self.preds.append(cols)
            df = pd.DataFrame({a: self.ctx.array(v) for a, v in cols.items()})
            if self.timestamps and not self.pad:
                df.index = m.index
            out.append(df)
        return out


def params(models, train, test, **kw):
    p = {'power': {'mains': ['active'], 'appliance': ['active']}, 'sample_rate': 60, 'appliances': list(APPS),
         'methods': models, 'train': {'datasets': train}, 'test': {'datasets': test, 'metrics': ['mae', 'rmse']}}
    p.update(kw)
    return p


def ds(*buildings, path='P'):
    return {'path': path, 'buildings': {b: {'start_time': 's%d' % b, 'end_time': 'e%d' % b} for b in buildings}}


def good(ctx, d, k):
    """Minutes at which mains and all appliances of chunk k have a reading."""
    out = [i for i, v in d['mains'][k].items() if not ctx.isnan(v)]
    for a in APPS:
        r = d[a][k] if k < len(d[a]) else {}
        out = [i for i in out if i in r and not any(ctx.isnan(x) for x in (r[i] if isinstance(r[i], tuple) else (r[i],)))]
    return out


def check_frames(ctx, mains, apps, d, k, artificial):
    ok = good(ctx, d, k)
    want = [ts(i) for i in ok]
    ctx.expect(len(apps) in (0, len(APPS)) and [a for a, _ in apps] in ([], APPS), "one entry per appliance, in order")
    ctx.expect(list(mains.index) == want, "mains rows at which every meter has a reading")
    for a, df in apps:
        ctx.expect(list(df.index) == want, "appliance rows at which every meter has a reading")
        if ok and isinstance(d[a][k][ok[0]], tuple):
            for c in (0, 1):
                ctx.all_eq(df.values[:, c], [d[a][k][i][c] for i in ok], "readings of the appliance")
        elif ok:
            ctx.all_eq(df.values[:, 0], [d[a][k][i] for i in ok], "readings of the appliance")
    if ok:
        m = [sum(d[a][k][i] for a in APPS) for i in ok] if artificial else [d['mains'][k][i] for i in ok]
        ctx.all_eq(mains.values[:, 0], m, "artificial aggregate is the sum of the appliances" if artificial else "readings of the mains")


def mk_building(ctx, b, sizes, nan, absent, lo=0):
    d, at = {'mains': []}, 0
    for a in APPS:
        d[a] = []
    for s in sizes:
        for m in ['mains'] + APPS:
            d[m].append(rows(ctx, 'b%d%s' % (b, m), s, nan if m != APPS[1] else (), absent if m == APPS[1] else (), at, lo))
        at += s
    return d


def check_error(ctx, api, key, model, k, d, chunk, metrics=('mae', 'rmse')):
    """errors of one test chunk"""
    ok = good(ctx, d, chunk)
    for metric in metrics:
        kk = '%s_%s' % (key, metric)
        ctx.expect(api.errors_keys.count(kk) == (1 if ok else 0), "one table per metric")
        if not ok:
            continue
        tab = api.errors[api.errors_keys.index(kk)]
        for a in APPS:
            p = model.preds[k][a][:len(ok)]
            g = [d[a][chunk][i] for i in ok]
            e = tab.loc[a, model.name]
            if metric == 'mae':
                want, got = sum(abs(x - y) for x, y in zip(g, p)), e * len(ok)
            elif metric == 'rmse':
                want, got = sum((x - y) * (x - y) for x, y in zip(g, p)), e * e * len(ok)
            else:
                want, got = sum(abs(x - y) for x, y in zip(g, p)), e * sum(g)
            if ctx.symbolic:
                ctx.eq(got, want, metric + " of truth and prediction, row by row")
            else:
                # predictions are kept as float32
                ctx.expect(abs(got - want) <= 1e-2 + 1e-3 * abs(want), metric + " of truth and prediction, row by row")


def h_joint(ctx, buildings, n, nan, absent, pad, artificial, n_models=1, metrics=('mae', 'rmse'), lo=0, plo=0):
    from nilmtk.api import API
    data = {'P': {b: mk_building(ctx, b, (n,), nan, absent, lo) for b in buildings}}
    models = {'m%d' % k: Model(ctx, 'm%d' % k, pad, lo=plo) for k in range(n_models)}
    with world(ctx, data) as log:
        p = params(models, {'D': ds(*buildings)}, {'D': ds(*buildings)}, artificial_aggregate=artificial)
        p['test']['metrics'] = list(metrics)
        api = API(p)
    for m in models.values():
        ctx.expect(len(m.fits) == 1, "joint training happens once")
        mains, apps = m.fits[0]
        ctx.expect(len(mains) == len(buildings) and [a for a, _ in apps] == APPS, "one frame per building and appliance")
        for j, b in enumerate(buildings):
            check_frames(ctx, mains[j], [(a, l[j]) for a, l in apps], data['P'][b], 0, artificial)
        ctx.expect(len(m.tests) == len(buildings), "every building is tested")
        for j, b in enumerate(buildings):
            check_frames(ctx, m.tests[j][0], [], data['P'][b], 0, artificial)
            check_error(ctx, api, 'D_%d' % b, m, j, data['P'][b], 0, metrics)
    for x in log:
        if isinstance(x[0], tuple):
            ctx.expect(x[1].get('physical_quantity') == 'power' and x[1].get('ac_type') == ['active'] and x[1].get('sample_period') == 60,
                       "the requested AC type at the requested sample rate")
    ctx.expect([x for x in log if x[0] == 'P'][:len(buildings)] == [('P', 's%d' % b, 'e%d' % b) for b in buildings],
               "the window of every building")


def h_chunks(ctx, sizes, nan, absent, artificial):
    from nilmtk.api import API
    data = {'P': {1: mk_building(ctx, 1, sizes, nan, absent)}}
    m = Model(ctx, 'm0', chunkwise=True)
    with world(ctx, data):
        api = API(params({'m0': m}, {'D': ds(1)}, {'D': ds(1)}, artificial_aggregate=artificial, chunk_size=10))
    d = data['P'][1]
    ctx.expect(len(m.fits) == len(sizes) and len(m.tests) == len(sizes), "one training and one test per chunk")
    for k in range(len(sizes)):
        mains, apps = m.fits[k]
        check_frames(ctx, mains[0], [(a, l[0]) for a, l in apps], d, k, artificial)
        check_frames(ctx, m.tests[k][0], [], d, k, artificial)
        check_error(ctx, api, 'D_1_%d' % k, m, k, d, k)


def h_short(ctx, sizes, missing):
    """An appliance whose data end before those of mains."""
    from nilmtk.api import API
    d = mk_building(ctx, 1, sizes, (), ())
    d[missing] = d[missing][:-1]
    m = Model(ctx, 'm0', chunkwise=True)
    with world(ctx, {'P': {1: d}}):
        api = API(params({'m0': m}, {'D': ds(1)}, {'D': ds(1)}, chunk_size=10))
    ctx.expect(len(m.fits) == len(sizes), "one training per chunk")
    for k in range(len(sizes)):
        mains, apps = m.fits[k]
        check_frames(ctx, mains[0], [(a, l[0]) for a, l in apps], d, k, False)
        check_error(ctx, api, 'D_1_%d' % k, m, k, d, k)


def h_train(ctx, parts, chunkwise, epochs, twocol, loaded):
    """Training only: several data sets, epochs, appliances with two columns."""
    from nilmtk.api import API
    data = {}
    for path, b in parts:
        d = mk_building(ctx, b, (2,), (0,), ())
        if twocol:
            k = APPS[0]
            d[k] = [{i: (ctx.real('a%s%d_%d' % (path, b, i), 0, 3000), float('nan') if ctx.bool('q%s%d_%d' % (path, b, i)) else ctx.real('r%s%d_%d' % (path, b, i), 0, 3000))
                     for i in d[k][0]}]
        data.setdefault(path, {})[b] = d
    m = Model(ctx, 'm0', chunkwise=chunkwise)
    if epochs:
        m.n_epochs = epochs
    if loaded:
        m.load_model_path = 'model'
    train = {p: ds(*[b for q, b in parts if q == p], path=p) for p in data}
    with world(ctx, data) as log:
        API(params({'m0': m}, train, {}, chunk_size=10 if chunkwise or epochs else None))
    if loaded:
        ctx.expect(m.fits == [], "a model that was loaded is not trained")
        return
    if not chunkwise:
        ctx.expect(len(m.fits) == 1, "joint training happens once")
        mains, apps = m.fits[0]
        ctx.expect(len(mains) == len(parts) and all(len(l) == len(parts) for _, l in apps), "one frame per building")
        for j, (p, b) in enumerate(parts):
            check_frames(ctx, mains[j], [(a, l[j]) for a, l in apps], data[p][b], 0, False)
        return
    ctx.expect(len(m.fits) == len(parts) * (epochs or 1), "every chunk once per epoch")
    for e in range(epochs or 1):
        for j, (p, b) in enumerate(parts):
            mains, apps = m.fits[e * len(parts) + j]
            check_frames(ctx, mains[0], [(a, l[0]) for a, l in apps], data[p][b], 0, False)
            n, rest = m.epochs[e * len(parts) + j]
            ctx.expect(n in (None, 1) and rest == [e], "one epoch per visit of a chunk, with its number")
    for x in log:
        if isinstance(x[0], tuple):
            ctx.expect(x[1].get('chunksize') == 10, "the requested chunk size")


def h_predict(ctx, n, pad, timestamps):
    """Truth and predictions are paired by position, padding is cut off."""
    from nilmtk.api import API
    api = API.__new__(API)
    api.site_only = False
    r = {a: rows(ctx, a, n, (), ()) for a in APPS}
    mains = df_of(ctx, rows(ctx, 'mains', n, (), ()))
    m = Model(ctx, 'm', pad, timestamps=timestamps)
    with contextlib.redirect_stdout(io.StringIO()):
        gt, pred = api.predict(m, [mains], [(a, [df_of(ctx, r[a])]) for a in APPS], 60, 'UTC')
    for t in (gt, pred):
        ctx.expect(list(t.index) == [ts(i) for i in range(n)] and set(t.columns) == set(APPS), "rows of the truth, one column per appliance")
    for a in APPS:
        ctx.all_eq(gt[a].values, list(r[a].values()), "truth")
        ctx.all_eq(pred[a].values, m.preds[0][a][:n], "prediction")


def same(ctx, got, want, msg):
    """Equal readings; missing where the meter's reading is missing."""
    got = list(got)
    ctx.expect(len(got) == len(want), msg)
    for g, w in zip(got, want):
        if ctx.isnan(w):
            ctx.expect(ctx.isnan(g), msg + ": missing stays missing")
        else:
            ctx.expect(not ctx.isnan(g), msg)
            ctx.eq(g, w, msg)


def h_nodrop(ctx, n, artificial):
    """DROP_ALL_NANS=False: models are given every row, NaN included."""
    from nilmtk.api import API
    tr = mk_building(ctx, 1, (n,), range(n), ())
    te = {'mains': [rows(ctx, 'tmains', n, (0,), ())]}
    for a in APPS:
        te[a] = [rows(ctx, 't' + a, n, (), ())]
    m = Model(ctx, 'm0')
    with world(ctx, {'P': {1: tr}, 'Q': {1: te}}):
        p = params({'m0': m}, {'D': ds(1)}, {'D': ds(1, path='Q')}, artificial_aggregate=artificial, DROP_ALL_NANS=False)
        p['test']['metrics'] = []
        API(p)
    nan = float('nan')

    def mains_of(d):
        if not artificial:
            return list(d['mains'][0].values())
        cols = [list(d[a][0].values()) for a in APPS]
        return [nan if any(ctx.isnan(x) for x in r) else sum(r) for r in zip(*cols)]
    ctx.expect(len(m.fits) == 1 and len(m.tests) == 1, "one training and one test")
    mains, apps = m.fits[0]
    same(ctx, mains[0].values[:, 0], mains_of(tr), "all rows of mains")
    for a, l in apps:
        same(ctx, l[0].values[:, 0], list(tr[a][0].values()), "all rows of the appliance")
    same(ctx, m.tests[0][0].values[:, 0], mains_of(te), "all rows of the mains tested")


def h_dropna(ctx, n, apps):
    """The rows common to mains and any number of appliances."""
    from nilmtk.api import API
    api = API.__new__(API)
    d = [rows(ctx, 'x%d' % k, n, (0,) if k % 2 == 0 else (), range(n) if k == apps else (n - 1,) if k % 2 else ()) for k in range(apps + 1)]
    ok = [i for i in range(n) if all(i in r and not ctx.isnan(r[i]) for r in d)]
    frames = [frame(ctx, [ts(i) for i in r], {COL: list(r.values())}) for r in d]
    if any(len(r) == 0 for r in d):
        return
    with contextlib.redirect_stdout(io.StringIO()):
        out = api.dropna(frames[0], frames[1:])
    ctx.expect(len(out[1]) == apps, "one frame per appliance")
    for r, f in zip(d, [out[0]] + list(out[1])):
        ctx.expect(list(f.index) == [ts(i) for i in ok], "rows at which every meter has a reading")
        if ok:
            ctx.all_eq(f.values[:, 0], [r[i] for i in ok], "readings of the meter")


def h_loaded_first(ctx, loaded):
    """Only models that were loaded are left untrained; all of them are tested."""
    from nilmtk.api import API
    d = mk_building(ctx, 1, (2,), (), ())
    models = {'m%d' % k: Model(ctx, 'm%d' % k) for k in range(3)}
    for k in loaded:
        models['m%d' % k].load_model_path = 'model'
    with world(ctx, {'P': {1: d}}):
        p = params(models, {'D': ds(1)}, {'D': ds(1)})
        p['test']['metrics'] = ['mae']
        api = API(p)
    for k, m in enumerate(models.values()):
        ctx.expect(len(m.fits) == (0 if k in loaded else 1), "models are trained unless they were loaded")
        ctx.expect(len(m.tests) == 1, "every model is tested")
        for mains, apps in m.fits:
            check_frames(ctx, mains[0], [(a, l[0]) for a, l in apps], d, 0, False)
        check_error(ctx, api, 'D_1', m, 0, d, 0, ('mae',))


def h_site(ctx, n, nan):
    """site_only: only mains are loaded for testing, predictions are kept in order."""
    from nilmtk.api import API
    import nilmtk.api as A
    tr = mk_building(ctx, 1, (n,), (), ())
    te = {'mains': [rows(ctx, 'tmains', n, nan, ())]}
    m = Model(ctx, 'm0')
    saved = pd.DataFrame.plot, A.plt
    pd.DataFrame.plot, A.plt = (lambda self, *a, **k: None), SimpleNamespace(title=lambda *a: None, legend=lambda *a: None)
    try:
        with world(ctx, {'P': {1: tr}, 'Q': {1: te}}) as log:
            api = API(params({'m0': m}, {'D': ds(1)}, {'D': ds(1, path='Q')}, site_only=True))
    finally:
        pd.DataFrame.plot, A.plt = saved
    ok = [i for i, v in te['mains'][0].items() if not ctx.isnan(v)]
    ctx.expect(len(m.tests) == 1 and list(m.tests[0][0].index) == [ts(i) for i in ok], "mains rows which have a reading")
    ctx.all_eq(m.tests[0][0].values[:, 0], [te['mains'][0][i] for i in ok], "readings of the mains")
    ctx.expect(list(api.errors) == [], "no truth, no errors")
    for a in APPS:
        ctx.all_eq(api.pred_overall['m0'][a].values, m.preds[0][a][:len(ok)], "predictions in order")


def cases(tier):
    t = tier == 'thorough'
    E = EXTRA
    cs = [Case(h_joint, extra=E, buildings=(1,), n=2, nan=(0, 1), absent=(1,), pad=0, artificial=False),
          Case(h_joint, extra=E, buildings=(1,), n=2, nan=(0,), absent=(1,), pad=1, artificial=True),
          Case(h_joint, extra=E, buildings=(1, 2), n=1, nan=(0,), absent=(), pad=0, artificial=False),
          Case(h_joint, extra=E, buildings=(1,), n=2, nan=(), absent=(), pad=0, artificial=False, n_models=2)]
    cs += [Case(h_chunks, extra=E, sizes=(2, 1), nan=(0,), absent=(), artificial=a) for a in (False, True)]
    cs += [Case(h_chunks, extra=E, sizes=(1, 1), nan=(), absent=(0,), artificial=False)]
    cs += [Case(h_joint, extra=E, buildings=(1,), n=2, nan=(), absent=(), pad=0, artificial=False, metrics=('nep', 'mae'), lo=1),
           Case(h_joint, extra=E, buildings=(1,), n=2, nan=(), absent=(), pad=0, artificial=False, lo=-50, plo=-50)]
    cs += [Case(h_short, extra=E, sizes=(1, 1), missing=a) for a in APPS]
    PQ = (('P', 1), ('Q', 1), ('Q', 2))
    cs += [Case(h_train, extra=E, parts=PQ, chunkwise=False, epochs=None, twocol=False, loaded=False),
           Case(h_train, extra=E, parts=PQ, chunkwise=False, epochs=2, twocol=False, loaded=False),
           Case(h_train, extra=E, parts=PQ[:2], chunkwise=True, epochs=None, twocol=False, loaded=False),
           Case(h_train, extra=E, parts=PQ[:2], chunkwise=True, epochs=2, twocol=False, loaded=False),
           Case(h_train, extra=E, parts=PQ[:1], chunkwise=True, epochs=None, twocol=True, loaded=False),
           Case(h_train, extra=E, parts=PQ[:1], chunkwise=True, epochs=2, twocol=False, loaded=True)]
    cs += [Case(h_predict, extra=E, n=n, pad=p, timestamps=s) for n, p, s in ((2, 0, True), (2, 2, True), (3, 0, False))]
    cs += [Case(h_nodrop, extra=E, n=2, artificial=a) for a in (False, True)]
    cs += [Case(h_dropna, extra=E, n=2, apps=a) for a in (3, 4)]
    cs += [Case(h_loaded_first, extra=E, loaded=l) for l in ((0,), (1, 2))]
    cs += [Case(h_site, extra=E, n=2, nan=(0,))]
    if t:
        cs += [Case(h_dropna, extra=E, n=3, apps=5)]
        cs += [Case(h_joint, extra=E, buildings=(1, 2), n=2, nan=(0, 1), absent=(1,), pad=0, artificial=False),
               Case(h_joint, extra=E, buildings=(1,), n=3, nan=(0, 2), absent=(1,), pad=2, artificial=True),
               Case(h_chunks, extra=E, sizes=(2, 2), nan=(0,), absent=(1,), artificial=False)]
    return cs
