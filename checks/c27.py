"""C27 classic disaggregators (nilmtk.legacy.disaggregate): what reaches the output store."""
import contextlib
import copy
import io
import itertools
import os
import tempfile
from collections import OrderedDict
from types import SimpleNamespace

from symrun.proxies import contains_sym
from symrun.shims import rounded_array
from . import fakestore
from .c10 import combos
from .c11 import arr, check_combined, fake_hmm, params, relabelled
from .c12 import edges, h_assign, h_pair
from .c24 import METRICS, NP, meanshift, oracles, readings, rounded, states_are, check_data
from .stream import *

EXPLANATION = ("legacy CombinatorialOptimisation, FHMM and Hart85 (train, disaggregate, disaggregate_chunk, disaggregate_across_buildings) and "
               "Disaggregator._save_metadata_for_disaggregation run symbolically with arbitrary mains readings, chunk times, chunk lengths, learnt states and decoded "
               "states; the tables and metadata found in the output HDF5 store afterwards are compared with what the trained model says of each mains chunk.  "
               "k-means, silhouette and hmmlearn answer arbitrarily.")
BOUNDS = {"mains chunks": "1..3 of 0..3 readings", "submeters": "1..2 (13 for the number of states)", "states": "2..3 per submeter", "shortest chunk": "1..3 readings",
          "Hart centroids": "1..2", "training": "one or two chunks of 18..23 readings", "transitions": "2..4, buffer 2..20"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["the meters are stand-ins which deliver chunks as ElecMeter.power_series and load do (C18, C20)",
                                  "k-means, silhouette_score and hmmlearn answer arbitrarily"]
RNAME = ('power', 'reactive')


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def ts(i):
    return pd.Timestamp('2014-01-01', tz='UTC') + pd.Timedelta(minutes=int(i))


class Appliance(object):
    def __init__(self, t, k):
        self.identifier, self.type = SimpleNamespace(type=t, instance=k), {'type': t}


class Meter(object):
    """A meter whose readings are given."""
    sections = 'good sections'

    def __init__(self, instance, chunks=(), name=None, apps=(('kettle', 1),), building=1):
        self.i, self.chunks, self.name, self.b, self.calls = instance, list(chunks), name, building, []
        self.store = SimpleNamespace(store=SimpleNamespace(filename='file-%d' % instance))
        self.appliances = [Appliance(t, k) for t, k in apps]

    def instance(self):
        return self.i

    def building(self):
        return self.b

    def good_sections(self, **kw):
        return self.sections

    def power_series(self, **kw):
        self.calls.append(('power_series', kw))
        return iter(self.chunks)

    def load(self, **kw):
        self.calls.append(('load', kw))
        return iter(self.frames)

    def __repr__(self):
        return 'Meter%d' % self.i


class Group(object):
    def __init__(self, meters, mains=None):
        self.subs, self._mains = list(meters), mains
        self.meters = ([mains] if mains is not None else []) + self.subs

    def submeters(self):
        return Group(self.subs)

    def mains(self):
        return self._mains

    def __getitem__(self, i):
        return [m for m in self.meters if m.instance() == i][0]


def series(ctx, stamps, v, frames=None):
    df = frame(ctx, stamps, {COL: v})
    s = df[COL]
    s.name = COL
    if len(stamps) or frames:
        from nilmtk.timeframe import TimeFrame
        set_attr(s, 'timeframe', TimeFrame(*(frames or (stamps[0], stamps[-1] + pd.Timedelta(minutes=1)))))
    return s


def mains_chunks(ctx, lens, symbolic_frames=True, hi=10000):
    """[(readings, instants, series with its time frame)], in order of time."""
    out, n = [], 0
    bounds = None
    if symbolic_frames:
        bounds = [ctx.time('f%d' % i, 0, 100000) for i in range(2 * len(lens))]
        for j in range(len(lens)):
            ctx.assume(bounds[2 * j] < bounds[2 * j + 1])
            if j:
                ctx.assume(bounds[2 * j - 1] <= bounds[2 * j])
    for j, c in enumerate(lens):
        v = [ctx.real('x%d' % (n + i), 0, hi) for i in range(c)]
        at = [ts(n + i) for i in range(c)]
        fr = (bounds[2 * j], bounds[2 * j + 1]) if bounds else (at[0], at[-1] + pd.Timedelta(minutes=1)) if c else (ts(n), ts(n + 1))
        out.append((v, at, series(ctx, at, v, fr), fr))
        n += c
    return out


def table(st, key):
    """The table or None."""
    return st.store[key] if key in st.store else None


def check_table(ctx, st, key, at, vals, label, slack=0.01):
    df = table(st, key)
    ctx.expect(df is not None, label + ": a table")
    ctx.expect(list(df.columns) == [COL], label + ": labelled with the measurement of the mains")
    ctx.expect(len(df) == len(at) and all(a == b for a, b in zip(df.index, at)), label + ": one row per mains reading, in order")
    got = list(df.iloc[:, 0])
    for g, w in zip(got, vals):
        if callable(w):
            w(g)
        else:
            ctx.expect(abs(g - w) <= (0 if ctx.symbolic else slack), label)


def check_metadata(ctx, st, name, building, period, spans, subs):
    """subs: [(instance, name or None, [(type, instance)])]"""
    from nilmtk.timeframe import TimeFrame
    md = st.load_metadata()
    ctx.expect(md['name'] == name, "the model names the data set")
    dev = md['meter_devices']
    ctx.expect(sorted(dev) == sorted([name, 'mains']), "two kinds of meter")
    for k in dev:
        ctx.expect(dev[k]['model'] == k and dev[k]['sample_period'] == period and dev[k]['max_sample_period'] == period, "sample period of the estimates")
        ctx.expect(dev[k]['measurements'] == [{'physical_quantity': 'power', 'type': 'active'}], "measurement of the mains")
    def span(d, label):
        tf = TimeFrame(d['start'], d['end'])
        ctx.expect(conj(tf.start == spans[0][0], tf.end == spans[-1][1]), label)
    span(md['timeframe'], "the data set spans the chunks used")
    b = st.load_metadata('/building%d' % building)
    ctx.expect(b['instance'] == building, "building")
    em = b['elec_meters']
    ctx.expect(sorted(em) == sorted([1] + [i for i, _, _ in subs]), "mains and one meter per model")
    for i, m in em.items():
        ctx.expect(m['data_location'] == '/building%d/elec/meter%d' % (building, i), "where the data are")
        span(m['statistics']['timeframe'], "meters span the chunks used")
    ctx.expect(em[1]['device_model'] == 'mains' and em[1].get('site_meter') is True and 'submeter_of' not in em[1], "meter 1 is the mains")
    for i, nm, apps in subs:
        ctx.expect(em[i]['device_model'] == name and em[i]['submeter_of'] == 1 and not em[i].get('site_meter'), "estimates are submeters of the mains")
        ctx.expect(em[i].get('name') == nm, "name of the meter")
    got = [(tuple(a['meters']), a['type'], a['instance']) for a in b['appliances']]
    ctx.expect(got == [((i,), t, k) for i, _, apps in subs for t, k in apps], "appliances of the meters")


SUBS = [(2, None, [('kettle', 1)]), (5, 'lights', [('light', 1), ('light', 2)])]


def meters(building=1):
    return [Meter(i, name=n, apps=a, building=building) for i, n, a in SUBS]


# ------------------------------------------------------------------------ CO
def co_model(ctx, states):
    from nilmtk.legacy.disaggregate import CombinatorialOptimisation
    co = CombinatorialOptimisation()
    st = [[0.0 if j == 0 else ctx.real('s%d_%d' % (a, j), 0, 4000) for j in range(k)] for a, k in enumerate(states)]
    for s in st:
        for a, b in zip(s, s[1:]):
            ctx.assume(a < b)
    co.model = [{'states': ctx.array(s), 'training_metadata': m} for s, m in zip(st, meters(3))]
    return co, st


def h_co(ctx, states, lens, least, kw, again=False):
    co, st = co_model(ctx, states)
    co.MIN_CHUNK_LENGTH = least
    chunks = mains_chunks(ctx, lens)
    mains = Meter(1, [c[2] for c in chunks], building=3)
    with fakestore.store(ctx) as out, quiet():
        co.disaggregate(mains, out, **dict(kw))
        if again:
            late = [0.0, ctx.real('late', 1, 4000)]
            co.model.append({'states': ctx.array(late), 'training_metadata': Meter(9, building=3)})
            st = st + [late]
            with fakestore.store(ctx) as out2:
                co.disaggregate(mains, out2, **dict(kw))
                check_co(ctx, co, st, chunks, least, mains, out2, kw, SUBS[:len(states)] + [(9, None, [('kettle', 1)])])
        else:
            check_co(ctx, co, st, chunks, least, mains, out, kw, SUBS[:len(states)])


def asked(ctx, mains, kw, calls=('power_series',)):
    want = dict(kw)
    if 'resample_seconds' in want:
        want['sample_period'] = want.pop('resample_seconds')
    want.setdefault('sample_period', 60)
    want.setdefault('sections', Meter.sections)
    got = [k for n, k in mains.calls if n == 'power_series']
    ctx.expect(all(k == want for k in got) and got, "mains loaded as asked, 60 s and the good sections unless told otherwise")
    return want


def check_co(ctx, co, st, chunks, least, mains, out, kw, subs):
    want = asked(ctx, mains, kw)
    used = [c for c in chunks if len(c[0]) >= least]
    if not used:
        ctx.expect(not out.store.keys(), "nothing is written when every chunk is too short")
        return
    at = [t for c in used for t in c[1]]
    x = [v for c in used for v in c[0]]
    keys = ['/building3/elec/meter%d' % i for i, _, _ in subs]
    ctx.expect(sorted(out.store.keys()) == sorted(keys + ['/building3/elec/meter1']), "one table per trained meter and the mains")
    check_table(ctx, out, '/building3/elec/meter1', at, x, "mains are copied")
    est = []
    for a, k in enumerate(keys):
        check_table(ctx, out, k, at, [(lambda g, a=a: ctx.expect(disj(*[ctx.same(g, s) for s in st[a]]), "an estimate is a state of its meter"))] * len(at), "estimates")
        est.append(list(table(out, k).iloc[:, 0]))
    for i, v in enumerate(x):
        s = sum(e[i] for e in est)
        for c in combos(st):
            ctx.expect(abs(v - s) <= abs(v - sum(c)) + (0 if ctx.symbolic else 0.01), "no combination of states is closer to the mains")
    check_metadata(ctx, out, 'CO', 3, want['sample_period'], [c[3] for c in used], subs)


def h_co_train(ctx, apps, exact, twice):
    """One entry per submeter, learnt from its first chunk."""
    from nilmtk.legacy.disaggregate import CombinatorialOptimisation
    co = CombinatorialOptimisation()
    vs = [readings(ctx, 18, 0) if a > 1 else readings(ctx, 19, 2) for a in range(apps)]
    ms = [Meter(a + 2, [series(ctx, [ts(i) for i in range(len(v))], v)] + ([series(ctx, [ts(100 + i) for i in range(25)], [39.0] * 25)] if twice else []))
          for a, v in enumerate(vs)]
    g = Group(ms, Meter(1))
    asked_ = {ms[0]: exact} if exact else None
    with oracles(ctx, fixed=(30.4, 21.0, 12.0)) as log, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        co.train(g, *([asked_] if asked_ else []), sample_period=6)
        n = len(log)
        try:
            co.train(g)
            ctx.expect(False, "a trained model refuses to be trained again")
        except RuntimeError:
            pass
        try:
            co.train_on_chunk(ms[0].chunks[0], ms[0], 3, None)
            ctx.expect(False, "a meter is learnt once")
        except RuntimeError:
            pass
    ctx.expect([m['training_metadata'] for m in co.model] == ms, "one model per submeter, in order")
    ctx.expect(all(m.calls[0] == ('power_series', {'sample_period': 6}) for m in ms), "loaded as asked")
    most = 2 if apps + 1 > 12 else 3
    k = 0
    for a, v in enumerate(vs):
        mine = log[k:k + (1 if exact and a == 0 else most - 1)]
        k += len(mine)
        for c, X, cents, _ in mine:
            check_data(ctx, X, v)
        ctx.expect([c for c, _, _, _ in mine] == ([exact - 1] if exact and a == 0 else list(range(1, most))), "number of states: as asked, or at most three (two if there are many meters)")
        # fixed centres: the clusterings differ only by their number
        ctx.expect(0 in list(np.asarray(co.model[a]['states']).ravel()), "off is a state")
    ctx.expect(k == n, "nothing else is clustered")


def h_co_refuse(ctx):
    from nilmtk.legacy.disaggregate import CombinatorialOptimisation
    co = CombinatorialOptimisation()
    chunks = mains_chunks(ctx, (1,), False)
    mains = Meter(1, [c[2] for c in chunks])
    with fakestore.store(ctx) as out, quiet():
        for f in (lambda: co.disaggregate(mains, out), lambda: co.disaggregate_chunk(chunks[0][2])):
            try:
                f()
            except RuntimeError:
                continue
            ctx.expect(False, "an untrained model refuses to disaggregate")
        ctx.expect(not out.store.keys(), "nothing is written")
    co2, st = co_model(ctx, (2,))
    ctx.expect(co2.MIN_CHUNK_LENGTH > 1, "short chunks are refused by default")
    with quiet():
        try:
            co2.disaggregate_chunk(chunks[0][2])
            ctx.expect(False, "a chunk which is too short is refused")
        except RuntimeError:
            pass


# ---------------------------------------------------------------------- FHMM
def fhmm_model(ctx, sizes, keys, total, seqs):
    from nilmtk.legacy.disaggregate import FHMM
    f = FHMM()
    mus = []
    f.individual = OrderedDict()
    for a, k in enumerate(sizes):
        mu = [ctx.real('mu%d_%d' % (a, j), 0, 3000) for j in range(k)]
        for x, y in zip(mu, mu[1:]):
            ctx.assume(x <= y)
        mus.append(mu)
        f.individual[keys[a]] = SimpleNamespace(means_=rounded_array(ctx, [[x] for x in mu]))
    seen = []

    class Model(object):
        def predict(self, x):
            k = len(seen)
            seen.append(list(np.asarray(x, dtype=object).ravel()))
            return np.array(seqs[k][:len(x)])
    f.model = Model()
    return f, mus, seen


def h_fhmm(ctx, sizes, lens, least, kw, miss=False, across=False):
    total = int(np.prod(sizes))
    chunks = mains_chunks(ctx, lens)
    subs = SUBS[:len(sizes)]
    b = 3
    mains = Meter(1, building=b)
    if miss:
        v, at, s, fr = chunks[0]
        v = [float('nan') if ctx.bool('nan') else v[0]] + v[1:]
        chunks[0] = (v, at, series(ctx, at, v, fr), fr)
    mains.chunks = [c[2] for c in chunks]
    used = [c for c in chunks if len(c[0]) >= least]
    seqs = [[ctx.choose('q%d_%d' % (j, i), list(range(total))) for i in range(len(c[0]))] for j, c in enumerate(used)]
    ms = meters(b)[:len(sizes)]
    keys = [m.appliances[0].identifier.type for m in ms] if across else ms
    f, mus, seen = fhmm_model(ctx, sizes, keys, total, seqs)
    f.MIN_CHUNK_LENGTH, f.meters = least, ms
    with fakestore.store(ctx) as out, quiet():
        if across:
            f.list_of_appliances = list(keys)
            elec = Group(list(reversed(ms)), mains)
            f.disaggregate_across_buildings(SimpleNamespace(buildings={b: SimpleNamespace(elec=elec)}), out, [b], **dict(kw))
        else:
            f.disaggregate(mains, out, **dict(kw))
        want = asked(ctx, mains, kw)
        if not used:
            ctx.expect(not out.store.keys(), "nothing is written when every chunk is too short")
            return
        ctx.expect(sorted(out.store.keys()) == sorted(['/building%d/elec/meter%d' % (b, i) for i in [1] + [s[0] for s in subs]]), "one table per trained meter and the mains")
        ctx.expect(len(seen) == len(used), "every chunk which is long enough is decoded once")
        at, st, mx, mv = [], [], [], []
        for c, x, q in zip(used, seen, seqs):
            ok = [i for i, v in enumerate(c[0]) if not ctx.isnan(v)]
            ctx.expect(len(x) == len(ok), "missing mains readings are left out")
            ctx.all_eq(x, [c[0][i] for i in ok], "the mains readings are decoded")
            at += [c[1][i] for i in ok]
            st += q[:len(ok)]
            mx += c[1]
            mv += c[0]
        cs = list(itertools.product(*[range(k) for k in sizes]))
        for a, (i, _, _) in enumerate(subs):
            near = [(lambda g, m=mus[a][cs[s][a]]: ctx.expect(abs(g - m) <= (0.5 if ctx.symbolic else 0.51), "the mean of the decoded state in whole watts")) for s in st]
            check_table(ctx, out, '/building%d/elec/meter%d' % (b, i), at, near, "estimates")
        if not miss:
            check_table(ctx, out, '/building%d/elec/meter1' % b, mx, mv, "mains are copied")
        check_metadata(ctx, out, 'FHMM', b, want['sample_period'], [c[3] for c in used], subs)


def h_fhmm_train(ctx, sizes, rows, how, more):
    """One model per submeter from the valid readings of its first chunk."""
    from nilmtk.legacy.disaggregate import fhmm_exact as F
    need(ctx, F, 'hmm')
    learnt = [params(ctx, k, 'm%d' % a) for a, k in enumerate(sizes)]
    ms, want = meters()[:len(sizes)], []
    for a, m in enumerate(ms):
        v = [float('nan') if i == 1 and ctx.bool('nan%d' % a) else ctx.real('p%d_%d' % (a, i), 0, 3000) for i in range(rows)]
        m.chunks = [series(ctx, [ts(i) for i in range(rows)], v)] + ([series(ctx, [ts(50)], [1.0])] if more else [])
        want.append([x for x in v if not ctx.isnan(x)])
    empty = Meter(7, [series(ctx, [ts(0)], [float('nan')])])
    states = {m: k for m, k in zip(ms, sizes)} if how == 'meter' else {t: k for (i, n, ap), k in zip(SUBS, sizes) for t, _ in ap[:1]}
    f = F.FHMM()
    g = Group([ms[0], empty] + ms[1:], Meter(1))
    with quiet(), fake_hmm(F, learnt) as fits, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f.train(g, states, sample_period=6)
    ctx.expect(list(f.individual) == ms and list(f.meters) == ms, "one model per submeter with readings, in order")
    ctx.expect(all(m.calls == [('power_series', {'sample_period': 6})] for m in ms), "loaded as asked")
    for x, w in zip(fits, want):
        ctx.expect(np.shape(x) == (len(w), 1), "all valid readings as a column")
        ctx.all_eq(list(np.asarray(x).ravel()), w, "training readings")
    for a, m in enumerate(f.individual.values()):
        ctx.expect(relabelled(ctx, learnt[a], m, sizes[a]), "the model of a meter is the one learnt from it")
        for i in range(sizes[a] - 1):
            ctx.expect(m.means_[i][0] <= m.means_[i + 1][0], "states in order of their means")
    check_combined(ctx, f.model, list(f.individual.values()), sizes)


def h_fhmm_states(ctx, how):
    """Number of states: of the meter, else of its appliances (by type), else clustered."""
    from nilmtk.legacy.disaggregate import fhmm_exact as F
    need(ctx, F, 'hmm')
    m = Meter(4, [series(ctx, [ts(i) for i in range(22)], [20.0 + i % 3 for i in range(22)])], apps=[('light', 1), ('lamp', 1)])
    d = {'meter': {m: 4, 'light': 2}, 'types': {'light': 2, 'lamp': 3}, 'one': {'light': 3}, 'object': {m.appliances[1]: 2}, 'none': {}}[how]
    seen = []
    k = {'meter': 4, 'types': 5, 'one': 3, 'object': 2, 'none': None}[how]
    real = F.hmm

    class G(object):
        def __init__(self, n_components=1, covariance_type='diag', **kw):
            seen.append((n_components, covariance_type))
            self.n = n_components

        def fit(self, X):
            self.startprob_, self.transmat_ = np.ones(self.n) / self.n, np.ones((self.n, self.n)) / self.n
            self.means_, self.covars_ = np.arange(self.n, dtype=float).reshape(-1, 1), np.ones((self.n, 1, 1))
    F.hmm = SimpleNamespace(GaussianHMM=G)
    f = F.FHMM()
    try:
        with quiet(), oracles(ctx, fixed=(30.4, 21.0, 12.0)) as log:
            f.train(Group([m], Meter(1)), d)
    finally:
        F.hmm = real
    if k is None:
        best = max((x for x in log if x[3] is not None), key=lambda x: x[0]) if log else None
        ctx.expect(best is not None and 2 <= seen[0][0] <= 3, "as many states as clusters were found")
    else:
        ctx.expect(seen[0][0] == k and not log, "as many states as asked for")
    ctx.expect(all(c == 'full' for _, c in seen), "full covariance")


# ---------------------------------------------------------------------- Hart
def to_numeric(s, *a, **k):
    """Readings are numbers already."""
    return s if not a and not k and contains_sym(s) else pd.to_numeric(s, *a, **k)


def h_hart(ctx, lens, cents, kw, flat=False):
    """Per mains chunk and centroid: on after a rise nearest to it, off after a fall."""
    from nilmtk.legacy.disaggregate import Hart85
    h = Hart85()
    h.columns = [COL]
    h.centroids = pd.DataFrame([[c] for c in cents], columns=[COL])
    h.state_threshold, h.noise_level = 15, 70
    h.model = {'columns': h.columns}
    chunks = mains_chunks(ctx, lens, hi=20 if flat else 4000)
    mains = Meter(1, [c[2] for c in chunks], building=2)
    mains.frames = [frame(ctx, c[1], {COL: c[0]}) for c in chunks]
    with fakestore.store(ctx) as out, quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        h.disaggregate(mains, out, **dict(kw))
        want = asked(ctx, mains, kw)
        loads = [k for n, k in mains.calls if n == 'load']
        ctx.expect(loads and loads[0] == dict(want, columns=[COL]), "edges are sought in the readings asked for")
        keys = ['/building2/elec/meter%d' % (j + 2) for j in range(len(cents))]
        ctx.expect(sorted(out.store.keys()) == sorted(keys + ['/building2/elec/meter1']), "one table per centroid and the mains")
        at = [t for c in chunks for t in c[1]]
        check_table(ctx, out, '/building2/elec/meter1', at, [v for c in chunks for v in c[0]], "mains are copied")
        for j, k in enumerate(keys):
            df = table(out, k)
            ctx.expect(list(df.columns) == [COL] and list(df.index) == at, "one row per mains reading, in order")
        n0 = 0
        for v, stamps, _, _ in chunks:
            ev = {}
            for i, d, _ in edges([[x] for x in v], 15, 70):
                x = abs(d[0])
                best = 0
                for j in range(1, len(cents)):
                    if abs(x - cents[j]) < abs(x - cents[best]):
                        best = j
                ev[i] = (best, bool(d[0] > 0))
            for j, k in enumerate(keys):
                cur, vals = None, list(table(out, k).iloc[:, 0])[n0:n0 + len(v)]
                for i in range(len(v) - 1):
                    if i in ev and ev[i][0] == j:
                        cur = ev[i][1]
                        continue
                    if cur is not None:
                        ctx.eq(vals[i], int(cents[j]) if cur else 0, "power follows the latest event of the centroid")
            n0 += len(v)
        check_metadata(ctx, out, 'Hart85', 2, want['sample_period'], [c[3] for c in chunks],
                       [(j + 2, None, [('unknown', j + 1)]) for j in range(len(cents))])


def h_hart_train(ctx, n, cents):
    """Edges of the readings asked for, paired and clustered; the model survives a file."""
    from nilmtk.legacy.disaggregate import Hart85
    v = [0.0, 0.0, 200.0, 200.0, 0.0, 0.0] + [ctx.real('p%d' % i, 0, 2000) for i in range(n)]
    g = Meter(1)
    g.frames = [frame(ctx, [ts(i) for i in range(len(v))], {COL: v})]
    h = Hart85()
    with tempfile.TemporaryDirectory(prefix='symrun-') as d, meanshift(ctx, [[float(c)] for c in cents]) as log, quiet():
        h.train(g, [COL], noise_level=60, state_threshold=20, sections='mine')
        fn = os.path.join(d, 'm.pickle')
        h.export_model(fn)
        c = Hart85()
        c.import_model(fn)
    ctx.expect(g.calls == [('load', {'columns': [COL], 'sections': 'mine'})], "trained on the readings asked for")
    want = [(ts(at), e) for at, e, _ in edges([[x] for x in v], 20, 60)]
    for m in (h, c):
        ctx.expect(list(m.transients.index) == [t for t, _ in want], "edges")
        ctx.all_eq([x for x in m.transients.iloc[:, 0]], [e[0] for _, e in want], "size of the edges")
        ctx.expect(list(m.columns) == [COL] and m.state_threshold == 20 and m.noise_level == 60 and list(m.centroids.columns) == [COL], "parameters")
        ctx.all_eq(list(m.centroids.iloc[:, 0]), [float(x) for x in cents], "centroids")
    ctx.expect(len(log) == 1 and log[0].shape[1] == 1, "pairs are clustered")
    p = h.pair_df
    ctx.expect(len(p) == len(log[0]), "one feature per pair")
    for r in range(len(p)):
        ctx.eq(log[0][r, 0], (abs(p['T1 Active'].iloc[r]) + abs(p['T2 Active'].iloc[r])) / 2, "mean size of the two edges")


# -------------------------------------------------------------------- export
class Pickle(object):
    """pickle in the symbolic runs: binary files, objects kept in memory."""
    kept = {}

    @classmethod
    def dump(cls, obj, f, *a, **k):
        f.write(b'')
        f.flush()
        cls.kept[os.path.abspath(f.name)] = copy.deepcopy(obj)

    @classmethod
    def load(cls, f, *a, **k):
        if not isinstance(f.read(0), bytes):
            raise TypeError("a bytes-like object is required, not 'str'")
        return copy.deepcopy(cls.kept[os.path.abspath(f.name)])


def h_export(ctx, which, states):
    """The imported model has the same parameters, and meters on the same files."""
    import nilmtk.legacy.disaggregate as L
    from nilmtk.datastore import HDFDataStore
    cls = getattr(L, which)
    with fakestore.directory() as d, quiet():
        stores = [HDFDataStore(os.path.join(d, 'data%d.h5' % a), 'w') for a in range(len(states))]
        if ctx.symbolic:
            for st in stores:
                open(st.store.path, 'a').close()
        ms = meters(3)[:len(states)]
        for m, st in zip(ms, stores):
            m.store = st
        if which == 'FHMM':
            a = cls()
            a.individual = OrderedDict((m, params(ctx, k, 'm%d' % i)) for i, (m, k) in enumerate(zip(ms, states)))
            a.model, a.meters = params(ctx, 2, 'c'), list(ms)
            num = lambda x: [v for q in [x.model] + list(x.individual.values()) for y in (q.startprob_, q.means_, q.covars_, q.transmat_) for v in np.asarray(y, dtype=object).ravel()]
            subs = lambda x: list(x.meters)
        else:
            a, st = co_model(ctx, states)
            a.MIN_CHUNK_LENGTH = 1
            for p, m in zip(a.model, ms):
                p['training_metadata'] = m
            num = lambda x: [v for p in x.model for v in np.asarray(p['states'], dtype=object).ravel()]
            subs = lambda x: [p['training_metadata'] for p in x.model]
        want = num(a)
        fn = os.path.join(d, 'model.pickle')
        a.export_model(fn)
        ctx.expect(subs(a) == ms and all(m.store is st for m, st in zip(ms, stores)), "exporting leaves the model usable")
        for st in stores:
            st.close()
        b = cls()
        b.import_model(fn)
        ctx.expect([m.instance() for m in subs(b)] == [m.instance() for m in ms], "the same meters, in order")
        got = num(b)
        ctx.expect(len(got) == len(want), "the same parameters")
        ctx.all_eq(got, want, "the same parameters")
        ctx.expect([os.path.basename(m.store.store.filename if not ctx.symbolic else m.store.store.path) for m in subs(b)] == ['data%d.h5' % i for i in range(len(states))],
                   "each meter has its own data store again")
        if which != 'FHMM':
            x = ctx.real('x', 0, 10000)
            s = series(ctx, [ts(0)], [x])
            p, q = a.disaggregate_chunk(s), b.disaggregate_chunk(s)
            ctx.all_eq(list(q.iloc[0]), list(p.iloc[0]), "the imported model predicts what the exported one does")
        for m in subs(b):
            m.store.close()


# ------------------------------------------------------------------- refusal
def h_untrained(ctx, which):
    import nilmtk.legacy.disaggregate as L
    m = getattr(L, which)()
    with fakestore.store(ctx) as out, quiet():
        try:
            m.disaggregate(Meter(1, [series(ctx, [ts(0)], [ctx.real('x', 0, 10)])]), out)
            ctx.expect(False, "an untrained model refuses to disaggregate")
        except RuntimeError:
            pass
        ctx.expect(not out.store.keys(), "nothing is written")


def cases(tier):
    t = tier == 'thorough'
    fs = fakestore.EXTRA
    hs = {**fs, 'pd': {**fs['pd'], 'to_numeric': to_numeric}}
    d, own = {}, {'sample_period': 6, 'sections': 'mine'}
    cs = [Case(h_co, extra=fs, states=s, lens=c, least=m, kw=k) for s, c, m, k in
          (((2,), (2,), 1, d), ((2, 2), (1,), 1, own), ((2,), (1, 2), 2, d), ((2,), (1,), 2, d), ((3,), (1, 1), 1, {'resample_seconds': 30}), ((2, 3), (1,), 1, d),
           ((2,), (1, 0, 1), 1, own), ((2,), (1, 1, 1), 1, d))]
    cs += [Case(h_co, extra=fs, states=(2,), lens=(1,), least=1, kw=d, again=True), Case(h_co_refuse, extra=fs)]
    cs += [Case(h_co_train, extra=NP, apps=a, exact=e, twice=w) for a, e, w in ((1, None, False), (2, None, True), (2, 3, False), (11, None, False), (12, None, False))]
    cs += [Case(h_fhmm, extra=fs, sizes=s, lens=c, least=m, kw=k) for s, c, m, k in
           (((2,), (2,), 1, d), ((2, 2), (1,), 1, own), ((3, 2), (1,), 1, d), ((2,), (1, 2), 2, d), ((2,), (1,), 2, d), ((2,), (1, 1), 1, {'resample_seconds': 30}))]
    cs += [Case(h_fhmm, extra=fs, sizes=(2,), lens=(2,), least=1, kw=d, miss=True)]
    cs += [Case(h_fhmm, extra=fs, sizes=s, lens=c, least=1, kw=k, across=True) for s, c, k in (((2,), (1,), d), ((2, 2), (1, 1), own))]
    cs += [Case(h_fhmm_train, sizes=s, rows=r, how=h, more=w) for s, r, h, w in (((2,), 2, 'meter', False), ((2, 2), 2, 'type', True), ((3, 2), 2, 'meter', True))]
    cs += [Case(h_fhmm_states, extra=NP, how=h) for h in ('meter', 'types', 'one', 'object', 'none')]
    cs += [Case(h_hart, extra=hs, lens=c, cents=ce, kw=k) for c, ce, k in (((3,), (300.0,), d), ((2, 2), (300.0,), own), ((3,), (100.0, 2000.0), {'resample_seconds': 30}))]
    cs += [Case(h_hart, extra=hs, lens=(2,), cents=(300.0,), kw=d, flat=True)]
    cs += [Case(h_hart, extra=hs, lens=(4,), cents=(300.0,), kw=d), Case(h_hart, extra=hs, lens=(1, 4), cents=(100.0, 2000.0), kw=d)]
    cs += [Case(h_pair, n=n, k=k, buf=b, mt=100, sym_tol=s, legacy=True) for n, k, b, s in ((2, 1, 20, True), (3, 1, 20, False), (3, 1, 2, True), (2, 2, 20, False))]
    cs += [Case(h_pair, n=4, k=1, buf=3, mt=100, sym_tol=False, signs='++--', legacy=True)]
    cs += [Case(h_assign, n=n, cents=c, k=k, legacy=True) for n, c, k in ((3, [[120.7]], 1), (4, [[120.7]], 1), (3, [[120.0], [2000.0]], 1), (3, [[120.7, 30.2]], 2))]
    cs += [Case(h_untrained, extra=fs, which=w) for w in ('CombinatorialOptimisation', 'FHMM', 'Hart85')]
    pk = dict(fs, subst=fs['subst'] + [(__import__('pickle'), Pickle)])
    cs += [Case(h_export, extra=pk, which=w, states=s) for w in ('CombinatorialOptimisation', 'FHMM') for s in ((2,), (2, 3))]
    cs += [Case(h_hart_train, extra=dict(NP, subst=[(__import__('pickle'), Pickle)]), n=n, cents=c) for n, c in ((0, [150]), (1, [150, 600]))]
    if t:
        cs += [Case(h_co, extra=fs, states=(2,), lens=(2, 1, 2), least=2, kw=own), Case(h_co, extra=fs, states=(2, 2), lens=(2,), least=1, kw=d), Case(h_co, extra=fs, states=(3,), lens=(1, 2), least=2, kw=d),
               Case(h_fhmm, extra=fs, sizes=(2, 2), lens=(2, 1), least=1, kw=d), Case(h_hart, extra=hs, lens=(4,), cents=(300.0,), kw=d),
               Case(h_hart, extra=hs, lens=(3, 3), cents=(300.0,), kw=d), Case(h_fhmm_train, sizes=(2, 3), rows=3, how='type', more=False)]
    return cs
