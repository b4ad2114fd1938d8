"""C25 windows of a data set, per-meter tables, labels, activity scripts."""
import contextlib
import io
import os
import shutil
import tempfile

from symrun.proxies import is_sym
from . import fakestore, fakecsv
from .c17 import MG, EID, plain, appliance, exactly, attempt, TYPES
from .groups import *

EXPLANATION = ("DataSet.import_metadata / set_window on an HDF5 store with arbitrary rows, get_activity_script, clear_cache, describe, "
               "MeterGroup.proportion_of_upstream_total_per_meter, correlation_of_sum_of_submeters_with_mains, good_sections, dominant_appliance(s), appliances, "
               "values_for_appliance_metadata_key, label(s) and sort_meters, Appliance.label, on-power thresholds and durations, and the helpers tz_localize_naive, "
               "timestamp_is_naive, convert_to_timestamp, most_common, tree_root and the list helpers run symbolically.")
BOUNDS = {"rows": "1..3 per meter, 2 buildings", "meters": "1..3", "appliances per meter": "0..2", "activations": "0..3 per meter", "tz": "UTC, Etc/GMT-2, Etc/GMT+3; Europe/London with wall-clock strings",
          "list entries": "1..4", "graph nodes": "2..3"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["naive instants are localised symbolically for zones with a fixed offset only"]
LONDON = 'Europe/London'


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# -------------------------------------------------------------------- window
def dataset(ctx, st, tz, n, gap=False):
    """Two buildings with one meter each."""
    from nilmtk.dataset import DataSet
    rows = []
    for b in (1, 2):
        ts = times(ctx, n, 'b%d_' % b)
        v = [ctx.real('v%d_%d' % (b, i), 0, 3000) for i in range(n)]
        key = '/building%d/elec/meter1' % b
        st.put(key, frame(ctx, ts, {COL: v}))
        rows.append((ts, v))
    dev = {'sample_period': 6, 'max_sample_period': 12, 'measurements': [{'physical_quantity': 'power', 'type': 'active'}]}
    md = {'name': 'DS', 'meter_devices': {'new': dev}}
    if tz:
        md['timezone'] = tz
    st.save_metadata('/', md)
    for b in (1, 2):
        st.save_metadata('/building%d' % b, {'instance': b, 'elec_meters': {1: {'device_model': 'new', 'data_location': '/building%d/elec/meter1' % b, 'site_meter': True}}, 'appliances': []})
    ds = DataSet()
    got = ds.import_metadata(st)
    ctx.expect(got is ds and ds.store is st, "the data set keeps its store")
    ctx.expect(list(ds.buildings) == [1, 2] and [e.building() for e in ds.elecs()] == [1, 2], "every building")
    return ds, rows


def loads(ctx, ds, rows, inside, label):
    for b, (ts, v) in zip((1, 2), rows):
        want = [(t, x) for t, x in zip(ts, v) if inside(t)]
        got = [(t, x) for c in ds.buildings[b].elec.meters[0].load() if len(c) for t, x in zip(c.index, c[COL])]
        w = ds.store.window
        if len(want) == 1 and not got and (w.start is None or w.end is None):
            # a single row spans no time: an open-ended request may report it as empty
            continue
        ctx.expect(len(got) == len(want), label + ": the rows in the window")
        for (t, x), (u, y) in zip(got, want):
            ctx.eq(t, u, label + ": instant")
            ctx.eq(x, y, label + ": value")


def h_window(ctx, n, tz, given):
    with registry(), fakestore.store(ctx) as st:
        ds, rows = dataset(ctx, st, tz, n)
        arg, inst = {}, {}
        for k in given:
            if ctx.symbolic:
                t = ctx.time(k, tz=None)
                inst[k] = t.tz_localize(tz)
            else:
                t = ctx.time(k, tz=None)
                inst[k] = pd.Timestamp(t).tz_localize(tz)
            arg[k] = t
        if len(given) == 2:
            ctx.assume(inst['start'] < inst['end'])
        ds.set_window(**arg)
        inside = lambda t: bool(conj(*([t >= inst['start']] if 'start' in inst else []) + ([t < inst['end']] if 'end' in inst else [])))
        loads(ctx, ds, rows, inside, "naive bounds are local time of the data set")
        w = ds.store.window
        for k in ('start', 'end'):
            got = getattr(w, k)
            ctx.expect(got is None if k not in inst else bool(got == inst[k]), "window of the store")
        ds.set_window()
        loads(ctx, ds, rows, lambda t: True, "no window")


def h_window_text(ctx, n, form):
    from symrun.harness import BASE
    import datetime
    with registry(), fakestore.store(ctx) as st:
        ds, rows = dataset(ctx, st, LONDON, n)
        a = BASE.tz_convert(LONDON) + pd.Timedelta(hours=ctx.choose('a', [3, 9]))
        b = a + pd.Timedelta(hours=8)
        text = [str(x.tz_localize(None)) for x in (a, b)]
        a, b = [pd.Timestamp(x).tz_localize(LONDON) for x in text]
        mk = {'str': str, 'ts': pd.Timestamp, 'dt': lambda x: datetime.datetime.fromisoformat(x)}[form]
        ds.set_window(start=mk(text[0]), end=mk(text[1]))
        loads(ctx, ds, rows, lambda t: bool(conj(t >= a, t < b)), "local time of the data set")
        ds.set_window(end=mk(text[0]))
        loads(ctx, ds, rows, lambda t: bool(t < a), "only the latest window counts")


def h_open(ctx, name, given):
    """What was saved is there when the file is opened."""
    from nilmtk.dataset import DataSet
    from nilmtk.datastore import CSVDataStore, HDFDataStore
    hdf = name.endswith('h5')
    with registry(), fakestore.directory() as d:
        path = os.path.join(d, name)
        st = HDFDataStore(path, 'w') if hdf else CSVDataStore(path)
        dataset_, rows = dataset(ctx, st, 'UTC', 2)
        st.close()
        if hdf and ctx.symbolic:
            open(path, 'w').close()
        ds = DataSet(path, *given)
        try:
            ctx.expect(isinstance(ds.store, HDFDataStore if hdf else CSVDataStore), "format of the store")
            ctx.expect(ds.metadata['name'] == 'DS' and ds.metadata['timezone'] == 'UTC', "metadata of the data set")
            ctx.expect(list(ds.buildings) == [1, 2] and [len(e.meters) for e in ds.elecs()] == [1, 1], "every building, every meter")
            ctx.expect(all(m.building() == b and m.dataset() == 'DS' for b in (1, 2) for m in ds.buildings[b].elec.meters), "buildings of the meters")
            loads(ctx, ds, rows, lambda t: True, "readings of the file")
        finally:
            ds.store.close()


def h_window_refuse(ctx):
    from nilmtk.dataset import DataSet
    with registry(), fakestore.store(ctx) as st:
        ds, rows = dataset(ctx, st, None, 1)
        ctx.raises(RuntimeError, lambda: ds.set_window(start='2014-01-01'), "the data set has no time zone: refused")
        ctx.raises(RuntimeError, lambda: DataSet().set_window(start='2014-01-01'), "no store: refused")
        loads(ctx, ds, rows, lambda t: True, "nothing changed")


def h_cache(ctx):
    """clear_cache reaches every meter of every building."""
    from nilmtk.dataset import DataSet
    from nilmtk.building import Building
    with registry():
        ds = DataSet()
        cleared = []
        for b in (2, 1):
            ms = [plain(i, b) for i in range(1, 1 + ctx.choose('n%d' % b, [0, 1, 3]))]
            for m in ms:
                m.clear_cache = lambda m=m: cleared.append(m)
            ds.buildings[b] = Building()
            ds.buildings[b].elec = MG(ms[:1] + ([MG(ms[1:])] if len(ms) > 1 else []))
        ds.clear_cache()
        allm = [m for e in ds.elecs() for m in e.meters]
        flat = [x for m in allm for x in (m.meters if hasattr(m, 'meters') else [m])]
        exactly(ctx, cleared, flat, "each meter once")


# ------------------------------------------------------------------- scripts
def h_script(ctx, plan):
    """plan: per building, activations per meter."""
    from nilmtk.dataset import DataSet
    from nilmtk.building import Building
    with registry(types={'kettle': {}, 'electric oven': {}, 'washing machine': {}}):
        ds = DataSet()
        want = {}
        for b, counts in enumerate(plan, 1):
            ms = [plain(9, b, site_meter=True)]
            for i, c in enumerate(counts):
                m = plain(i + 1, b)
                t = ['kettle', 'electric oven', 'washing machine'][i % 3]
                m.appliances.append(appliance(t, i + 2))
                # the middle rows of an activation do not count
                size = [2 + (i + j) % 2 for j in range(c)]
                at = [sum(size[:j]) for j in range(c + 1)]
                ts = times(ctx, at[-1], 'a%d_%d_' % (b, i))
                acts = [pd.Series(1.0, index=ctx.index(ts[x:y])) for x, y in zip(at, at[1:])]
                ts = [t for x, y in zip(at, at[1:]) for t in (ts[x], ts[y - 1])]
                m.get_activations = lambda acts=acts, **kw: list(acts)
                want['/building%d/%s__%d' % (b, t.replace(' ', '_'), i + 2)] = ts
                ms.append(m)
            ds.buildings[b] = Building()
            ds.buildings[b].metadata = {'instance': b, 'dataset': 'D'}
            ds.buildings[b].elec = MG(ms)
        d = tempfile.mkdtemp(prefix='symrun-')
        kept = {}
        try:
            fn = os.path.join(d, 'script.h5')
            with quiet():
                if ctx.symbolic:
                    Script.kept = kept
                ds.get_activity_script(fn)
            if not ctx.symbolic:
                with pd.HDFStore(fn, mode='r') as hs:
                    kept = {k: hs[k] for k in hs.keys()}
        finally:
            shutil.rmtree(d, ignore_errors=True)
        ctx.expect(sorted(kept) == sorted(want), "one table per submeter, named by building and appliance")
        for k, ts in want.items():
            s = kept[k]
            ctx.expect(len(s) == len(ts), "a start and an end for each activation")
            for j, (t, x) in enumerate(zip(s.index, s.values)):
                ctx.eq(t, ts[j], "in order of time")
                ctx.expect(bool(x) == (j % 2 == 0), "True at starts, False at ends")


class Script(fakestore.FakeHDFStore):
    kept = None

    def __setitem__(self, key, value):
        Script.kept['/' + key.strip('/')] = value.copy()

    def put(self, key, value, **k):
        self[key] = value


# --------------------------------------------------------- per-meter numbers
def h_upstream(ctx, n, deep):
    with registry():
        mains = stat_meter(100, site=True)
        em = {'active': ctx.real('em', 1, 1000)}
        mains.energy = em
        ms, es = [], []
        for i in range(n):
            m = stat_meter(i + 1, of=1 if i and deep else 100)
            m.energy = {'active': ctx.real('e%d' % i, 1, 1000)}
            es.append(m.energy['active'])
            ms.append(m)
        with quiet():
            s = MG(ms).proportion_of_upstream_total_per_meter()
        ctx.expect(len(s) == n, "one entry per meter")
        for i, m in enumerate(ms):
            k = [j for j, x in enumerate(s.index) if tuple(x) == tuple(m.identifier)]
            ctx.expect(len(k) == 1, "the meter's identifier")
            up = es[0] if i and deep else em['active']
            ctx.eq(s.iloc[k[0]], es[i] / up, "energy of the meter over the energy of its upstream meter")
        for a, b in zip(list(s), list(s)[1:]):
            ctx.expect(a >= b, "largest first")
        sects = [kw.get('sections') for m in ms for what, kw in m.log if what == 'total_energy']
        ctx.expect(sects and all(x in ('good100', 'good1') for x in sects), "over the good sections of the upstream meter")


def h_sum_correlation(ctx, n, deep):
    with registry():
        mains = stat_meter(100, site=True)
        asked = []
        r = ctx.real('r', -1, 1)

        def corr(other, **kw):
            asked.append((other, kw))
            return r
        mains.correlation = corr
        top = [stat_meter(i + 1, of=100) for i in range(n)]
        below = [stat_meter(50 + i, of=1) for i in range(deep)]
        with quiet():
            got = MG([mains] + below + top).correlation_of_sum_of_submeters_with_mains(sections='S')
        ctx.eq(got, r, "the correlation with mains")
        ctx.expect(len(asked) == 1 and asked[0][1] == {'sections': 'S'}, "asked once")
        exactly(ctx, asked[0][0].meters, top, "of the meters directly below mains")


def h_describe(ctx, n, site, expensive, disabled):
    from nilmtk.timeframe import TimeFrame
    from nilmtk.timeframegroup import TimeFrameGroup
    from nilmtk.building import Building
    from nilmtk.dataset import DataSet
    with registry():
        mains = [stat_meter(100 + i, site=True) for i in range(site)]
        subs = [stat_meter(i + 1, of=100) for i in range(n)]
        off = [stat_meter(70 + i, site=bool(i)) for i in range(disabled)]
        tfs, drops = [], []
        for i, m in enumerate(mains + subs):
            a, b = times(ctx, 2, 'f%d_' % i)
            tfs.append((a, b))
            m.get_timeframe = lambda a=a, b=b: TimeFrame(a, b)
            m.energy = {'active': ctx.real('e%d' % i, 1, 1000)}
        g0, g1 = times(ctx, 2, 'g')
        mains[0].good = TimeFrameGroup([TimeFrame(g0, g1)])
        avg = ctx.real('avg', 0, 50)
        mains[0].average_energy_per_period = lambda **kw: avg
        cor = ctx.real('cor', -1, 1)
        mains[0].correlation = lambda o, **kw: cor
        for m in mains + subs + off:
            drops.append(0.25)
            m.dropout_rate = lambda **kw: 0.25
        g = MG(mains + subs, off)
        with quiet():
            if expensive is None:
                s = g.describe(False)
            else:
                b = Building()
                b.metadata = {'instance': 3, 'dataset': 'D', 'n_occupants': 4}
                b.elec = g
                ds = DataSet()
                ds.buildings[3] = b
                df = ds.describe(compute_expensive_stats=expensive)
                ctx.expect(list(df.columns) == [3], "one column per building")
                s = b.describe(compute_expensive_stats=expensive)
                ctx.expect(set(df.index) == set(s.index), "one row per feature")
                ctx.expect(s['instance'] == 3 and s['n_occupants'] == 4 and pd.isnull(s['heating']), "metadata of the building")
        ctx.expect(s['total_n_meters'] == len(mains + subs + off), "all meters, disabled ones included")
        ctx.expect(s['total_n_site_meters'] == site + sum(1 for i in range(disabled) if i), "all site meters")
        ctx.expect(s['mains_sample_period'] == 60 and s['submeter_sample_period'] == 60, "sample periods")
        lo, hi = min_(a for a, _ in tfs), max_(b for _, b in tfs)
        ctx.eq(s['proportion_uptime'], (g1 - g0).total_seconds() / (hi - lo).total_seconds(), "uptime of mains over the duration of the data")
        ctx.eq(s['average_mains_energy_per_day'], avg, "energy of mains per day")
        if not ctx.symbolic:
            ctx.expect(s['total_duration'] == str(hi - lo) and s['mains_uptime'] == str(g1 - g0), "durations")
            ctx.expect(s['timeframe'] == 'start={}, end={}'.format(lo, hi), "time frame of all meters")
        if expensive:
            ctx.eq(s['correlation_of_sum_of_submeters_with_mains'], cor, "correlation")
            tot = 0
            for m in subs:
                tot = tot + m.energy['active'] / mains[0].energy['active']
            ctx.eq(s['proportion_of_energy_submetered'], tot, "share of the energy which is submetered")
            ctx.expect(s['dropout_rates_ignoring_gaps'] == 'min=0.25, mean=0.25, max=0.25', "dropout rates")
        else:
            ctx.expect('proportion_of_energy_submetered' not in s.index and 'dropout_rates_ignoring_gaps' not in s.index, "only the cheap statistics")


def min_(v):
    m = None
    for x in v:
        m = x if m is None or x < m else m
    return m


def max_(v):
    m = None
    for x in v:
        m = x if m is None or x > m else m
    return m


def h_good(ctx, n):
    with registry():
        ms = [stat_meter(i + 1) for i in range(n)]
        got = MG(ms).good_sections(sections='S')
        ctx.expect(got == ('good1' if n else []), "good sections of the first meter, none without meters")
        ctx.expect([m.log for m in ms] == [[('good', {'sections': 'S'})]] * min(n, 1) + [[]] * (n - 1 if n else 0), "for the same request")


def h_sort(ctx, n):
    with registry():
        inst = [ctx.id('i%d' % k, 1, 9) for k in range(n)]
        ctx.assume(conj(*[inst[i] != inst[j] for i in range(n) for j in range(i)]) if n > 1 else True)
        ms = [plain(x) for x in inst]
        g = MG(ms)
        g.sort_meters()
        exactly(ctx, g.meters, ms, "the same meters")
        for a, b in zip(g.meters, g.meters[1:]):
            ctx.expect(a.identifier.instance < b.identifier.instance, "by instance")


# ---------------------------------------------------------------- appliances
KINDS = {'kettle': {'min_on_duration': 30, 'on_power_threshold': 2000, 'room': 'kitchen', 'categories': {'traditional': 'small', 'size': 'hot'}},
         'fridge': {'min_off_duration': 12, 'min_on_duration': 60, 'categories': {'traditional': 'cold'}},
         'unknown': {}}


def fit(ctx, ms, per, shared=False):
    """Appliances of arbitrary type; which one dominates is arbitrary."""
    out = []
    for k, m in enumerate(ms):
        mine = []
        for j in range(per[k]):
            md = {'type': ctx.string('t%d_%d' % (k, j), list(KINDS)), 'instance': ctx.id('a%d_%d' % (k, j), 1, 2)}
            if per[k] > 1 and ctx.bool('dom%d_%d' % (k, j)):
                md['dominant_appliance'] = True
            a = appliance(md.pop('type'), md.pop('instance'), **md)
            for b in [x for y in out for x in y] + mine:
                # the pair is unique within a building
                ctx.assume(not same_app(a, b))
            mine.append(a)
        if shared and k:
            mine = mine + [out[0][-1]]
        m.appliances.extend(mine)
        out.append(mine)
    return out


def dominant(apps):
    for a in apps:
        if a.metadata.get('dominant_appliance'):
            return a
    return apps[0] if apps else None


def same_app(a, b):
    if a is None or b is None:
        return a is b
    return bool(a.metadata['type'] == b.metadata['type']) and bool(a.metadata['instance'] == b.metadata['instance'])


def distinct_apps(apps):
    out = []
    for a in apps:
        if not any(x is a or same_app(x, a) for x in out):
            out.append(a)
    return out


def as_set(ctx, got, want, label):
    """The same appliances (equal ones count once)."""
    w = distinct_apps(want)
    ctx.expect(all(any(g is x or same_app(g, x) for x in w) for g in got), label + ": nothing else")
    ctx.expect(all(any(g is x or same_app(g, x) for g in got) for x in w), label + ": all of them")
    ctx.expect(len(got) == len(w), label + ": once")


def h_dominant(ctx, per, shared=False):
    with registry(types=KINDS):
        ms = [plain(k + 1) for k in range(len(per))]
        apps = fit(ctx, ms, per, shared)
        for m, a in zip(ms, apps):
            ctx.expect(m.dominant_appliance() is dominant(a), "the appliance marked as dominant, else the first")
        doms = [dominant(a) for a in apps]
        as_set(ctx, MG(ms).dominant_appliances(), doms, "dominant appliances")
        as_set(ctx, MG(ms).appliances, [a for x in apps for a in x], "appliances")
        n = len(distinct_apps(doms))
        got, err = attempt(lambda: MG(ms).dominant_appliance(), RuntimeError)
        ctx.expect((err is None) == (n <= 1), "a group with several dominant appliances refuses")
        if n == 1:
            ctx.expect(err is None and same_app(got, doms[0]), "the dominant appliance")
        vals = set()
        for d in doms:
            if d is not None:
                r = KINDS[str(d.metadata['type'])].get('room')
                vals |= {r} if r else set()
        ctx.expect(sorted(MG(ms).values_for_appliance_metadata_key('room')) == sorted(vals), "values of the dominant appliances")
        every = {KINDS[str(a.metadata['type'])]['room'] for x in apps for a in x if 'room' in KINDS[str(a.metadata['type'])]}
        ctx.expect(sorted(MG(ms).values_for_appliance_metadata_key('room', only_consider_dominant_appliance=False)) == sorted(every), "values of all appliances")


def h_label(ctx, n_apps, named):
    """Name, else site meter, else the dominant appliance."""
    with registry(types=KINDS):
        m = plain(1)
        site = ctx.bool('site')
        if site:
            m.metadata['site_meter'] = True
        if named:
            m.metadata['name'] = 'heat pump'
        apps = fit(ctx, [m], [n_apps])[0]
        got = m.label()
        d = dominant(apps)
        want = 'Heat pump' if named else 'Site meter' if site else str(d.metadata['type']).capitalize() if d is not None else None
        if want:
            ctx.expect(str(got) == want, "pretty label")
            g = MG([m])
            ctx.expect([str(x) for x in g.get_labels([m.identifier])] == [want], "labels by identifier")
            ctx.expect([str(x) for x in g.get_labels([tuple(m.identifier)])] == [want], "labels by tuple")
        parts = []
        for a in apps:
            t, i = str(a.metadata['type']), int(a.metadata['instance'])
            s = str((t, i)) + (', original name = None' if t == 'unknown' else '')
            ctx.expect(str(a.label()) == s, "label of the appliance")
            ctx.expect(str(a.label(pretty=True)) == t.capitalize() + (' 2' if i == 2 else '') + (', original name = None' if t == 'unknown' else ''), "pretty label of the appliance")
            parts.append(s.upper() if a.metadata.get('dominant_appliance') else s)
        want = 'SITE METER' if site else 'heat pump' if named else ', '.join(parts)
        ctx.expect(str(m.label(pretty=False)) == want, "full label: site meter, name, or all appliances, the dominant one in capitals")
        if m.metadata.get('name'):
            ctx.expect(m.name == 'heat pump', "name")
        m.name = 'other'
        ctx.expect(m.metadata['name'] == 'other' and m.label() == 'Other', "renamed")


def h_group_label(ctx, per, named):
    """The name of a group, else the labels of its meters, each once."""
    with registry(types=KINDS):
        ms = [plain(i + 1) for i in range(len(per))]
        apps = fit(ctx, ms, per)
        for i, m in enumerate(ms):
            if ctx.bool('name%d' % i):
                m.metadata['name'] = ctx.string('n%d' % i, ['heat pump', 'boiler'])
        g = MG(ms)
        if named:
            g.name = 'ground floor'
        for pretty in (True, False):
            if pretty and any(dominant(a) is None and 'name' not in m.metadata for a, m in zip(apps, ms)):
                continue
            got = g.label(pretty=pretty)
            if named:
                ctx.expect(got == ('Ground floor' if pretty else 'ground floor'), "the name of the group")
                continue
            want = {str(m.label(pretty=pretty)) for m in ms}
            rest = str(got)
            ctx.expect(len(rest) == sum(len(w) for w in want) + 2 * (len(want) - 1), "each label once")
            ctx.expect(all(w in rest for w in want), "the labels of all meters")


def h_thresholds(ctx, n, given):
    """The lowest threshold, the longest durations of the appliances."""
    with registry(types=KINDS):
        m = plain(1)
        thr, on, off = [], [], []
        for j in range(n):
            t = ctx.string('t%d' % j, list(KINDS))
            md = {}
            k = KINDS[str(t)]
            x = k.get('on_power_threshold', 10)
            if given[j] == 'threshold':
                x = md['on_power_threshold'] = ctx.real('x%d' % j, 0, 100)
            elif given[j] == 'nominal':
                x = ctx.real('x%d' % j, 0, 100)
                md['nominal_consumption'] = {'on_power': x}
            a = appliance(t, j + 1, **md)
            ctx.eq(a.on_power_threshold(), x, "threshold of the appliance: its own, its nominal power, its type, 10 W")
            m.appliances.append(a)
            thr.append(x)
            on.append(k.get('min_on_duration'))
            off.append(k.get('min_off_duration'))
        got = m.on_power_threshold()
        ctx.eq(got, min_(thr) if thr else 10, "the lowest threshold")
        ctx.expect(m.min_on_duration() == max([x for x in on if x is not None] or [0]), "the longest minimum on-duration")
        ctx.expect(m.min_off_duration() == max([x for x in off if x is not None] or [0]), "the longest minimum off-duration")


# ------------------------------------------------------------------- helpers
def h_time_helpers(ctx, tz):
    from nilmtk.utils import tz_localize_naive, timestamp_is_naive, convert_to_timestamp
    t, u = ctx.time('t', tz=None), ctx.time('u')
    ctx.expect(timestamp_is_naive(t) and not timestamp_is_naive(u), "naive or not")
    got = tz_localize_naive(t, tz)
    ctx.expect(bool(got == (t.tz_localize('UTC'))) and str(got.tz) == tz, "naive instants are UTC, in the zone asked for")
    got = tz_localize_naive(u, tz)
    ctx.expect(bool(got == u) and str(got.tz) == tz, "aware instants stay the same, in the zone asked for")
    ctx.expect(tz_localize_naive(t, None) is t, "no zone: as it is")
    ctx.expect(tz_localize_naive(None, tz) is pd.NaT and tz_localize_naive(pd.NaT, tz) is pd.NaT, "no instant")
    ctx.expect(convert_to_timestamp(None) is None and bool(convert_to_timestamp(u) == u), "None stays None")


def h_common(ctx, n):
    from nilmtk.utils import most_common
    v = [ctx.string('v%d' % i, ['x', 'y', 'z']) for i in range(n)]
    got = str(most_common([str(x) for x in v] if not ctx.symbolic else v))
    c = {k: sum(1 for x in v if bool(x == k)) for k in 'xyz'}
    ctx.expect(c[got] == max(c.values()), "no entry is more frequent")


def h_root(ctx, n):
    import networkx as nx
    from nilmtk.utils import tree_root, nodes_adjacent_to_root
    g = nx.DiGraph()
    g.add_nodes_from(range(n))
    edges = [(i, j) for i in range(n) for j in range(n) if i != j and ctx.bool('e%d%d' % (i, j))]
    g.add_edges_from(edges)
    roots = [i for i in range(n) if not any(e[1] == i for e in edges)]
    got, err = attempt(lambda: tree_root(g), RuntimeError)
    if len(roots) == 1:
        ctx.expect(err is None and got == roots[0], "the node nothing is upstream of")
        ctx.expect(sorted(nodes_adjacent_to_root(g)) == sorted(j for i, j in edges if i == roots[0]), "the nodes below it")
    else:
        ctx.expect(err is not None, "no root or several: refused")


def h_lists(ctx):
    from nilmtk.utils import flatten_2d_list, append_or_extend_list, convert_to_list, simplest_type_for, container_to_string, offset_alias_to_seconds
    x, y, z = [ctx.real(c) for c in 'xyz']
    n = ctx.choose('n', [0, 1, 2, 3])
    items = [x, y, z][:n]
    got = flatten_2d_list([items, 'word', z, (y,)])
    ctx.expect(len(got) == n + 3 and got[n] == 'word', "strings stay whole")
    ctx.all_eq(got[:n] + got[n + 1:], items + [z, y], "the entries of the entries, in order")
    lst = [x]
    append_or_extend_list(lst, items)
    append_or_extend_list(lst, None)
    append_or_extend_list(lst, 'word')
    ctx.expect(len(lst) == n + 2 and lst[-1] == 'word', "lists extend, None is skipped, others are appended")
    ctx.all_eq(lst[:-1], [x] + items, "in order")
    ctx.expect(convert_to_list(None) == [] and len(convert_to_list(tuple(items))) == n, "None is an empty list")
    s = simplest_type_for(items)
    ctx.expect((s is None) if n == 0 else ctx.same(s, x) if n == 1 else (isinstance(s, tuple) and len(s) == n), "nothing, the entry itself, or a tuple")
    ctx.expect(container_to_string(['power', 'active']) == 'power_active' and container_to_string('power') == 'power' and container_to_string(5) == '5', "joined names")
    ctx.expect([offset_alias_to_seconds(a) for a in ('D', '30s', '2min')] == [86400, 30, 120], "seconds of a period")


SCRIPT = {'pd': {'HDFStore': Script}, 'subst': [(pd.HDFStore, Script)]}


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_window, extra=fakestore.EXTRA, n=n, tz=tz, given=g) for n, tz, g in
          ((2, 'Etc/GMT-2', ('start', 'end')), (2, 'Etc/GMT+3', ('start',)), (1, 'Etc/GMT-2', ('end',)), (1, 'UTC', ('start', 'end')), (2, 'UTC', ()))]
    cs += [Case(h_window_text, extra=fakestore.EXTRA, n=n, form=f) for n, f in ((2, 'str'), (2, 'ts'), (2, 'dt'))]
    cs += [Case(h_open, extra=fakecsv.extra, name=n, given=g) for n, g in (('a.h5', ()), ('a.h5', (None,)), ('a.h5', ('HDF',)), ('a.csv', (None,)), ('a', ('CSV',)))]
    cs += [Case(h_window_refuse, extra=fakestore.EXTRA), Case(h_cache)]
    cs += [Case(h_script, extra=SCRIPT, plan=p) for p in ([[1]], [[2, 0]], [[1, 1], [1]], [[3]])]
    cs += [Case(h_upstream, n=n, deep=d) for n, d in ((1, False), (2, False), (2, True), (3, True))]
    cs += [Case(h_sum_correlation, n=n, deep=d) for n, d in ((1, 0), (2, 1), (3, 2))]
    cs += [Case(h_describe, n=n, site=s, expensive=e, disabled=d) for n, s, e, d in ((1, 1, None, 0), (2, 1, False, 1), (1, 1, True, 2), (2, 1, True, 0))]
    cs += [Case(h_good, n=n) for n in (0, 1, 2)] + [Case(h_sort, n=n) for n in (1, 2, 3)]
    cs += [Case(h_dominant, per=p) for p in ([1], [2], [1, 1], [0, 1], [2, 1])] + [Case(h_dominant, per=p, shared=True) for p in ([1, 0], [1, 1], [2, 0])]
    cs += [Case(h_label, n_apps=n, named=m) for n in (0, 1, 2) for m in (False, True)]
    cs += [Case(h_group_label, per=p, named=m) for p, m in (([1, 1], False), ([1, 0, 1], False), ([1, 1], True))]
    cs += [Case(h_thresholds, n=n, given=g) for n, g in ((0, ()), (1, ('threshold',)), (2, ('nominal', None)), (2, ('threshold', 'nominal')), (2, (None, None)), (3, ('nominal', None, 'threshold')))]
    cs += [Case(h_time_helpers, tz=z) for z in ('UTC', LONDON, 'Etc/GMT-5')] + [Case(h_common, n=n) for n in (1, 2, 3, 4)] + [Case(h_root, n=n) for n in (2, 3)] + [Case(h_lists)]
    if t:
        cs += [Case(h_window, extra=fakestore.EXTRA, n=3, tz='Etc/GMT-2', given=('start', 'end')), Case(h_window_text, extra=fakestore.EXTRA, n=3, form='str'),
               Case(h_script, extra=SCRIPT, plan=[[2, 1], [1, 2]]), Case(h_upstream, n=4, deep=True), Case(h_dominant, per=[3]), Case(h_dominant, per=[2, 0, 1]), Case(h_sort, n=4),
               Case(h_describe, n=3, site=1, expensive=True, disabled=2), Case(h_common, n=5)]
    return cs
