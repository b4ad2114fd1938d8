"""C20 preprocessing and resampling while loading."""
from .groups import *
from . import resampling

EXPLANATION = ("ElecMeter.load with sample_period / resample / resample_kwargs / preprocessing, safe_resample, the nodes Apply and Clip, "
               "normalise_timestamp and Node.check_requirements run symbolically over rows at arbitrary instants with arbitrary "
               "readings (some missing), limits and maximum sample periods; the frames delivered are compared with bins, fills and "
               "limits computed directly from the rows.")
BOUNDS = {"rows": "up to 4 (5 thorough) in up to 5 bins", "chunks": "1..2", "columns": "1..2", "periods": "7, 30, 60 s"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["DataFrame.resample is replaced by bins counted from midnight in symbolic runs; replays use pandas"]
EXTRA = {'attrs': resampling.ATTRS}
APP = ('power', 'apparent')
VOLT = ('voltage', '')
NAN = float('nan')


class Store(object):
    def __init__(self, chunks):
        self.chunks = chunks
        self.asked = []

    def load(self, **kw):
        self.asked.append(kw)
        return iter([keep(c) for c in self.chunks])


def keep(c):
    d = c.copy()
    set_attr(d, 'timeframe', getattr(c, 'timeframe', 'some time frame'))
    if hasattr(c, 'look_ahead'):
        set_attr(d, 'look_ahead', c.look_ahead)
    return d


def device(period=10, max_period=20, cols=(COL,), limits=None):
    ms = []
    for c in cols:
        m = {'physical_quantity': c[0]}
        if c[1]:
            m['type'] = c[1]
        m.update((limits or {}).get(c, {}))
        ms.append(m)
    return {'dev': {'sample_period': period, 'max_sample_period': max_period, 'measurements': ms}}


def make(store):
    from nilmtk.elecmeter import ElecMeter, ElecMeterID
    return ElecMeter(store, {'device_model': 'dev', 'data_location': 'loc'}, ElecMeterID(1, 1, 'D'))


def readings(ctx, n, nan, p='p', lo=0, hi=3000):
    return [NAN if i in nan and ctx.bool('nan%s%d' % (p, i)) else ctx.real('%s%d' % (p, i), lo, hi) for i in range(n)]


def instants(ctx, n, hi, same=()):
    """Increasing instants; row i may repeat the instant of row i-1 if i in same."""
    ts = [ctx.time('t0', 0, hi)]
    for i in range(1, n):
        if i in same:
            ts.append(ts[-1])
        else:
            t = ctx.time('t%d' % i, 0, hi)
            ctx.assume(ts[-1] < t)
            ts.append(t)
    return ts


def agg(vals, how):
    vals = [v for v in vals if not (isinstance(v, float) and v != v)]
    if how == 'sum':
        return sum(vals) if vals else 0
    if not vals:
        return NAN
    if how == 'mean':
        tot = vals[0]
        for v in vals[1:]:
            tot = tot + v
        return tot / len(vals)
    if how == 'first':
        return vals[0]
    m = vals[0]
    for v in vals[1:]:
        if (v > m) if how == 'max' else (v < m):
            m = v
    return m


def expected(ctx, ts, vs, period, how, fill, limit):
    """[(bin, value)] of one column."""
    rows = [(resampling.bin_of(ctx, t, period), v) for t, v in zip(ts, vs)]
    ks = list(range(rows[0][0], rows[-1][0] + 1))
    out = [agg([v for b, v in rows if b == k], how) for k in ks]
    if fill:
        seq = list(range(len(out)))
        if fill == 'bfill':
            seq.reverse()
        last, dist = None, 0
        for i in seq:
            if ctx.isnan(out[i]):
                dist += 1
                if last is not None and (limit is None or dist <= limit):
                    out[i] = last
            else:
                last, dist = out[i], 0
    return list(zip(ks, out))


def compare(ctx, got, ts, cols, period, how, fill, limit):
    ctx.expect([tuple(c) for c in got.columns] == list(cols), "columns unchanged")
    for c in cols:
        want = expected(ctx, ts, cols[c], period, how, fill, limit)
        ctx.expect(len(got) == len(want), "one row per period from the first to the last row")
        ctx.all_eq(got.index, [resampling.label(ctx, k, period) for k, _ in want], "the regular grid counted from midnight")
        ctx.all_eq(got[c].values, [v for _, v in want], "aggregated reading of a period")


def h_resample(ctx, n, period, bins, how, fill, limit, nan, same=(), two=False, by=('sample_period', 'resample')):
    """What a meter delivers when resampling is asked for."""
    ts = instants(ctx, n, period * bins - 1, same)
    cols = {COL: readings(ctx, n, nan)}
    if two:
        cols[APP] = readings(ctx, n, (0,), 'q')
    df = frame(ctx, ts, cols)
    set_attr(df, 'timeframe', 'the time frame')
    set_attr(df, 'look_ahead', 'the look-ahead')
    maxp = ctx.int('max', 1, 3 * period) if limit == 'auto' else 20
    with registry(device(period if 'sample_period' not in by else 10, maxp, cols)):
        kw = {}
        if 'sample_period' in by:
            kw['sample_period'] = period
        if 'resample' in by:
            kw['resample'] = True
        rk = {}
        if how != 'mean':
            rk['how'] = how
        if fill != 'ffill':
            rk['fill_method'] = fill
        if limit != 'auto':
            rk['limit'] = limit
        if rk:
            kw['resample_kwargs'] = rk
        st = Store([df])
        got = list(make(st).load(**kw))
    ctx.expect(len(got) == 1, "one frame per chunk")
    ctx.expect(set(st.asked[0]) == {'key', 'columns'} and st.asked[0]['key'] == 'loc', "the store is asked for the rows themselves")
    g = got[0]
    ctx.expect(g.timeframe == 'the time frame' and g.look_ahead == 'the look-ahead', "time frame and look-ahead kept")
    if limit == 'auto':
        limit = 1
        while limit * period < maxp:
            limit += 1
    first = [i for i in range(n) if i not in same]
    compare(ctx, g, [ts[i] for i in first], {c: [cols[c][i] for i in first] for c in cols}, period, how, fill, limit)


def h_chunks(ctx, sizes, period):
    """Every chunk is resampled on its own, empty ones pass."""
    n = sum(sizes)
    ts = instants(ctx, n, period * 3 - 1) if n else []
    vs = readings(ctx, n, (1,))
    chunks, i = [], 0
    for s in sizes:
        ch = frame(ctx, ts[i:i + s], {COL: vs[i:i + s]})
        set_attr(ch, 'timeframe', 'tf%d' % i)
        chunks.append(ch)
        i += s
    with registry(device(10, 20)):
        got = list(make(Store(chunks)).load(sample_period=period, resample=True))
    ctx.expect(len(got) == len(sizes), "one frame per chunk")
    i = 0
    for g, s in zip(got, sizes):
        if s == 0:
            ctx.expect(len(g) == 0, "empty chunk stays empty")
        else:
            compare(ctx, g, ts[i:i + s], {COL: vs[i:i + s]}, period, 'mean', 'ffill', 1)
        ctx.expect(g.timeframe == 'tf%d' % i, "time frame kept")
        i += s


def h_plain(ctx, kw):
    """Without resampling the rows come unchanged."""
    ts = instants(ctx, 3, 100)
    vs = readings(ctx, 3, (1,))
    with registry(device()):
        got = list(make(Store([frame(ctx, ts, {COL: vs})])).load(**kw))
    ctx.all_eq(got[0].index, ts, "rows unchanged")
    ctx.all_eq(got[0][COL].values, vs, "readings unchanged")


def h_default_period(ctx, kw):
    """resample=True without a period uses the meter's own."""
    ts = instants(ctx, 3, 100)
    vs = readings(ctx, 3, (1,))
    with registry(device(30, 60)):
        got = list(make(Store([frame(ctx, ts, {COL: vs})])).load(**kw))
    if not kw.get('resample') and kw.get('sample_period') is None:
        ctx.all_eq(got[0].index, ts, "rows unchanged")
        return
    compare(ctx, got[0], ts, {COL: vs}, 30, 'mean', 'ffill', 2)


def h_reuse(ctx, what, period, period2):
    """The caller's arguments may be used again, also for another meter."""
    from nilmtk.preprocessing import Apply
    ts = instants(ctx, 3, 100)
    vs = readings(ctx, 3, ())
    df = frame(ctx, ts, {COL: vs})
    with registry(dict(device(10, 100), dev2=device(10, 10)['dev'])):
        if what == 'preprocessing':
            pre = [Apply(func=lambda d: d * 2)]
            one = list(make(Store([df])).load(preprocessing=pre, sample_period=period, resample=True))
            two = list(make(Store([df])).load(preprocessing=pre))
            ctx.expect(len(pre) == 1, "the caller's list is unchanged")
            compare(ctx, one[0], ts, {COL: [v * 2 for v in vs]}, period, 'mean', 'ffill', -(-100 // period))
            ctx.all_eq(two[0].index, ts, "second load is not resampled")
            ctx.all_eq(two[0][COL].values, [v * 2 for v in vs], "preprocessing applied once")
            return
        rk = {'how': 'max'}
        one = list(make(Store([df])).load(sample_period=period, resample=True, resample_kwargs=rk))
        second = make(Store([df]))
        if what == 'other meter':
            second.metadata['device_model'] = 'dev2'
        two = list(second.load(sample_period=period2, resample=True, resample_kwargs=rk))
        ctx.expect(rk == {'how': 'max'}, "the caller's dict is unchanged")
        compare(ctx, one[0], ts, {COL: vs}, period, 'max', 'ffill', -(-100 // period))
        compare(ctx, two[0], ts, {COL: vs}, period2, 'max', 'ffill', -(-(10 if what == 'other meter' else 100) // period2))


def h_order(ctx, k):
    """Preprocessing nodes run in the order given, resampling last."""
    from nilmtk.preprocessing import Apply
    ts = instants(ctx, 2, 59)
    vs = readings(ctx, 2, ())
    a, b = ctx.real('a', 1, 5), ctx.real('b', 1, 5)
    fs = [lambda d: d + a, lambda d: d * b, lambda d: d.clip(upper=0.0) * 0 + d][:k]
    with registry(device()):
        df = frame(ctx, ts, {COL: vs})
        set_attr(df, 'timeframe', 'tf')
        got = list(make(Store([df])).load(preprocessing=[Apply(func=f) for f in fs[:2]], sample_period=60, resample=True,
                                          resample_kwargs={'how': 'max'}))
    want = [v + a for v in vs]
    if k > 1:
        want = [v * b for v in want]
    compare(ctx, got[0], ts, {COL: want}, 60, 'max', 'ffill', 1)
    ctx.expect(got[0].timeframe == 'tf', "time frame kept by every node")


def h_clip(ctx, cols, own, n):
    """Values stay within the limits of their measurement (or the node's)."""
    from nilmtk.preprocessing import Clip
    cols = list(cols)
    lim = {}
    for k, c in enumerate(cols):
        lo, up = ctx.real('lo%d' % k, 0, 1000), ctx.real('up%d' % k, 0, 1000)
        ctx.assume(lo <= up)
        lim[c] = {'lower_limit': lo, 'upper_limit': up}
    ts = instants(ctx, n, 1000)
    vs = {c: readings(ctx, n, (0,), 'p%d_' % k, -500, 1500) for k, c in enumerate(cols)}
    node = Clip()
    if own in ('both', 'lower'):
        node.lower = ctx.real('nlo', -200, 200)
    if own in ('both', 'upper'):
        node.upper = ctx.real('nup', 200, 900)
    bounds = {}
    for c in cols:
        lo, up = lim[c]['lower_limit'], lim[c]['upper_limit']
        lo, up = lo if node.lower is None else node.lower, up if node.upper is None else node.upper
        ctx.assume(lo <= up)
        bounds[c] = lo, up
    chunks = [frame(ctx, ts[:1], {c: vs[c][:1] for c in cols}), frame(ctx, ts[1:], {c: vs[c][1:] for c in cols})]
    for i, ch in enumerate(chunks):
        set_attr(ch, 'timeframe', 'tf%d' % i)
    with registry(device(cols=cols, limits=lim)):
        got = list(make(Store(chunks)).load(preprocessing=[node]))
    ctx.expect(len(got) == 2, "one frame per chunk")
    ctx.all_eq([t for g in got for t in g.index], ts, "rows unchanged")
    for c in cols:
        lo, up = bounds[c]
        have = [x for g in got for x in g[c].values]
        for x, v in zip(have, vs[c]):
            if ctx.isnan(v):
                ctx.expect(ctx.isnan(x), "missing readings stay missing")
            else:
                ctx.eq(x, ctx.ite(v < lo, lo, ctx.ite(v > up, up, v)), "reading within the limits")
    ctx.expect([g.timeframe for g in got] == ['tf0', 'tf1'], "time frame kept")


def h_clip_none(ctx):
    """No limits known: nothing is changed."""
    from nilmtk.preprocessing import Clip
    ts = instants(ctx, 2, 1000)
    vs = readings(ctx, 2, (0,), 'p', -500, 1500)
    with registry(device()):
        got = list(make(Store([frame(ctx, ts, {COL: vs})])).load(preprocessing=[Clip()]))
    ctx.all_eq(got[0][COL].values, vs, "readings unchanged")


def h_normalise(ctx, period):
    """The period in which an instant falls."""
    from nilmtk.utils import normalise_timestamp
    t = ctx.time('t', 0, period * 3)
    got = normalise_timestamp(t, '%ds' % period)
    ctx.expect(got <= t, "not after the instant")
    ctx.expect((t - got).total_seconds() < period, "less than a period before")
    ctx.eq(got, resampling.label(ctx, resampling.bin_of(ctx, t, period), period), "on the grid counted from midnight")


def h_dst(ctx, tz, first, rows, period):
    """Days whose midnight is ambiguous or missing are resampled, too."""
    from nilmtk.utils import safe_resample
    t0 = pd.Timestamp(first, tz='UTC')
    ix = pd.DatetimeIndex([t0 + pd.Timedelta(seconds=s) for s in rows]).tz_convert(tz)
    vs = [ctx.real('p%d' % i, 0, 3000) for i in range(len(rows))]
    df = pd.DataFrame({'p': ctx.array(vs)}, index=ix)
    got = safe_resample(df, rule='%ds' % period, how='mean', fill_method='ffill', limit=2)
    ctx.expect(str(got.index.tz) == tz, "time zone kept")
    g0 = got.index[0].tz_convert('UTC')
    ctx.expect(all((b - a).total_seconds() == period for a, b in zip(got.index, got.index[1:])), "regular grid")
    ctx.expect(g0 <= ix[0] and ix[0] < g0 + pd.Timedelta(seconds=period), "starts with the period of the first row")
    by = {}
    for t, v in zip(ix, vs):
        by.setdefault(int((t - g0).total_seconds() // period), []).append(v)
    ctx.expect(len(got) == max(by) + 1, "ends with the period of the last row")
    last, dist = None, 0
    for k in range(len(got)):
        if k in by:
            last, dist = agg(by[k], 'mean'), 0
        else:
            dist += 1
        ctx.eq(got['p'].values[k], last if dist <= 2 else NAN, "aggregated reading of a period")


def h_requirements(ctx, depth):
    """A node refuses to run on an upstream which does not satisfy it."""
    from nilmtk.node import Node, UnsatisfiedRequirementsError
    words = ['x', 'y', 'ANY VALUE']
    keys = ['a', 'b', 'c']
    state, req, ok = {}, {}, True
    for k in keys:
        has = ctx.bool('has_' + k)
        want = ctx.bool('want_' + k)
        if depth == 2 and k == 'a':
            st, rq = {}, {}
            if has:
                if ctx.bool('has_sub'):
                    st['s'] = ctx.string('val_sub', words[:2])
                state[k] = st
            if want:
                rq['s'] = ctx.string('req_sub', words)
                req[k] = rq
                if not has or 's' not in st:
                    ok = False
                else:
                    ok = ok and bool(disj(rq['s'] == 'ANY VALUE', rq['s'] == st['s']))
            continue
        if has:
            # what is known may also be that there is none
            state[k] = None if k == 'c' and ctx.bool('none_c') else ctx.string('val_' + k, words[:2])
        if want:
            req[k] = ctx.string('req_' + k, words)
            ok = ok and has and bool(disj(req[k] == 'ANY VALUE', req[k] == state[k] if state[k] is not None else False))
    posts = {'done': {'me': 1}}

    class N(Node):
        requirements = req
        postconditions = posts
    node = N(Upstream([], state))
    if ok:
        node.check_requirements()
    else:
        ctx.raises(UnsatisfiedRequirementsError, node.check_requirements, "unsatisfied requirements are refused")
    out = node.dry_run_metadata()
    ctx.expect(set(out) == set(state) | {'done'} and out['done'] == {'me': 1}, "dry run adds the postconditions")
    ctx.expect(posts == {'done': {'me': 1}}, "postconditions of the class unchanged")
    ctx.expect('done' not in state, "metadata of the upstream unchanged")


def h_node_metadata(ctx, results):
    """A node adds its results to a copy of the upstream's metadata."""
    from nilmtk.node import Node
    a, b, c = ctx.real('a', 0, 100), ctx.real('b', 0, 100), ctx.string('dev', ['x', 'y'])
    md = {'device': {'sample_period': b, 'model': c}, 'statistics': {'old': b}}

    class R(object):
        def to_dict(self):
            return {'statistics': {'new': a}, 'total_energy': {'active': b}}

    class N(Node):
        pass
    first = N(Upstream([], md))
    node = N(first)
    if results:
        node.results = R()
    got = node.get_metadata()
    ctx.expect(set(got) == {'device', 'statistics'} | ({'total_energy'} if results else set()), "what the metadata describes")
    ctx.eq(got['device']['sample_period'], b, "metadata of the upstream")
    ctx.expect(got['device']['model'] == c, "metadata of the upstream")
    ctx.expect(set(got['statistics']) == ({'old', 'new'} if results else {'old'}), "statistics of the upstream and of the node")
    ctx.eq(got['statistics']['old'], b, "statistics of the upstream")
    if results:
        ctx.eq(got['statistics']['new'], a, "statistics of the node")
        ctx.eq(got['total_energy']['active'], b, "statistics of the node")
    ctx.expect(set(md) == {'device', 'statistics'} and set(md['statistics']) == {'old'}, "metadata of the upstream unchanged")


def cases(tier):
    def C(fn, **k):
        return Case(fn, extra=lambda c: EXTRA, **k)
    out = []
    N = 4 if tier == 'quick' else 5
    for period in (60, 7):
        out.append(C(h_resample, n=3, period=period, bins=5, how='mean', fill='ffill', limit='auto', nan=(1,)))
    out.append(C(h_resample, n=N, period=60, bins=3, how='mean', fill='ffill', limit='auto', nan=(0, 2)))
    out.append(C(h_resample, n=3, period=30, bins=3, how='mean', fill='ffill', limit=1, nan=(2,), two=True))
    out.append(C(h_resample, n=4, period=60, bins=3, how='mean', fill='ffill', limit=1, nan=(1,), same=(2,)))
    out.append(C(h_resample, n=3, period=60, bins=5, how='mean', fill='bfill', limit=1, nan=(1,)))
    out.append(C(h_resample, n=3, period=60, bins=4, how='mean', fill=None, limit=1, nan=(1,)))
    for how in ('max', 'min', 'first', 'sum'):
        out.append(C(h_resample, n=3, period=60, bins=4, how=how, fill='ffill', limit=2, nan=(1,)))
    for by in (('sample_period',), ('resample',)):
        out.append(C(h_resample, n=3, period=60, bins=4, how='mean', fill='ffill', limit='auto', nan=(), by=by))
    for sizes in ((2, 1), (0, 2), (2, 0, 1)):
        out.append(C(h_chunks, sizes=sizes, period=60))
    out.append(C(h_plain, kw={}))
    out.append(C(h_plain, kw={'resample': False}))
    out.append(C(h_plain, kw={'sample_period': 60, 'resample': False}))
    for kw in ({'resample': True}, {'sample_period': None, 'resample': True}, {'sample_period': None}):
        out.append(C(h_default_period, kw=kw))
    for what in ('preprocessing', 'period', 'other meter'):
        out.append(C(h_reuse, what=what, period=30, period2=10 if what == 'period' else 30))
    for k in (1, 2):
        out.append(C(h_order, k=k))
    for cols in ((COL,), (COL, VOLT), (VOLT,)):
        for own in (None, 'both', 'lower', 'upper'):
            out.append(C(h_clip, cols=cols, own=own, n=3 if len(cols) == 1 else 2))
    out.append(C(h_clip_none))
    for p in (60, 7, 900):
        out.append(C(h_normalise, period=p))
    out.append(C(h_dst, tz='America/Havana', first='2020-11-01 05:10', rows=(0, 30, 200), period=60))
    out.append(C(h_dst, tz='America/Havana', first='2020-03-08 04:50', rows=(0, 30, 700), period=300))
    out.append(C(h_dst, tz='Europe/London', first='2020-10-25 00:50', rows=(0, 30, 900), period=300))
    for d in (1, 2):
        out.append(C(h_requirements, depth=d))
    for r in (True, False):
        out.append(C(h_node_metadata, results=r))
    return out
