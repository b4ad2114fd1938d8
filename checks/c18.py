"""C18 quantities derived from the power series of one meter."""
from .stream import *
from .c13 import meter, values

EXPLANATION = ("load_series, power_series, power_series_all_data, switch_times, vampire_power, uptime, proportion_of_energy, "
               "proportion_of_upstream, average_energy_per_period, correlation and activity_histogram run symbolically on meters "
               "which deliver arbitrary readings (some missing) in one or more chunks, and on arbitrary energies and durations; the "
               "results are compared with the definition applied to the undivided data.")
BOUNDS = {"rows": "up to 5", "chunks": "1..3", "AC types": "1..3"}
ASSUMPTIONS = BASE_ASSUMPTIONS
APP = ('power', 'apparent')


def h_series(ctx, sizes, cols, nan):
    """One series per chunk: sum over the AC types, missing if any is missing."""
    ncol = len(cols)
    n = sum(sizes)
    ts = times(ctx, n, hi=5000)
    vs = [values(ctx, n, nan, 'p%d_' % c) for c in range(ncol)]
    dfs, i = [], 0
    for s in sizes:
        df = frame(ctx, ts[i:i + s], {c: vs[k][i:i + s] for k, c in enumerate(cols)})
        set_attr(df, 'timeframe', 'tf%d' % i)
        set_attr(df, 'look_ahead', 'la%d' % i)
        dfs.append(df)
        i += s
    m = meter(dfs)
    got = list(m.power_series(chunksize=3))
    ctx.expect(m.asked == [{'physical_quantity': 'power', 'ac_type': 'best', 'chunksize': 3}], "asks for the best AC type of power")
    ctx.expect(len(got) == len(sizes), "one series per chunk")
    i = 0
    for g, s in zip(got, sizes):
        if s == 0:
            ctx.expect(len(g) == 0, "empty chunk stays empty")
            continue
        ctx.all_eq(g.index, ts[i:i + s], "rows of the chunk")
        want = []
        for k in range(i, i + s):
            tot = 0
            for v in vs:
                tot = tot + v[k]
            want.append(tot)
        ctx.all_eq(g.values, want, "sum over the AC types")
        ctx.expect(g.name == ('power', '+'.join(c[1] for c in cols if c[0] == 'power')), "name of the series")
        ctx.expect(g.timeframe == 'tf%d' % i and g.look_ahead == 'la%d' % i, "time frame and look-ahead kept")
        i += s


def split(ctx, n, cuts, shared):
    """Row ranges of the chunks: consecutive, sharing the boundary row or not."""
    out, a = [], 0
    for c in list(cuts) + [n]:
        out.append((a, c))
        a = c - 1 if shared else c
    return out


def chunks_of(ctx, ts, vs, ranges, empty=()):
    out = []
    for k, (a, b) in enumerate(ranges):
        if k in empty:
            out.append(frame(ctx, [], {COL: []}))
        out.append(frame(ctx, ts[a:b], {COL: vs[a:b]}))
    return out


def h_all(ctx, n, cuts, shared, empty):
    ts = times(ctx, n, hi=5000)
    vs = values(ctx, n, (1,))
    m = meter(chunks_of(ctx, ts, vs, split(ctx, n, cuts, shared), empty))
    got = m.power_series_all_data()
    ctx.all_eq(got.index, ts, "every row once, in order")
    ctx.all_eq(got.values, vs, "readings unchanged")


def h_all_none(ctx, chunks):
    m = meter([frame(ctx, [], {COL: []}) for _ in range(chunks)])
    ctx.expect(m.power_series_all_data() is None, "no data")


def h_switch(ctx, n, cuts):
    """Rows where the power moved by more than the threshold, whatever the chunks."""
    ts = times(ctx, n, hi=5000)
    vs = values(ctx, n, (1,))
    m = meter(chunks_of(ctx, ts, vs, split(ctx, n, cuts, True)))
    thr = ctx.real('thr', 0, 100)
    got = [pd.Timestamp(x, tz='UTC') if not ctx.symbolic else x for x in m.switch_times(threshold=thr)]
    want = []
    for i in range(1, n):
        if ctx.isnan(vs[i]) or ctx.isnan(vs[i - 1]):
            continue
        if abs(vs[i] - vs[i - 1]) > thr:
            want.append(ts[i])
    ctx.expect(len(got) == len(want), "number of switches")
    for g, w in zip(got, want):
        ctx.eq(g, w, "instant of a switch")


def h_vampire(ctx, n, cuts):
    ts = times(ctx, n, hi=5000)
    vs = values(ctx, n, (0,))
    m = meter(chunks_of(ctx, ts, vs, split(ctx, n, cuts, True)))
    got = m.vampire_power()
    valid = [v for v in vs if not ctx.isnan(v)]
    ctx.expect(disj(*[ctx.same(got, v) for v in valid]), "one of the readings")
    for v in valid:
        ctx.expect(got <= v, "the lowest reading")


class FakeMeter(object):
    pass


def energies(ctx, name, types, log=None):
    """An Electric whose total_energy is arbitrary."""
    from nilmtk.electric import Electric
    vals = {t: ctx.real('%s_%s' % (name, t), 0, 1000) for t in types}

    class M(Electric):
        asked = []

        def total_energy(self, **kw):
            self.asked.append(kw)
            if not types:
                return pd.Series(dtype=float)
            return pd.Series([vals[t] for t in types], index=types, dtype=object if ctx.symbolic else float)

        def good_sections(self, **kw):
            self.good_asked = kw
            return 'good sections of ' + name
    m = M()
    m.asked = []
    return m, vals


def h_proportion(ctx, mine, theirs, given, zero=()):
    a, ea = energies(ctx, 'a', mine)
    b, eb = energies(ctx, 'b', theirs)
    ctx.assume(disj(*[v > 0 for v in eb.values()]))
    for k, v in eb.items():
        ctx.assume(v == 0 if k in zero else v > 0)
    kw = {'sections': 'S'} if given else {}
    got = a.proportion_of_energy(b, **kw)
    want_s = 'S' if given else 'good sections of b'
    ctx.expect(a.asked == [{'sections': want_s}] and b.asked == [{'sections': want_s}], "both energies over the same sections")
    shared = [t for t in mine if t in theirs]
    if not mine:
        want = 0
    elif not shared:
        pref = ['active', 'apparent', 'reactive']
        x = [t for t in pref if t in mine][0]
        y = [t for t in pref if t in theirs][0]
        want = ea[x] / eb[y]
    else:
        want = 0
        for t in shared:
            want = want + ea[t] / eb[t]
        want = want / len(shared)
    ctx.eq(got, want, "energy of the meter over the energy of the other")


def h_proportion_zero(ctx, mine, theirs):
    a, ea = energies(ctx, 'a', mine)
    b, eb = energies(ctx, 'b', theirs)
    for v in eb.values():
        ctx.assume(v == 0)
    ctx.expect(ctx.isnan(a.proportion_of_energy(b)), "no energy in the other: NaN")


def h_upstream(ctx, types):
    a, ea = energies(ctx, 'a', types)
    b, eb = energies(ctx, 'b', types)
    for v in eb.values():
        ctx.assume(v > 0)
    a.upstream_meter = lambda: b
    got = a.proportion_of_upstream()
    s = 'good sections of b'
    ctx.expect(a.asked == [{'sections': s}] and b.asked == [{'sections': s}], "both energies over the upstream's good sections")
    best = [t for t in ['active', 'apparent', 'reactive'] if t in types][0]
    ctx.eq(got, ea[best] / eb[best], "share of the upstream meter, best AC type")


def h_average(ctx, n, uptime, alias):
    """Energy per period: over the good sections or over the whole time frame."""
    from nilmtk.timeframe import TimeFrame
    from nilmtk.timeframegroup import TimeFrameGroup
    m, e = energies(ctx, 'a', ['active', 'reactive'])
    ts = times(ctx, 2 * n)
    good = TimeFrameGroup([TimeFrame(ts[2 * i], ts[2 * i + 1]) for i in range(n)])
    m.good_sections = lambda **kw: good
    a, b = times(ctx, 2, 'f')
    m.get_timeframe = lambda: TimeFrame(a, b)
    secs = 0
    if uptime:
        for i in range(n):
            secs = secs + (ts[2 * i + 1] - ts[2 * i]).total_seconds()
        ctx.eq(m.uptime().total_seconds(), secs, "uptime is the total duration of the good sections")
    else:
        secs = (b - a).total_seconds()
    got = m.average_energy_per_period(offset_alias=alias, use_uptime=uptime)
    if uptime and n == 0:
        ctx.expect(ctx.isnan(got), "no uptime: NaN")
        return
    per = {'D': 86400, 'h': 3600}[alias]
    for t in e:
        ctx.eq(got[t], e[t] * per / secs, "energy per period")
    ctx.raises(RuntimeError, lambda: m.average_energy_per_period(sections=[]), "sections refused")


def h_corr(ctx, n, cuts, nan=False):
    ts = times(ctx, n, hi=5000)
    xs, ys = values(ctx, n, (), 'x'), values(ctx, n, (), 'y')
    r = split(ctx, n, cuts, False)
    a, b = meter(chunks_of(ctx, ts, xs, r)), meter(chunks_of(ctx, ts, ys, r))
    sxy = sxx = syy = 0
    mx, my = sum(xs) / n, sum(ys) / n
    for x, y in zip(xs, ys):
        sxy = sxy + (x - mx) * (y - my)
        sxx = sxx + (x - mx) * (x - mx)
        syy = syy + (y - my) * (y - my)
    ctx.assume(sxx > 1)
    ctx.assume(syy > 1)
    got = a.correlation(b)
    if ctx.symbolic:
        import nilmtk.electric as el
        root = el.np.sqrt
    else:
        root = np.sqrt
    want = sxy / ((n - 1) * root(sxx / (n - 1)) * root(syy / (n - 1)))
    ctx.eq(got, want, "Pearson correlation of the aligned readings")


def h_corr_few(ctx, n, mine):
    ts = times(ctx, 2, hi=5000)
    a, b = meter([frame(ctx, ts[:n], {COL: values(ctx, n, (), 'x')})] if n else []), meter([frame(ctx, ts, {COL: values(ctx, 2, (), 'y')})])
    ctx.expect(ctx.isnan(a.correlation(b) if mine else b.correlation(a)), "fewer than two readings: NaN")


def h_activity(ctx, start, n, period, width, cuts):
    """How often the appliance was on, per bin of the period."""
    secs = {'D': 86400, 'h': 3600, '12h': 43200, '6h': 21600, '20min': 1200}
    w, per = secs[width], secs[period]
    base = pd.Timestamp('2021-01-04', tz='UTC')
    ix = pd.DatetimeIndex([base + pd.Timedelta((start + i) * w, 's') for i in range(n)])
    vs = values(ctx, n, (1,))
    thr = ctx.real('thr', 1, 100)
    dfs = []
    for a, b in split(ctx, n, cuts, False):
        dfs.append(pd.DataFrame({COL: ctx.array(vs[a:b])}, index=ix[a:b], columns=pd.MultiIndex.from_tuples([COL], names=['physical_quantity', 'type'])))
    m = meter(dfs)
    got = m.activity_histogram(period=period, bin_duration=width, on_power_threshold=thr)
    nb = per // w
    want = [0] * nb
    for i, v in enumerate(vs):
        if not ctx.isnan(v) and v >= thr:
            want[(start + i) % nb] += 1
    ctx.all_eq([int(x) for x in got], want, "number of active bins")
    kw = m.asked[0]
    ctx.expect(kw.get('sample_period') == w and kw.get('resample_kwargs', {}).get('how') == 'max', "resampled to the bin width")


def h_activity_refuse(ctx):
    m = meter([])
    ctx.raises(ValueError, lambda: m.activity_histogram(period='D', bin_duration='7h'), "bin width must divide the period")


def cases(tier):
    t = tier == 'thorough'
    R = ('power', 'reactive')
    cs = [Case(h_series, sizes=s, cols=c, nan=n) for s, c, n in (((2,), (COL,), (0,)), ((2, 1), (COL, APP), (0, 1)), ((1, 0, 1), (COL,), ()),
                                                                ((2,), (COL, APP, R), (1,)))]
    cs += [Case(h_all, n=n, cuts=c, shared=s, empty=e) for n, c, s, e in (
        (3, (), True, ()), (4, (2,), True, ()), (4, (2,), False, ()), (5, (2, 4), True, ()), (5, (2, 3), True, (0, 2)), (5, (1, 3), False, (1,)))]
    cs += [Case(h_all_none, chunks=k) for k in (0, 2)]
    cs += [Case(h_switch, n=n, cuts=c) for n, c in ((1, ()), (3, ()), (4, (2,)), (5, (2, 4)))]
    cs += [Case(h_vampire, n=n, cuts=c) for n, c in ((2, ()), (4, (2,)))]
    types = [['active'], ['apparent', 'active'], ['reactive'], ['reactive', 'active', 'apparent'], ['apparent', 'reactive']]
    cs += [Case(h_proportion, mine=x, theirs=y, given=g) for x in types for y in types for g in ((True, False) if x == y or t else (False,))]
    cs += [Case(h_proportion, mine=[], theirs=['active'], given=False),
           Case(h_proportion, mine=['active'], theirs=['reactive', 'active'], given=False, zero=('reactive',))]
    cs += [Case(h_proportion_zero, mine=['active'], theirs=y) for y in (['active'], ['active', 'reactive'])]
    cs += [Case(h_upstream, types=x) for x in types]
    cs += [Case(h_average, n=n, uptime=u, alias=al) for n in ((0, 1, 2) if not t else (0, 1, 2, 3)) for u in (True, False) for al in ('D', 'h')]
    cs += [Case(h_corr, n=n, cuts=c) for n, c in ((2, ()), (3, ()), (3, (1,)), (4, (1, 3)))]
    cs += [Case(h_corr_few, n=n, mine=mi) for n in (0, 1) for mi in (True, False)]
    cs += [Case(h_activity, start=s, n=n, period=p, width=w, cuts=c) for s, n, p, w, c in (
        (0, 5, 'D', '6h', ()), (2, 5, 'D', '6h', ()), (3, 6, 'D', '12h', ()), (1, 6, 'h', '20min', ()))]
    if t:
        cs += [Case(h_activity, start=2, n=10, period='D', width='6h', cuts=(5,)), Case(h_activity, start=1, n=9, period='h', width='20min', cuts=())]
    cs += [Case(h_activity_refuse)]
    return cs
