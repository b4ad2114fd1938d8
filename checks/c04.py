"""C04 dropout rate."""
from .stream import *
from . import fakestore

EXPLANATION = ("get_dropout_rate, the DropoutRate node and DropoutRateResults run symbolically on arbitrary increasing "
               "instants and are compared with 1 - observed/expected clipped to [0, 1] and with sample-weighted means.")
BOUNDS = {"samples per chunk": "0..7 (9 thorough)", "chunks": "up to 3", "sample period": "0.5, 1, 6, 60 s (concrete)",
          "span": "up to 100000 s"}
ASSUMPTIONS = BASE_ASSUMPTIONS


def oracle(ctx, ts, period):
    n = len(ts)
    if n < 5:
        return float('nan')
    expected = round((ts[-1] - ts[0]).total_seconds() / period) + 1
    r = 1 - n / expected
    return 0.0 if r < 0 else r


def h_rate(ctx, n, period, kind):
    from nilmtk.stats.dropoutrate import get_dropout_rate
    ts = times(ctx, n, hi=5000)
    df = frame(ctx, ts, {COL: [1.0] * n})
    data = df if kind == 'frame' else df[COL]
    got = get_dropout_rate(data, period)
    if n < 5:
        ctx.expect(ctx.isnan(got), "too few samples must give NaN")
        return
    ctx.expect(conj(got >= 0, got <= 1), "dropout rate outside [0, 1]")
    ctx.eq(got, oracle(ctx, ts, period), "dropout rate")


def h_complete(ctx, n, period):
    """A gap-free regular series has dropout rate 0."""
    from nilmtk.stats.dropoutrate import get_dropout_rate
    t0 = ctx.time('t0')
    ts = [t0]
    for i in range(1, n):
        ts.append(t0 + pd.Timedelta(seconds=i * period))
    got = get_dropout_rate(frame(ctx, ts, {COL: [1.0] * n}), period)
    ctx.eq(got, 0, "complete data with a dropout rate")


def h_long(ctx, n, period):
    """A long regular series whose last instant is arbitrary: small rates."""
    from nilmtk.stats.dropoutrate import get_dropout_rate
    t0 = ctx.time('t0')
    ts = [t0 + pd.Timedelta(seconds=i * period) for i in range(n - 1)]
    ts.append(ctx.time('last', 0, 200000))
    ctx.assume(ts[-1] > ts[-2])
    got = get_dropout_rate(frame(ctx, ts, {COL: [1.0] * n}), period)
    ctx.eq(got, oracle(ctx, ts, period), "dropout rate of a long series")


def h_node(ctx, sizes, period):
    """The node records one rate per chunk and the sample-weighted mean."""
    from nilmtk.stats import DropoutRate
    from nilmtk.timeframe import TimeFrame
    n = sum(sizes)
    ts = times(ctx, n, hi=5000)
    chunks, want, i = [], [], 0
    for s in sizes:
        sub = ts[i:i + s]
        i += s
        df = frame(ctx, sub, {COL: [1.0] * s})
        set_attr(df, 'timeframe', TimeFrame(sub[0], sub[-1]))
        chunks.append(df)
        want.append(oracle(ctx, sub, period))
    nd = DropoutRate(Upstream(chunks, {'device': {'sample_period': period}}))
    nd.run()
    per = nd.results.per_period()
    for k, w in enumerate(want):
        ctx.eq(per['dropout_rate'].iloc[k], w, "rate of one chunk")
        ctx.eq(per['n_samples'].iloc[k], sizes[k], "sample count of one chunk")
    tot = 0
    for w, s in zip(want, sizes):
        tot = tot + w * s
    got = nd.results.combined()
    ctx.eq(got, tot / n, "combined rate is not the sample-weighted mean")
    ctx.expect(conj(got >= 0, got <= 1), "combined rate outside [0, 1]")
    ctx.eq(nd.results.to_dict()['statistics']['dropout_rate'], tot / n, "to_dict")


def h_combined(ctx, k):
    """Weighted mean for arbitrary rates."""
    from nilmtk.stats.dropoutrateresults import DropoutRateResults
    from nilmtk.timeframe import TimeFrame
    ts = times(ctx, 2 * k)
    r = DropoutRateResults()
    ws, ns = [], []
    for i in range(k):
        w = ctx.real('r%d' % i, 0, 1)
        n = ctx.choose('n%d' % i, [5, 7, 100])
        ws.append(w)
        ns.append(n)
        r.append(TimeFrame(ts[2 * i], ts[2 * i + 1]), {'dropout_rate': w, 'n_samples': n})
    tot = 0
    for w, n in zip(ws, ns):
        tot = tot + w * n
    ctx.eq(r.combined(), tot / sum(ns), "combined rate is not the sample-weighted mean")


def h_unify(ctx, k):
    from nilmtk.stats.dropoutrateresults import DropoutRateResults
    from nilmtk.timeframe import TimeFrame
    ts = times(ctx, 2 * k)
    a, b = DropoutRateResults(), DropoutRateResults()
    xs, ys = [], []
    for i in range(k):
        tf = TimeFrame(ts[2 * i], ts[2 * i + 1])
        x, y = ctx.real('x%d' % i, 0, 1), ctx.real('y%d' % i, 0, 1)
        xs.append(x)
        ys.append(y)
        a.append(tf, {'dropout_rate': x, 'n_samples': 10 + i})
        b.append(tf, {'dropout_rate': y, 'n_samples': 20 + i})
    a.unify(b)
    per = a.per_period()
    for i in range(k):
        ctx.eq(per['dropout_rate'].iloc[i], (xs[i] + ys[i]) / 2, "unified rate")
        ctx.eq(per['n_samples'].iloc[i], 30 + 2 * i, "unified sample count")
    ctx.eq(b.per_period()['dropout_rate'].iloc[0], ys[0], "unify changed the other meter")


def h_gaps(ctx, n, k, period):
    """ElecMeter.dropout_rate over the good sections by default, over
    everything with ignore_gaps=False (the only gap follows row k)."""
    from nilmtk.timeframe import TimeFrame
    from .c09 import meters, quiet, A
    with meters(ctx, n, (A,), m=period, power=100.0) as (ts, (em,)), quiet():
        for i in range(n - 1):
            d = (ts[i + 1] - ts[i]).total_seconds()
            ctx.assume(d > period if i == k else d <= period)
        good = [TimeFrame(ts[0], ts[k]), TimeFrame(ts[k + 1], ts[-1])]
        default = em.dropout_rate()
        em.clear_cache()
        explicit = em.dropout_rate(ignore_gaps=True)
        em.clear_cache()
        secs = em.dropout_rate(ignore_gaps=False, sections=good)
        em.clear_cache()
        everything = em.dropout_rate(ignore_gaps=False)
        ctx.eq(default, secs, "dropout rate of the good sections")
        ctx.eq(explicit, secs, "dropout rate of the good sections")
        ctx.eq(everything, oracle(ctx, ts, period), "dropout rate of everything")


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_rate, n=n, period=p, kind=k) for n in ((0, 1, 4, 5, 6, 7) if not t else range(10))
          for p in (1, 6, 60) for k in ('frame', 'series')]
    cs += [Case(h_rate, n=5, period=0.5, kind='frame')]
    cs += [Case(h_complete, n=n, period=p) for n in (5, 8) for p in (1, 6)]
    cs += [Case(h_node, sizes=s, period=6) for s in ((5,), (5, 6)) + (((5, 6, 7),) if t else ())]
    cs += [Case(h_long, n=n, period=p) for n, p in ((150, 6),) + (((400, 1), (300, 60)) if t else ())]
    cs += [Case(h_combined, k=k) for k in (1, 2, 3)] + [Case(h_unify, k=k) for k in (1, 2)]
    cs += [Case(h_gaps, extra=fakestore.EXTRA, n=12, k=5, period=p) for p in ((60,) if not t else (60, 1))]
    if t:
        cs += [Case(h_gaps, extra=fakestore.EXTRA, n=7, k=0, period=60), Case(h_gaps, extra=fakestore.EXTRA, n=14, k=6, period=60)]
    return cs
