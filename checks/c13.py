"""C13 when is an appliance on: activations, on/off series, thresholds."""
from .stream import *

EXPLANATION = ("get_activations (function and method), when_on, on_power_threshold and switch_times run symbolically on power "
               "series with arbitrary readings (some missing) at arbitrary increasing instants, arbitrary thresholds and "
               "durations; the activations are compared with the runs of above-threshold rows computed directly.")
BOUNDS = {"rows": "up to 6 (7 thorough)", "border": "0..2", "chunks": "1..2", "thresholds/durations": "arbitrary reals >= 0"}
ASSUMPTIONS = BASE_ASSUMPTIONS


def oracle(ctx, ts, vs, thr, mon, moff, border):
    """[(first row, row after the last)]"""
    n = len(vs)
    on = [not ctx.isnan(v) and bool(v >= thr) for v in vs]
    runs, i = [], 0
    while i < n:
        if on[i]:
            j = i
            while j < n and on[j]:
                j += 1
            if i > 0 and j < n:         # both ends are inside the data
                runs.append([i, j])
            i = j
        else:
            i += 1
    merged = []
    for r in runs:
        if merged and moff > 0 and (ts[r[0]] - ts[merged[-1][1]]).total_seconds() < moff:
            merged[-1][1] = r[1]
        else:
            merged.append(list(r))
    out = []
    for i, j in merged:
        if (ts[j] - ts[i]).total_seconds() < mon:
            continue
        a, b = max(0, i - 1 - border), min(n, j + border)
        if not any(ctx.isnan(v) for v in vs[a:b]):
            out.append((a, b))
    return out


def series(ctx, ts, vs):
    sym = ctx.symbolic
    return pd.Series(ctx.array(vs), index=ctx.index(ts)) if sym else pd.Series(np.array(vs, dtype=float), index=ctx.index(ts))


def values(ctx, n, nan, p='p'):
    return [float('nan') if i in nan and ctx.bool('nan%s%d' % (p, i)) else ctx.real('%s%d' % (p, i), 0, 3000) for i in range(n)]


def same(ctx, got, want, ts, vs):
    ctx.expect(len(got) == len(want), "number of activations")
    for g, (a, b) in zip(got, want):
        ctx.all_eq(g.index, ts[a:b], "rows of an activation")
        ctx.all_eq(g.values, vs[a:b], "readings of an activation")


def h_activations(ctx, n, nan, border, moff, mon):
    from nilmtk.electric import get_activations
    ts = times(ctx, n, hi=5000)
    vs = values(ctx, n, nan)
    thr = ctx.real('thr', 1, 100)
    off = ctx.seconds('off', 0, 3000) if moff else 0
    on = ctx.seconds('on', 0, 3000) if mon else 0
    got = get_activations(series(ctx, ts, vs), min_off_duration=off, min_on_duration=on, border=border, on_power_threshold=thr)
    same(ctx, got, oracle(ctx, ts, vs, thr, on, off, border), ts, vs)


def h_old_names(ctx, n):
    """activation_series() and activation_series_for_chunk() answer like get_activations()."""
    import warnings
    from nilmtk.electric import activation_series_for_chunk
    ts = times(ctx, n, hi=5000)
    vs = values(ctx, n, ())
    thr = ctx.real('thr', 1, 100)
    on, off = ctx.seconds('on', 0, 3000), ctx.seconds('off', 0, 3000)
    want = oracle(ctx, ts, vs, thr, on, off, 0)
    kw = dict(min_off_duration=off, min_on_duration=on, border=0, on_power_threshold=thr)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        same(ctx, activation_series_for_chunk(series(ctx, ts, vs), **kw), want, ts, vs)
        same(ctx, meter([frame(ctx, ts, {COL: vs})]).activation_series(**kw), want, ts, vs)


def meter(chunks, appliances=(), period=60):
    from nilmtk.electric import Electric

    class M(Electric):
        def __init__(self):
            self.appliances = list(appliances)
            self.asked = []

        def load(self, **kw):
            self.asked.append(kw)
            for c in chunks:
                yield c

        def sample_period(self):
            return period
    return M()


def h_method(ctx, sizes, given, known=True):
    """What is not given comes from the connected appliances (0 if they do not
    say); chunks one after the other."""
    from nilmtk.appliance import Appliance
    n = sum(sizes)
    ts = times(ctx, n, hi=5000)
    vs = values(ctx, n, ())
    dfs, i = [], 0
    for s in sizes:
        dfs.append(frame(ctx, ts[i:i + s], {COL: vs[i:i + s]}))
        i += s
    thr = [ctx.real('thr%d' % k, 1, 100) for k in range(2)]
    saved = dict(Appliance.appliance_types)
    Appliance.appliance_types.update({'symrun_a': {'min_on_duration': 30, 'min_off_duration': 50} if known else {},
                                      'symrun_b': {'min_on_duration': 60, 'min_off_duration': 40} if known else {}})
    try:
        apps = [Appliance({'type': 'symrun_a', 'instance': 1, 'on_power_threshold': thr[0]}),
                Appliance({'type': 'symrun_b', 'instance': 1, 'on_power_threshold': thr[1]})]
        m = meter(dfs, apps)
        low = thr[0] if thr[0] <= thr[1] else thr[1]
        on, off = (60, 50) if known else (0, 0)
        kw = {}
        if 'on' in given:
            kw['min_on_duration'] = on = 45 if 'off' not in given else 0
        if 'off' in given:
            kw['min_off_duration'] = off = 35 if 'on' not in given else 0
        if 'thr' in given:
            kw['on_power_threshold'] = low = ctx.real('thr', 0, 100)
        got = m.get_activations(**kw)
        ctx.expect(all(kw.get('resample') is True for kw in m.asked), "activations are looked for in resampled readings")
        want, i = [], 0
        for s in sizes:
            want += [(a + i, b + i) for a, b in oracle(ctx, ts[i:i + s], vs[i:i + s], low, on, off, 1)]
            i += s
        same(ctx, got, want, ts, vs)
    finally:
        Appliance.appliance_types.clear()
        Appliance.appliance_types.update(saved)


def h_when_on(ctx, sizes, given):
    n = sum(sizes)
    ts = times(ctx, n, hi=5000)
    vs = values(ctx, n, (1,))
    dfs, i = [], 0
    for s in sizes:
        dfs.append(frame(ctx, ts[i:i + s], {COL: vs[i:i + s]}))
        i += s
    m = meter(dfs)
    thr = ctx.real('thr', 1, 100) if given else 10
    got = list(m.when_on(on_power_threshold=thr) if given else m.when_on())
    ctx.expect(len(got) == len(sizes), "one series per chunk")
    i = 0
    for g, s in zip(got, sizes):
        ctx.all_eq(g.index, ts[i:i + s], "rows of the chunk")
        for k in range(s):
            v = vs[i + k]
            ctx.expect(iff(bool(g.iloc[k]), False if ctx.isnan(v) else v >= thr), "on means at least the threshold")
        i += s


def h_threshold(ctx, n):
    """The lowest threshold of the connected appliances, 10 W by default."""
    from nilmtk.appliance import Appliance
    saved = dict(Appliance.appliance_types)
    try:
        apps, want = [], []
        for i in range(n):
            kind = ctx.choose('kind%d' % i, ['metadata', 'nominal', 'type', 'none'])
            v = ctx.real('v%d' % i, 0, 100)
            name = 'symrun_%d' % i
            Appliance.appliance_types[name] = {'on_power_threshold': v} if kind == 'type' else {}
            md = {'type': name, 'instance': 1}
            if kind == 'metadata':
                md['on_power_threshold'] = v
            elif kind == 'nominal':
                md['nominal_consumption'] = {'on_power': v}
            apps.append(Appliance(md))
            want.append(10 if kind == 'none' else v)
        got = meter([], apps).on_power_threshold()
        if not want:
            want = [10]
        ctx.expect(disj(*[ctx.same(got, w) for w in want]), "threshold of one of the appliances")
        for w in want:
            ctx.expect(got <= w, "the lowest threshold")
    finally:
        Appliance.appliance_types.clear()
        Appliance.appliance_types.update(saved)


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_activations, n=n, nan=(), border=b, moff=False, mon=False) for n, b in ((1, 1), (3, 0), (4, 1), (5, 1), (5, 0), (6, 2))]
    cs += [Case(h_activations, n=5, nan=(0, 2, 3), border=1, moff=False, mon=False),
           Case(h_activations, n=5, nan=(), border=1, moff=False, mon=True),
           Case(h_activations, n=5, nan=(), border=1, moff=True, mon=False),
           Case(h_activations, n=6, nan=(), border=0, moff=True, mon=True),
           Case(h_activations, n=5, nan=(2,), border=0, moff=True, mon=True)]
    if t:
        cs += [Case(h_activations, n=7, nan=(), border=1, moff=True, mon=True), Case(h_activations, n=8, nan=(), border=1, moff=True, mon=False),
               Case(h_activations, n=6, nan=tuple(range(6)), border=1, moff=False, mon=True)]
    cs += [Case(h_method, sizes=s, given=d) for s in ((4,), (3, 4)) for d in ((), ('on', 'off', 'thr'))]
    cs += [Case(h_method, sizes=(5,), given=d, known=k) for d, k in ((('on',), True), (('off',), True), (('on',), False), (('off', 'thr'), False), (('thr',), False))]
    cs += [Case(h_when_on, sizes=s, given=g) for s in ((2,), (3, 1)) for g in (True, False)]
    cs += [Case(h_old_names, n=n) for n in ((4,) if not t else (4, 5))]
    cs += [Case(h_threshold, n=n) for n in (0, 1, 2)]
    return cs
