"""C09 cached statistics equal freshly computed ones."""
import contextlib
import io

from .stream import *
from . import fakestore

EXPLANATION = ("ElecMeter.total_energy / good_sections / dropout_rate run symbolically through load, the statistics nodes, "
               "the cache export, the cache store and the cache import: after an arbitrary first request (same or different "
               "sections, columns, chunk size, dataset) a second request must give the answer a cleared cache gives.")
BOUNDS = {"rows": "3..4", "requests": "2 (3 thorough), from the listed shapes", "sections": "none / one / two with bounds at arbitrary instants",
          "columns": "2", "values": "arbitrary reals", "instants": "arbitrary reals, strictly increasing"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["pd.HDFStore stand-in in symbolic runs (see C01), also for the cache store"]
A, B = ('power', 'active'), ('power', 'apparent')
KEY = '/building1/elec/meter1'


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def meters(ctx, n, cols, names=('D1',), nan=(), m=60, drop=None, power=None):
    """Meters of the same number in different datasets, sharing one cache."""
    import nilmtk
    from nilmtk.elecmeter import ElecMeter, ElecMeterID
    ElecMeter.meter_devices['symrun'] = {
        'sample_period': m, 'max_sample_period': m,
        'measurements': [{'physical_quantity': c[0], 'type': c[1], 'lower_limit': -1e9, 'upper_limit': 1e9} for c in cols]}
    group = nilmtk.global_meter_group.meters
    saved = list(group)
    ts = times(ctx, n, hi=1000)
    with contextlib.ExitStack() as stack:
        cache = stack.enter_context(fakestore.store(ctx))
        ms = []
        for d in names:
            st = stack.enter_context(fakestore.store(ctx))
            data = {c: [float('nan') if (c, i) in nan else power if power is not None else ctx.real('%s_%s%d' % (d, c[1], i), 0, 5000) for i in range(n)]
                    for c in cols}
            st.put(KEY, frame(ctx, ts, data) if drop is None or drop[0] != d else
                   frame(ctx, ts[:drop[1]] + ts[drop[1] + 1:], {c: v[:drop[1]] + v[drop[1] + 1:] for c, v in data.items()}))
            em = ElecMeter(st, {'device_model': 'symrun', 'data_location': KEY}, ElecMeterID(1, 1, d))
            em.cache = cache
            ms.append(em)
        try:
            yield ts, ms
        finally:
            group[:] = saved


def request(em, req, bounds):
    from nilmtk.timeframe import TimeFrame
    stat, secs, kw = req
    kw = dict(kw)
    if secs is not None:
        kw['sections'] = [TimeFrame(bounds[i], bounds[j]) for i, j in secs]
    return getattr(em, stat)(**kw)


def covered(sections, a, b):
    return disj(*[conj(s.start <= a, s.end >= b) for s in sections])


def same_result(ctx, got, want, label, ts=(), secs=None):
    if isinstance(want, pd.Series):
        ctx.expect(isinstance(got, pd.Series) and set(got.index) == set(want.index), label + ": which AC types")
        for k in want.index:
            ctx.eq(got[k], want[k], label)
    elif isinstance(want, list):
        # good sections: the same stretches between consecutive samples
        for g in list(got) + list(want):
            ctx.expect(g.start is not None and g.end is not None, label + ": good sections are bounded")
        for a, b in zip(ts, ts[1:]):
            if secs is None or bool(disj(*[conj(s <= a, b < e) for s, e in secs])):
                ctx.expect(iff(covered(got, a, b), covered(want, a, b)), label + ": good sections")
    else:
        ctx.eq(got, want, label)


def h_seq(ctx, n, cols, reqs, rows_as_bounds=False, nan=()):
    """The last request of reqs must not depend on the ones before it."""
    with meters(ctx, n, cols, nan=nan) as (ts, (em,)), quiet():
        nb = 1 + max([j for r in reqs if r[1] for _, j in r[1]] or [-1])
        bounds = ts if rows_as_bounds else times(ctx, nb, 'b', hi=1000)
        for r in reqs[:-1]:
            request(em, r, bounds)
        warm = request(em, reqs[-1], bounds)
        again = request(em, reqs[-1], bounds)
        em.clear_cache()
        cold = request(em, reqs[-1], bounds)
        rs = reqs[-1][1]
        secs = None if rs is None else [(bounds[i], bounds[j]) for i, j in rs]
        valid = [t for i, t in enumerate(ts) if not any((c, i) in nan for c in cols)]
        same_result(ctx, warm, cold, "answer after other requests equals the fresh answer", valid, secs)
        same_result(ctx, again, cold, "answer from the cache equals the fresh answer", valid, secs)


def h_datasets(ctx, n, req):
    """Meters of two datasets never see each other's statistics."""
    with meters(ctx, n, (A,), names=('D1', 'D2'), drop=('D2', 1)) as (ts, (a, b)), quiet():
        request(a, req, ts)
        warm = request(b, req, ts)
        b.clear_cache()
        cold = request(b, req, ts)
        secs = None if req[1] is None else [(ts[i], ts[j]) for i, j in req[1]]
        same_result(ctx, warm, cold, "answer unaffected by another dataset", ts, secs)


def h_window(ctx, n, stat, secs, first, second):
    """The window of the store moves between the requests (an index pair into
    the bounds, or None)."""
    from nilmtk.timeframe import TimeFrame
    with meters(ctx, n, (A,)) as (ts, (em,)), quiet():
        if secs == 'own':
            # bounds of the section and of the windows apart from the rows
            bounds = times(ctx, 4, 'b', hi=1000)
            secs = ((0, 3),)
        else:
            bounds = ts
        req = (stat, secs, {'ignore_gaps': False} if stat == 'dropout_rate' else {})

        def window(w):
            em.store.window = TimeFrame() if w is None else TimeFrame(bounds[w[0]], bounds[w[1]])
        window(first)
        request(em, req, bounds)
        window(second)
        warm = request(em, req, bounds)
        again = request(em, req, bounds)
        em.clear_cache()
        cold = request(em, req, bounds)
        ss = [(bounds[i], bounds[j]) for i, j in secs] if secs is not None else [(ts[0], ts[-1])]
        if second is not None:
            ws, we = bounds[second[0]], bounds[second[1]]
            ss = [(a if a > ws else ws, b if b < we else we) for a, b in ss]
        same_result(ctx, warm, cold, "answer within the window equals the fresh answer", ts, ss)
        same_result(ctx, again, cold, "answer from the cache within the window equals the fresh answer", ts, ss)


def cases(tier):
    t = tier == 'thorough'
    E = fakestore.EXTRA
    NONE, S1, S2, S12 = None, ((0, 1),), ((1, 2),), ((0, 1), (1, 2))
    cs = []
    for stat in ('total_energy', 'good_sections', 'dropout_rate'):
        dk = ({} if stat != 'dropout_rate' else {'ignore_gaps': False})
        R = lambda secs, **kw: (stat, secs, dict(dk, **kw))
        seqs = [[R(NONE)], [R(S1), R(S12)], [R(S12), R(S2)], [R(S1), R(S2)], [R(NONE), R(S1)], [R(NONE, chunksize=1), R(NONE)]]
        if stat == 'good_sections':
            seqs += [[R(NONE, chunksize=1), R(S1)], [R(NONE, chunksize=1), R(S2)]]
        for q in seqs:
            cs.append(Case(h_seq, extra=E, n=3, cols=(A,), reqs=tuple(q), rows_as_bounds=True))
        cs.append(Case(h_seq, extra=E, n=2, cols=(A,), reqs=(R(S1), R(S1)), rows_as_bounds=False))
        if t:
            cs.append(Case(h_seq, extra=E, n=3, cols=(A,), reqs=(R(S1), R(S12)), rows_as_bounds=False))
            cs.append(Case(h_seq, extra=E, n=3, cols=(A,), reqs=(R(S2), R(S1), R(S12)), rows_as_bounds=True))
        for a, b in (({'ac_type': 'active'}, {}), ({}, {'ac_type': 'active'}), ({'ac_type': 'active'}, {'ac_type': 'apparent'}),
                     ({'columns': [A]}, {'physical_quantity': 'power'})):
            cs.append(Case(h_seq, extra=E, n=3, cols=(A, B), reqs=(R(NONE, **a), R(NONE, **b)), nan=((A, 1),)))
        cs.append(Case(h_datasets, extra=E, n=4 if stat != 'dropout_rate' else 7, req=R(((0, 3 if stat != 'dropout_rate' else 6),))))
        cs.append(Case(h_datasets, extra=E, n=4, req=R(NONE)))
        for first, second in ((None, (1, 3)), ((1, 3), None), ((0, 2), (1, 3))):
            cs.append(Case(h_window, extra=E, n=4, stat=stat, secs=((0, 3),), first=first, second=second))
            cs.append(Case(h_window, extra=E, n=4, stat=stat, secs=None, first=first, second=second))
        cs.append(Case(h_window, extra=E, n=4, stat=stat, secs=((0, 1), (1, 3)), first=None, second=(1, 2)))
        cs.append(Case(h_window, extra=E, n=4, stat=stat, secs=((0, 1),), first=None, second=(2, 3)))
        cs.append(Case(h_window, extra=E, n=4, stat=stat, secs=((0, 1), (2, 3)), first=(0, 1), second=(2, 3)))
        cs.append(Case(h_window, extra=E, n=3 if not t else 4, stat=stat, secs='own', first=None, second=(1, 2)))
    EN = ('energy', 'active')
    for stat in ('good_sections', 'dropout_rate', 'total_energy'):
        dk = ({} if stat != 'dropout_rate' else {'ignore_gaps': False})
        R = lambda **kw: (stat, NONE, dict(dk, **kw))
        n = 3 if stat != 'dropout_rate' else 6
        for a, b in (({'columns': [A]}, {'columns': [EN]}), ({'physical_quantity': 'power'}, {'physical_quantity': 'energy'}),
                     ({'columns': [A]}, {'columns': [A, EN]})):
            cs.append(Case(h_seq, extra=E, n=n, cols=(A, EN), reqs=(R(**a), R(**b)), nan=((EN, 1),)))
    for a, b in (({'physical_quantity': 'power'}, {}), ({}, {'physical_quantity': 'power'})):
        cs.append(Case(h_seq, extra=E, n=3, cols=(A, ('energy', 'active')), reqs=(('total_energy', NONE, a), ('total_energy', NONE, b))))
    cs.append(Case(h_seq, extra=E, n=3, cols=(A,), reqs=(('dropout_rate', NONE, {}), ('dropout_rate', NONE, {}))))
    return cs
