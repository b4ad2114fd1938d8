"""C03 total energy."""
from .stream import *

EXPLANATION = ("get_total_energy, the TotalEnergy node and TotalEnergyResults run symbolically on rows at arbitrary "
               "increasing instants with arbitrary values (some missing), and are compared with the energy integral "
               "computed directly from the rows; chunked runs are compared with the unchunked integral.")
BOUNDS = {"rows": "up to 5 (6 thorough)", "columns": "up to 3 AC types x 3 quantities", "chunk sizes": "1..3",
          "values": "arbitrary reals in [-10000, 10000]", "instants": "arbitrary reals, strictly increasing"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["chunk streams follow the contract proved for the HDF5 store (C01)"]
J = 3600000


def power_kwh(ctx, ts, vs, m):
    rows = [(t, v) for t, v in zip(ts, vs) if not ctx.isnan(v)]
    tot = 0
    for (t0, p), (t1, _) in zip(rows, rows[1:]):
        dt = (t1 - t0).total_seconds()
        dt = dt if dt <= m else m
        tot = tot + dt * p
    return tot / J if rows else 0


def vals(ctx, n, name, nan):
    return [float('nan') if i in nan and ctx.bool('%s_nan%d' % (name, i)) else ctx.real('%s%d' % (name, i), -10000, 10000)
            for i in range(n)]


def h_power(ctx, n, nan):
    from nilmtk.stats.totalenergy import get_total_energy
    ts = times(ctx, n)
    m = ctx.seconds('m', 1, 5000)
    v = vals(ctx, n, 'p', nan)
    df = frame(ctx, ts, {COL: v})
    e = get_total_energy(df, m)
    ctx.expect(set(e) == {'active'}, "energy reported for the wrong AC types")
    ctx.eq(e['active'], power_kwh(ctx, ts, v, m), "energy of a power series")


QS = ('power', 'energy', 'cumulative energy')


def h_prefs(ctx, n, cols):
    """Cumulative energy over energy over power, separately per AC type."""
    from nilmtk.stats.totalenergy import get_total_energy
    ts = times(ctx, n)
    m = ctx.seconds('m', 1, 5000)
    data = {c: vals(ctx, n, '%s_%s' % c, ()) for c in cols}
    df = frame(ctx, ts, data)
    e = get_total_energy(df, m)
    acs = {c[1] for c in cols if c[0] in QS and c[1]}
    ctx.expect(set(e) == acs, "energy reported for the wrong AC types")
    for ac in acs:
        if ('cumulative energy', ac) in data:
            v = data[('cumulative energy', ac)]
            want = v[-1] - v[0]
        elif ('energy', ac) in data:
            want = sum(data[('energy', ac)])
        else:
            want = power_kwh(ctx, ts, data[('power', ac)], m)
        ctx.eq(e[ac], want, "energy taken from the wrong measurement or summed wrongly")


def h_energy_nan(ctx, n):
    from nilmtk.stats.totalenergy import get_total_energy
    ts = times(ctx, n)
    v = vals(ctx, n, 'e', range(n))
    e = get_total_energy(frame(ctx, ts, {('energy', 'active'): v}), 10)
    ctx.eq(e['active'], sum([x for x in v if not ctx.isnan(x)]), "energy series with missing rows")


def node(chunks, m, quantity='power'):
    from nilmtk.stats import TotalEnergy
    md = {'device': {'max_sample_period': m}, 'preprocessing_applied': {'clip': {}}}
    nd = TotalEnergy(Upstream(chunks, md))
    nd.run()
    return nd.results


def h_chunked(ctx, n, c, quantity):
    """Totals do not depend on how the rows were cut into chunks."""
    ts = times(ctx, n)
    m = ctx.seconds('m', 1, 5000)
    v = vals(ctx, n, 'v', ())
    df = frame(ctx, ts, {(quantity, 'active'): v})
    res = node(chunked(df, c), m)
    tot = res.combined()['active']
    if quantity == 'power':
        want = power_kwh(ctx, ts, v, m)
    elif quantity == 'energy':
        want = sum(v)
    else:
        want = v[-1] - v[0]
    ctx.eq(tot, want, "chunked total differs from the total of the rows")
    ctx.eq(res.simple()['active'], want, "simple() differs")
    d = res.to_dict()['total_energy']
    ctx.eq(d['active'], want, "to_dict() differs")


def h_chunked_nan(ctx, n, c, nan):
    """As h_chunked with missing rows inside the chunks (boundary rows present)."""
    ts = times(ctx, n)
    m = ctx.seconds('m', 1, 5000)
    v = vals(ctx, n, 'v', nan)
    res = node(chunked(frame(ctx, ts, {COL: v}), c), m)
    ctx.eq(res.combined()['active'], power_kwh(ctx, ts, v, m), "chunked total differs from the total of the rows")


def h_two_ac(ctx, n, c):
    ts = times(ctx, n)
    m = ctx.seconds('m', 1, 5000)
    a, b = vals(ctx, n, 'a', ()), vals(ctx, n, 'b', ())
    df = frame(ctx, ts, {('power', 'active'): a, ('power', 'reactive'): b})
    res = node(chunked(df, c), m).combined()
    ctx.expect(set(res.index) == {'active', 'reactive'}, "AC types")
    ctx.eq(res['active'], power_kwh(ctx, ts, a, m), "active")
    ctx.eq(res['reactive'], power_kwh(ctx, ts, b, m), "reactive")


def h_unify(ctx, n):
    """Two meters over the same periods: energies add per period."""
    from nilmtk.stats.totalenergyresults import TotalEnergyResults
    from nilmtk.timeframe import TimeFrame
    ts = times(ctx, 2 * n)
    a, b = TotalEnergyResults(), TotalEnergyResults()
    va, vb = [], []
    for i in range(n):
        tf = TimeFrame(ts[2 * i], ts[2 * i + 1])
        x, y = ctx.real('x%d' % i, 0, 100), ctx.real('y%d' % i, 0, 100)
        va.append(x)
        vb.append(y)
        a.append(tf, {'active': x})
        b.append(tf, {'active': y})
    a.unify(b)
    per = a.per_period()
    for i in range(n):
        ctx.eq(per['active'].iloc[i], va[i] + vb[i], "unified energy of one period")
    ctx.eq(a.combined()['active'], sum(va) + sum(vb), "unified total")
    ctx.eq(b.combined()['active'], sum(vb), "unify changed the other meter")


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_power, n=n, nan=tuple(range(n))) for n in ((1, 2, 3, 4) if not t else (1, 2, 3, 4, 5))]
    cs += [Case(h_power, n=5 if not t else 6, nan=())]
    combos = [
        (('power', 'active'), ('power', 'apparent'), ('power', 'reactive')),
        (('power', 'active'), ('energy', 'active')),
        (('energy', 'active'), ('cumulative energy', 'active'), ('power', 'apparent')),
        (('cumulative energy', 'apparent'), ('power', 'active'), ('power', 'apparent'), ('energy', 'reactive'), ('power', 'reactive')),
        (('power', 'active'), ('voltage', '')),
        (('current', ''),),
    ]
    cs += [Case(h_prefs, n=n, cols=c) for c in combos for n in ((2, 3) if not t else (1, 2, 3))]
    cs += [Case(h_energy_nan, n=3)]
    sh = [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 2)] + ([(5, 1), (5, 3), (6, 2)] if t else [])
    cs += [Case(h_chunked, n=n, c=c, quantity=q) for n, c in sh for q in QS]
    cs += [Case(h_chunked_nan, n=5, c=2, nan=(1, 3)), Case(h_chunked_nan, n=6, c=3, nan=(1, 2, 4))]
    cs += [Case(h_two_ac, n=3, c=1), Case(h_two_ac, n=4, c=2), Case(h_unify, n=1), Case(h_unify, n=2)]
    return cs
