"""C22 metrics which compare a group of predicted meters with the truth."""
import math

from .groups import *
from . import resampling
from .standins import METRICS
from symrun.shims import ModuleShim
from symrun.proxies import is_sym

EXPLANATION = ("error_in_assigned_energy, fraction_energy_assigned_correctly, mean_normalized_error_power, rms_error_power and f1_score of "
               "nilmtk.metrics, align_two_meters and compute_rmse run symbolically on groups of real ElecMeter objects with arbitrary energies and "
               "power readings at arbitrary instants (rows of the truth may be absent or missing), delivered in chunks; the results "
               "are compared with the definitions applied to the periods which both meters measured.")
BOUNDS = {"rows": "up to 4 predictions, 4 truths", "chunks/sections": "1..3", "meters": "1..2 per group", "prediction": "regular and complete within a section"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["DataFrame.resample, math.sqrt and sklearn's mean_squared_error are replaced by their definitions in symbolic runs"]
P = 60


def _sqrt(x):
    return x.sqrt() if is_sym(x) else math.sqrt(x)


EXTRA = {'attrs': resampling.ATTRS, 'subst': METRICS + [(math, ModuleShim(math, {'sqrt': _sqrt})), (math.sqrt, _sqrt)]}


def power_meter(ctx, i, dataset, rows, sections=None, period=P, one_chunk=None, thr=None, **k):
    """rows: [(instant, reading)]; sections: [(first row, row after last, [cuts])]."""
    m = stat_meter(i, dataset=dataset, **k)
    base = type(m)

    class PM(base):
        def sample_period(self):
            return period

        def good_sections(self, **kw):
            return 'good%s' % dataset

        def on_power_threshold(self):
            return thr

        def load(self, **kw):
            self.log.append(('load', kw))
            want = kw.get('sections')
            if want == 'good%s' % dataset:
                for a, b, cuts in sections:
                    edges = [a] + [c for c in cuts] + [b]
                    for j, (x, y) in enumerate(zip(edges, edges[1:])):
                        yield self.rows(rows[max(x - 1, a) if j else x:y])
                return
            for s in want:
                got = [r for r in rows if r[0] >= s.start and (r[0] < s.end or (s.include_end and r[0] == s.end))]
                yield self.rows(got)

        def rows(self, rs):
            df = frame(ctx, [t for t, _ in rs], {COL: [v for _, v in rs]})
            set_attr(df, 'timeframe', None)
            set_attr(df, 'look_ahead', None)
            return df
    PM.__name__ = 'ElecMeter'
    m.__class__ = PM
    return m


def group(*ms):
    from nilmtk.metergroup import MeterGroup
    return MeterGroup(list(ms))


def grid(ctx, n, gaps=()):
    """n instants one period apart (more at gaps), at any phase."""
    ph = ctx.time('phase', 0, P - 1)
    out, k = [], 0
    for i in range(n):
        if i in gaps:
            k += 3
        out.append(ph + ctx_td(ctx, k * P))
        k += 1
    return out


def ctx_td(ctx, s):
    from datetime import timedelta
    from symrun.proxies import SymTimedelta
    import z3
    return SymTimedelta(z3.RealVal(s)) if ctx.symbolic else timedelta(seconds=s)


def situation(ctx, n, sections, absent, nan, more=(), lo=0, thr=(None, None)):
    """Prediction and truth of one meter: (pred, true, pairs of readings compared)."""
    starts = [s[0] for s in sections[1:]]
    pt = grid(ctx, n, starts)
    pv = [ctx.real('p%d' % i, 0, 3000) for i in range(n)]
    last = [s[1] - 1 for s in sections]
    rows, pairs = [], []
    for i in range(n):
        if i in last or (i in absent and ctx.bool('absent%d' % i)):
            continue
        t = ctx.time('y%d_t' % i, 0, 20 * P)
        # somewhere in the period of prediction i, which ends where the next starts
        ctx.assume(t >= pt[i])
        k = resampling.bin_of(ctx, pt[i], P)
        ctx.assume(t < resampling.label(ctx, k + 1, P))
        if i in nan and ctx.bool('nan%d' % i):
            rows.append((t, float('nan')))
            continue
        v = ctx.real('y%d' % i, lo, 3000)
        rows.append((t, v))
        if i in more:
            u = ctx.time('z%d_t' % i, 0, 20 * P)
            ctx.assume(t < u)
            ctx.assume(u < resampling.label(ctx, k + 1, P))
            w = ctx.real('z%d' % i, lo, 3000)
            rows.append((u, w))
            v = (v + w) / 2
        pairs.append((i, pv[i], v))
    pred = list(zip(pt, pv))
    return pred, rows, pairs


def two_groups(ctx, pred, rows, sections, thr=(None, None), other=None):
    """A predicted and a true group which also contain mains."""
    p = group(stat_meter(1, dataset='P', site=True), power_meter(ctx, 2, 'P', pred, sections, thr=thr[0], of=1))
    ts = [stat_meter(1, dataset='D', site=True), power_meter(ctx, 2, 'D', rows, thr=thr[1], of=1)]
    if other:
        ts.insert(1, power_meter(ctx, 3, 'D', [(t, v + 7) for t, v in rows], of=1))
    return p, group(*ts)


def h_mne(ctx, n, sections, absent, nan, more=(), other=False):
    from nilmtk.metrics import mean_normalized_error_power
    with registry():
        pred, rows, pairs = situation(ctx, n, sections, absent, nan, more, lo=1)
        if not pairs:
            return
        p, g = two_groups(ctx, pred, rows, sections, other=other)
        got = mean_normalized_error_power(p, g)
    num = den = 0
    for _, a, b in pairs:
        num, den = num + abs(a - b), den + b
    ctx.expect(list(got.index) == [2], "one entry per predicted meter, by instance")
    ctx.eq(got[2] * den, num, "sum of |y - p| over sum of y")


def h_rms(ctx, n, sections, absent, nan, more=()):
    from nilmtk.metrics import rms_error_power
    with registry():
        pred, rows, pairs = situation(ctx, n, sections, absent, nan, more)
        if not pairs:
            return
        p, g = two_groups(ctx, pred, rows, sections)
        got = rms_error_power(p, g)[2]
    sq = 0
    for _, a, b in pairs:
        sq = sq + (a - b) * (a - b)
    ctx.expect(got >= 0, "not negative")
    if ctx.symbolic:
        ctx.eq(got * got * len(pairs), sq, "root of the mean squared error")
    else:
        ctx.expect(abs(float(got) ** 2 * len(pairs) - float(sq)) <= 1e-6 + 1e-5 * float(sq), "root of the mean squared error")


def h_f1(ctx, n, sections, absent, nan):
    """Weighted mean over the chunks of the F1 score of being on."""
    from nilmtk.metrics import f1_score
    tp, tg = ctx.real('thr_p', 1, 50), ctx.real('thr_g', 1, 50)
    with registry():
        pred, rows, pairs = situation(ctx, n, sections, absent, nan)
        p, g = two_groups(ctx, pred, rows, sections, thr=(tp, tg))
        got = f1_score(p, g)[2]
    score, tot = 0.0, 0
    for s in sections:
        edges = [s[0]] + list(s[2]) + [s[1]]
        for j, (x, y) in enumerate(zip(edges, edges[1:])):
            lo = max(x - 1, s[0]) if j else x
            # a missing reading is not at or above the threshold
            chunk = [(bool(pred[i][1] >= tp), bool(v >= tg)) for i, v in truth(pred, rows, ctx) if lo <= i < y - 1]
            t, f = sum(a and b for a, b in chunk), sum(a != b for a, b in chunk)
            if chunk:
                score += len(chunk) * (2.0 * t / (2 * t + f) if t else 0.0)
                tot += len(chunk)
    ctx.eq(float(got), score / tot if tot else float('nan'), "weighted mean of the F1 scores of the chunks")


def truth(pred, rows, ctx):
    out = []
    for t, v in rows:
        k = resampling.bin_of(ctx, t, P)
        i = [j for j, (u, _) in enumerate(pred) if resampling.bin_of(ctx, u, P) == k][0]
        out.append((i, v))
    return out


def h_short(ctx, sizes):
    """A chunk of one row (or none) does not hide what follows."""
    from nilmtk.electric import align_two_meters
    with registry():
        n = sum(sizes)
        sections, a = [], 0
        for s in sizes:
            sections.append((a, a + s, ()))
            a += s
        pred, rows, pairs = situation(ctx, n, sections, (), ())
        got = list(align_two_meters(power_meter(ctx, 2, 'P', pred, sections), power_meter(ctx, 2, 'D', rows)))
    have = []
    for df in got:
        df = df.dropna()
        ctx.expect(list(df.columns) == ['master', 'slave'], "first column master, second slave")
        have += [(df['master'].values[i], df['slave'].values[i]) for i in range(len(df))]
    ctx.expect(len(have) == len(pairs), "every period which both measured")
    for (x, y), (_, a, b) in zip(have, pairs):
        ctx.eq(x, a, "reading of the master")
        ctx.eq(y, b, "reading of the slave")


def build(ctx, n, types, ttypes, nested, lo):
    """Groups of submeters (the last one a group of two if nested), and the
    energies per submeter."""
    out = {}
    for ds, ty in (('P', types), ('D', ttypes)):
        lst, es = [], []
        for i in range(n + (1 if nested else 0)):
            m = stat_meter(i + 2, dataset=ds, of=1)
            m.good = [('sections%d' % i, ds)]
            m.energy = {t: ctx.real('e%s%d%s' % (ds, i, t), lo, 100) for t in ty}
            lst.append(m)
            es.append(dict(m.energy))
        leaves = list(lst)
        if nested:
            lst[-2:] = [group(*lst[-2:])]
            es[-2:] = [{t: es[-2][t] + es[-1][t] for t in ty}]
        out[ds] = lst, es, leaves
    mains = {d: stat_meter(1, dataset=d, site=True) for d in 'PD'}
    for m in mains.values():
        m.energy = {types[0]: ctx.real('mains' + m.identifier.dataset, 1, 100)}
    names = [i + 2 for i in range(n)]
    if nested:
        names[-1] = (n + 1, n + 2)
    return (group(mains['P'], *out['P'][0]), group(mains['D'], *reversed(out['D'][0])), out['P'], out['D'], names)


def h_energy(ctx, n, types, ttypes, nested=False):
    from nilmtk.metrics import error_in_assigned_energy
    with registry():
        p, g, (ps, ep, pl), (ts, et, tl), names = build(ctx, n, types, ttypes, nested, 0)
        got = error_in_assigned_energy(p, g)
        ctx.expect(set(got.index) == set(names) and len(got) == n, "one entry per predicted meter, by instance")
        for i, k in enumerate(names):
            for t in set(types) & set(ttypes):
                ctx.eq(got[k][t], abs(ep[i][t] - et[i][t]), "absolute error in energy")
        if not nested:
            for i in range(n):
                for m in (pl[i], tl[i]):
                    ctx.expect([kw for w, kw in m.log if w == 'total_energy'] == [{'sections': [('sections%d' % i, 'P')]}],
                               "energies over the good sections of the prediction")


def h_fraction(ctx, n, types, ttypes, nested=False):
    from nilmtk.metrics import fraction_energy_assigned_correctly
    with registry():
        p, g, (_, ep, _), (_, et, _), names = build(ctx, n, types, ttypes, nested, 1)
        got = fraction_energy_assigned_correctly(p, g)
        big = lambda v: v[0] if len(v) == 1 else ctx.ite(v[0] >= v[1], v[0], v[1])
        ep, et = [big(list(e.values())) for e in ep], [big(list(e.values())) for e in et]
        want = 0
        for a, b in zip(ep, et):
            x, y = a / sum(ep), b / sum(et)
            want = want + ctx.ite(x < y, x, y)
        ctx.eq(got, want, "sum of the smaller shares of the submeters")


def h_compute_rmse(ctx, labels, n, nan, pretty):
    from nilmtk.utils import compute_rmse

    class App(object):
        def __init__(self, name, i):
            self.name, self.building, self.instance = name, 1, i

        def label(self):
            return self.name
    apps = [App(x, i + 1) for i, x in enumerate(labels)] if pretty else list(labels)
    ix = ctx.index(times(ctx, n))
    g, p = {}, {}
    for i, a in enumerate(apps):
        g[a] = [float('nan') if j in nan and ctx.bool('gn%d%d' % (i, j)) else ctx.real('g%d%d' % (i, j), 0, 3000) for j in range(n)]
        p[a] = [float('nan') if j in nan and ctx.bool('pn%d%d' % (i, j)) else ctx.real('p%d%d' % (i, j), 0, 3000) for j in range(n)]
    mk = lambda d: pd.DataFrame({a: ctx.array(v) for a, v in d.items()}, index=ix)
    got = compute_rmse(mk(g), mk(p), pretty=pretty)
    ctx.expect(len(got) == len(apps), "one entry per appliance")
    for a, l in zip(apps, labels):
        key = l if labels.count(l) == 1 or not pretty else '%s (1, %d)' % (l, a.instance)
        both = [(x, y) for x, y in zip(g[a], p[a]) if not ctx.isnan(x) and not ctx.isnan(y)]
        if not both:
            ctx.expect(ctx.isnan(got[key]), "nothing to compare: NaN")
            continue
        sq = 0
        for x, y in both:
            sq = sq + (x - y) * (x - y)
        r = got[key]
        ctx.expect(r >= 0, "not negative")
        if ctx.symbolic:
            ctx.eq(r * r * len(both), sq, "RMS error of the rows which both have")
        else:
            ctx.expect(abs(float(r) ** 2 * len(both) - float(sq)) <= 1e-6 + 1e-5 * float(sq), "RMS error of the rows which both have")


def cases(tier):
    t = tier == 'thorough'

    def C(fn, **k):
        return Case(fn, extra=lambda c: EXTRA, **k)
    one = ((0, 3, ()),)
    A, B = 'active', 'apparent'
    shapes = [(3, one, (0,), ()), (3, one, (), (1,)), (4, ((0, 4, (2,)),), (1,), (0,)), (4, ((0, 2, ()), (2, 4, ())), (0,), ()),
              (4, ((0, 4, (2, 3)),), (), ())]
    if t:
        shapes += [(5, ((0, 5, (3,)),), (0, 2), (1,)), (6, ((0, 3, ()), (3, 6, (5,))), (1, 4), (0,))]
    out = []
    for n, s, a, m in shapes:
        out += [C(h_mne, n=n, sections=s, absent=a, nan=m), C(h_rms, n=n, sections=s, absent=a, nan=m), C(h_f1, n=n, sections=s, absent=a, nan=m)]
    out += [C(h_mne, n=3, sections=one, absent=(), nan=(), more=(0,)), C(h_mne, n=3, sections=one, absent=(), nan=(), other=True),
            C(h_rms, n=2, sections=((0, 2, ()),), absent=(), nan=(), more=(0,))]
    out += [C(h_short, sizes=s) for s in ((2,), (3, 2), (1, 2), (2, 1, 3), (2, 0, 2))]
    out += [C(h_energy, n=n, types=x, ttypes=y) for n, x, y in ((1, [A], [A]), (2, [A], [A, B]), (2, [B, A], [A, B]))]
    out += [C(h_fraction, n=n, types=x, ttypes=y) for n, x, y in ((1, [A], [B]), (2, [A], [A]), (2, [A], [B, A]), (3, [A], [A]))]
    out += [C(f, n=2, types=[A], ttypes=[A], nested=True) for f in (h_energy, h_fraction)]
    out += [C(h_compute_rmse, labels=l, n=n, nan=m, pretty=p) for l, n, m, p in ((('a',), 2, (0,), False), (('a', 'b'), 2, (1,), True), (('a', 'b', 'a'), 1, (), True), (('a',), 1, (0,), True))]
    return out
