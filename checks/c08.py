"""C08 tables of per-period results."""
from .stream import *

EXPLANATION = ("Results.append/update/unify/combined/per_period/timeframes and the TotalEnergy, DropoutRate and GoodSections "
               "subclasses run symbolically on periods with arbitrary bounds (given in any order, disjoint, touching or "
               "overlapping) and arbitrary values.")
BOUNDS = {"periods": "up to 4 appended in arbitrary order", "values": "arbitrary reals", "meters unified": "2..3 (4 thorough)"}
ASSUMPTIONS = BASE_ASSUMPTIONS


def tfs(ctx, n, prefix, disjoint=True):
    """n periods in chronological order; touching is allowed."""
    from nilmtk.timeframe import TimeFrame
    out, prev = [], None
    for i in range(n):
        s, e = ctx.time('%ss%d' % (prefix, i), 0, 1000), ctx.time('%se%d' % (prefix, i), 0, 1000)
        ctx.assume(s < e)
        if disjoint and prev is not None:
            ctx.assume(prev <= s)
        prev = e
        out.append(TimeFrame(s, e))
    return out


def mk(kind):
    from nilmtk.stats.totalenergyresults import TotalEnergyResults
    from nilmtk.stats.dropoutrateresults import DropoutRateResults
    from nilmtk.stats.goodsectionsresults import GoodSectionsResults
    return GoodSectionsResults(10) if kind == 'good' else {'energy': TotalEnergyResults, 'dropout': DropoutRateResults}[kind]()


def vals(ctx, kind, i, p=''):
    if kind == 'energy':
        return {'active': ctx.real('%sa%d' % (p, i), 0, 1000), 'reactive': ctx.real('%sr%d' % (p, i), 0, 1000)}
    if kind == 'good':
        return {'sections': [[]]}
    return {'dropout_rate': ctx.real('%sd%d' % (p, i), 0, 1), 'n_samples': ctx.int('%sn%d' % (p, i), 1, 1000)}


def table(ctx, res, periods, rows, what):
    pp = res.per_period()
    ctx.all_eq(pp.index, [p.start for p in periods], what + ": one row per period, sorted by start")
    ctx.all_eq(pp['end'], [p.end for p in periods], what + ": ends")
    for k in rows[0] if rows else ():
        ctx.all_eq(pp[k], [r[k] for r in rows], what + ": values")
    got = res.timeframes()
    ctx.all_eq([g.start for g in got], [p.start for p in periods], what + ": timeframes()")
    ctx.all_eq([g.end for g in got], [p.end for p in periods], what + ": timeframes()")


def combined(ctx, kind, res, rows, what):
    got = res.combined()
    if kind == 'energy':
        for k in rows[0]:
            ctx.eq(got[k], sum(r[k] for r in rows), what)
    else:
        tot = sum(r['n_samples'] for r in rows)
        want = sum(r['dropout_rate'] * r['n_samples'] for r in rows)
        ctx.eq(got * tot, want, what)


def h_append(ctx, kind, order, via_update):
    n = len(order)
    ps = tfs(ctx, n, 'p')
    rows = [vals(ctx, kind, i) for i in range(n)]
    if n > 3 and kind == 'dropout':   # more weights than the solver's nonlinear arithmetic reaches
        for i in range(2, n):
            rows[i]['n_samples'] = (7, 300)[i - 2]
    res = mk(kind)
    for i in order:
        if via_update:
            one = mk(kind)
            one.append(ps[i], dict(rows[i]))
            res.update(one)
        else:
            res.append(ps[i], dict(rows[i]))
    table(ctx, res, ps, rows, "results of %d periods" % n)
    combined(ctx, kind, res, rows, "combined result over all periods")
    res.update(mk(kind))
    pp = res.per_period()
    for k in rows[0]:
        pp[k] = 0
    table(ctx, res, ps, rows, "results after an empty update and edits to a copy")


def h_overlap(ctx, kind, via_update):
    """A period that overlaps an existing one is refused; touching is fine."""
    ps = tfs(ctx, 2, 'p')
    new, = tfs(ctx, 1, 'q')
    res = mk(kind)
    rows = [vals(ctx, kind, i) for i in range(3)]
    for p, r in zip(ps, rows):
        res.append(p, dict(r))
    clash = disj(*[conj(new.start < p.end, p.start < new.end) for p in ps])
    clash = bool(clash)
    try:
        if via_update:
            one = mk(kind)
            one.append(new, dict(rows[2]))
            res.update(one)
        else:
            res.append(new, dict(rows[2]))
        ok = True
    except ValueError:
        ok = False
    ctx.expect(ok != clash, "overlapping periods are refused, others accepted")
    if ok:
        ctx.expect(len(res.per_period()) == 3, "an accepted period is stored")
    elif not via_update:
        table(ctx, res, ps, rows[:2], "results after a refused append")


def h_unify(ctx, kind, n):
    ps = tfs(ctx, n, 'p')
    a, b = mk(kind), mk(kind)
    ra = [vals(ctx, kind, i, 'a') for i in range(n)]
    rb = [vals(ctx, kind, i, 'b') for i in range(n)]
    for i, p in enumerate(ps):
        a.append(p, dict(ra[i]))
        b.append(p, dict(rb[i]))
    a.unify(b)
    pp = a.per_period()
    for i in range(n):
        for k in ra[i]:
            if k == 'dropout_rate':
                ctx.eq(pp[k].iloc[i] * 2, ra[i][k] + rb[i][k], "unified dropout rate is the mean")
            else:
                ctx.eq(pp[k].iloc[i], ra[i][k] + rb[i][k], "unified values are added")
    table(ctx, b, ps, rb, "unify leaves the other meter's results alone")


def h_unify_mismatch(ctx, kind):
    """Results of different periods cannot be unified."""
    p, = tfs(ctx, 1, 'p')
    q, = tfs(ctx, 1, 'q')
    a, b = mk(kind), mk(kind)
    a.append(p, vals(ctx, kind, 0, 'a'))
    b.append(q, vals(ctx, kind, 0, 'b'))
    same = bool(conj(p.start == q.start, p.end == q.end))
    try:
        a.unify(b)
        ok = True
    except RuntimeError:
        ok = False
    ctx.expect(ok == same, "only results of the same periods can be unified")


def h_unify_missing(ctx, kind, short):
    """Results of one period against results of two."""
    p, q = tfs(ctx, 2, 'p')
    a, b = mk(kind), mk(kind)
    for r, ps in ((a, (p,)), (b, (p, q))) if short == 'self' else ((a, (p, q)), (b, (q,))):
        for i, x in enumerate(ps):
            r.append(x, vals(ctx, kind, i, 'a' if r is a else 'b'))
    ctx.raises(RuntimeError, lambda: a.unify(b), "only results of the same periods can be unified")


def h_unify_many(ctx, kind, n):
    """One meter after the other, in any order."""
    p, = tfs(ctx, 1, 'p')
    rs, vs = [], []
    for i in range(n):
        r, v = mk(kind), vals(ctx, kind, i)
        r.append(p, dict(v))
        rs.append(r)
        vs.append(v)
    for r in rs[1:]:
        rs[0].unify(r)
    pp = rs[0].per_period()
    for k in vs[0]:
        tot = sum(v[k] for v in vs)
        ctx.eq(pp[k].iloc[0], tot / n if k == 'dropout_rate' else tot,
               "mean over the meters" if k == 'dropout_rate' else "sum over the meters")


def h_types(ctx):
    from nilmtk.stats.totalenergyresults import TotalEnergyResults
    from nilmtk.stats.dropoutrateresults import DropoutRateResults
    p, = tfs(ctx, 1, 'p')
    r = TotalEnergyResults()
    ctx.raises(KeyError, lambda: r.append(p, {'voltage': 1.0}), "unknown AC type accepted")
    ctx.raises(TypeError, lambda: r.append((p.start, p.end), {'active': 1.0}), "period must be a TimeFrame")
    ctx.raises(TypeError, lambda: DropoutRateResults().append(p, [1]), "results must be a dict")
    ctx.raises(TypeError, lambda: r.update(DropoutRateResults()), "update with another kind of results")
    ctx.expect(len(r.per_period()) == 0, "refused results are not stored")


def h_good_unify(ctx, n):
    """Good sections of two meters: instants good on both."""
    from nilmtk.stats.goodsectionsresults import GoodSectionsResults
    from nilmtk.timeframe import TimeFrame
    from .tf_common import contains
    p = TimeFrame(ctx.time('ps', 0, 0), ctx.time('pe', 1000, 1000))
    a, b = GoodSectionsResults(10), GoodSectionsResults(10)
    sa, sb = tfs(ctx, n, 'a'), tfs(ctx, 1, 'b')
    a.append(p, {'sections': [list(sa)]})
    b.append(p, {'sections': [list(sb)]})
    a.unify(b)
    got = a.combined()
    t = ctx.time('t', 0, 999)
    inside = disj(*[contains(g, t) for g in got])
    want = conj(disj(*[contains(s, t) for s in sa]), disj(*[contains(s, t) for s in sb]))
    last = conj(got[-1].include_end, t == got[-1].end) if len(got) else False
    ctx.expect(disj(iff(inside, want), last), "an instant is good if it is good on both meters")


def cases(tier):
    t = tier == 'thorough'
    cs = []
    orders = [(0,), (0, 1), (1, 0), (2, 0, 1), (1, 2, 0)] + ([(3, 1, 0, 2), (2, 3, 1, 0), (0, 1, 2, 3)] if t else [(2, 0, 3, 1)])
    for kind in ('energy', 'dropout'):
        cs += [Case(h_append, kind=kind, order=o, via_update=u) for o in orders for u in (False, True)]
        cs += [Case(h_overlap, kind=kind, via_update=u) for u in (False, True)]
        cs += [Case(h_unify, kind=kind, n=n) for n in (1, 2)]
        cs += [Case(h_unify_mismatch, kind=kind)]
        cs += [Case(h_unify_many, kind=kind, n=n) for n in ((3,) if not t else (3, 4))]
    for kind in ('energy', 'dropout', 'good'):
        cs += [Case(h_unify_missing, kind=kind, short=w) for w in ('self', 'other')]
    cs += [Case(h_unify_mismatch, kind='good'), Case(h_types), Case(h_good_unify, n=1), Case(h_good_unify, n=2)]
    return cs
