"""C16 energy accounting of groups of meters."""
from .groups import *

EXPLANATION = ("MeterGroup.total_energy, dropout_rate, energy_per_meter (absolute, per period, with labels, with remainder), "
               "fraction_per_meter, select_top_k, proportion_of_energy_submetered, get_timeframe, train_test_split, "
               "simultaneous_switches, pairwise and call_method_on_all_meters run symbolically on groups of real ElecMeter objects whose "
               "energies, dropout rates, time frames, good sections and switch times are arbitrary.")
BOUNDS = {"meters": "1..4", "good sections": "1..3", "train fraction": "1/4, 1/2, 4/5", "AC types": "all meters of a group measure the same for totals"}
ASSUMPTIONS = BASE_ASSUMPTIONS


def group(ms):
    from nilmtk.metergroup import MeterGroup
    return MeterGroup(ms)


def set_energy(ctx, m, types, lo=0):
    m.energy = {t: ctx.real('e%s_%s' % (m.identifier.instance, t), lo, 1000) for t in types}
    return m.energy


def col(df, key):
    k = [i for i, c in enumerate(df.columns) if (tuple(c) if isinstance(c, tuple) else c) == (tuple(key) if isinstance(key, tuple) else key)]
    assert len(k) == 1, (key, list(df.columns))
    return df.iloc[:, k[0]]


def item(s, key):
    key = tuple(key) if isinstance(key, tuple) else (key,)
    k = [i for i, c in enumerate(s.index) if (tuple(c) if isinstance(c, tuple) else (c,))[:len(key)] == key]
    assert len(k) == 1, (key, list(s.index))
    return s.iloc[k[0]]


def h_total(ctx, n, types, nested):
    with registry():
        ms = [stat_meter(i + 1) for i in range(n)]
        es = [set_energy(ctx, m, types) for m in ms]
        g = group(ms[:1] + [group(ms[1:])]) if nested else group(ms)
        got = g.total_energy(sections='S')
        for t in types:
            ctx.eq(got[t], sum(e[t] for e in es), "sum of the meters' energies")
        ctx.expect(len(got) == len(types), "one entry per AC type")
        for m in ms:
            ctx.expect(m.log == [('total_energy', {'full_results': False, 'sections': 'S'})], "every meter is asked once for the same sections")
        again = g.total_energy(sections='S')
        for t in types:
            ctx.eq(again[t], got[t], "asking twice gives the same answer")


def h_dropout(ctx, n):
    with registry():
        ms = [stat_meter(i + 1) for i in range(n)]
        rs = [ctx.real('r%d' % i, 0, 1) for i in range(n)]
        for m, r in zip(ms, rs):
            m.dropout_rate = lambda r=r, **kw: r
        ctx.eq(group(ms).dropout_rate(), sum(rs) / n, "mean of the meters' dropout rates")


def h_full(ctx):
    with registry():
        ms = [stat_meter(i + 1) for i in range(2)]
        ctx.raises(RuntimeError, lambda: group(ms).total_energy(full_results=True), "full results of a group need sections")
        ctx.raises(RuntimeError, lambda: group(ms).dropout_rate(full_results=True), "full results of a group need sections")


def h_full_results(ctx, n, k, stat, nested):
    """Full results over the same k sections: per section the sum of the
    energies, the mean of the dropout rates."""
    from nilmtk.timeframe import TimeFrame
    from nilmtk.stats.totalenergyresults import TotalEnergyResults
    from nilmtk.stats.dropoutrateresults import DropoutRateResults
    with registry():
        ts = times(ctx, 2 * k)
        secs = [TimeFrame(ts[2 * i], ts[2 * i + 1]) for i in range(k)]
        ms = [stat_meter(i + 1) for i in range(n)]
        vals = [[ctx.real('v%d_%d' % (i, j), 0, 1) for j in range(k)] for i in range(n)]
        seen = []
        for i, m in enumerate(ms):
            def full(i=i, **kw):
                seen.append((i, kw))
                r = TotalEnergyResults() if stat == 'total_energy' else DropoutRateResults()
                for j, s in enumerate(secs):
                    r.append(s, {'active': vals[i][j]} if stat == 'total_energy' else {'dropout_rate': vals[i][j], 'n_samples': 10 + j})
                return r
            setattr(m, stat, full)
            m.store = type('Store', (), {'all_sections_smaller_than_chunksize': True})()
        g = group(ms[:1] + [group(ms[1:])]) if nested else group(ms)
        if nested:
            g.store = ms[0].store
            g.meters[1].store = ms[0].store
        got = getattr(g, stat)(full_results=True, sections=secs).per_period()
        ctx.expect([i for i, _ in seen] == list(range(n)), "every meter is asked once")
        ctx.expect(all(kw.get('full_results') is True and kw.get('sections') is secs for _, kw in seen), "for full results of the same sections")
        ctx.all_eq(got.index, [s.start for s in secs], "one row per section")
        for j in range(k):
            tot = sum(v[j] for v in vals)
            if stat == 'total_energy':
                ctx.eq(got['active'].iloc[j], tot, "sum of the meters' energies per section")
            else:
                ctx.eq(got['dropout_rate'].iloc[j], tot / n, "mean of the meters' dropout rates per section")


def h_per_meter(ctx, types, period, labels):
    with registry():
        ms = [stat_meter(i + 1, name='m%d' % i) for i in range(len(types))]
        es = [set_energy(ctx, m, t) for m, t in zip(ms, types)]
        df = group(ms).energy_per_meter(per_period=period, use_meter_labels=labels, sections='S')
        ctx.expect(len(df.columns) == len(ms), "one column per meter")
        for m, e, k in zip(ms, es, range(len(ms))):
            c = col(df, 'M%d' % k if labels else m.identifier)
            for t in ['active', 'apparent', 'reactive']:
                got = c[t] if t in c.index else float('nan')
                ctx.eq(got, (e[t] if period is None else e[t] * 3) if t in e else float('nan'), "energy of the meter")
            if period is None:
                want = ('total_energy', {'ac_type': 'best', 'sections': 'S'})
            else:
                want = ('average', {'ac_type': 'best', 'sections': 'S', 'use_uptime': False, 'offset_alias': period})
            ctx.expect(m.log == [want], "best AC type, same sections")


def h_remainder(ctx, types, mains_types, period):
    """What the submeters do not account for."""
    with registry():
        ms = [stat_meter(i + 1, name='m%d' % i) for i in range(len(types))]
        es = [set_energy(ctx, m, [t]) for m, t in zip(ms, types)]
        mains = stat_meter(9, site=True)
        em = {t: ctx.real('mains_' + t, 0, 1000) for t in mains_types}
        best = [t for t in ['active', 'apparent', 'reactive'] if t in mains_types][0]
        mains.energy = lambda kw: {best if kw['ac_type'] == 'best' else kw['ac_type']: em[best if kw['ac_type'] == 'best' else kw['ac_type']]}
        # the first AC type is measured as power, the others as energy
        def available(pq):
            pq = [pq] if isinstance(pq, str) else list(pq)
            return [t for k, t in enumerate(mains_types) if ('power', 'energy', 'cumulative energy')[min(k, 2)] in pq]
        mains.available_ac_types = available
        s = group(ms).energy_per_meter(mains=mains, per_period=period)
        f = 1 if period is None else 3
        tot = 0
        for m, e in zip(ms, es):
            ctx.eq(item(s, m.identifier), list(e.values())[0] * f, "energy of the meter")
            tot = tot + list(e.values())[0] * f
        common = sorted(set(types), key=lambda t: -types.count(t))
        if len(common) > 1 and types.count(common[0]) == types.count(common[1]):
            common = [t for t in common if types.count(t) == types.count(common[0])]
        else:
            common = common[:1]
        want = [em[t if t in mains_types else best] * f - tot for t in common]
        ctx.expect(disj(*[ctx.same(item(s, 'Remainder'), w) for w in want]), "mains minus the meters, in the AC type most meters use")
        ctx.expect(len(s) == len(ms) + 1, "one row per meter and the remainder")
        vals = list(s.values)
        for a, b in zip(vals, vals[1:]):
            ctx.expect(a >= b, "largest first")


def h_fraction(ctx, types):
    with registry():
        ms = [stat_meter(i + 1) for i in range(len(types))]
        es = [set_energy(ctx, m, [t], lo=1) for m, t in zip(ms, types)]
        s = group(ms).fraction_per_meter()
        tot = sum(list(e.values())[0] for e in es)
        ctx.expect(len(s) == len(ms), "one entry per meter")
        for m, e in zip(ms, es):
            ctx.eq(item(s, m.identifier), list(e.values())[0] / tot, "energy of the meter over the energy of all")


def h_top(ctx, n, k, asc, rest):
    with registry():
        ms = [stat_meter(i + 1) for i in range(n)]
        es = [set_energy(ctx, m, ['active'], lo=1)['active'] for m in ms]
        g = group(ms).select_top_k(k=k, asc=asc, group_remainder=rest)
        top = list(g.meters)
        if rest:
            others = top.pop()
            ctx.expect(others.name == 'others', "the remainder is a group named others")
            ctx.expect(sorted(m.identifier.instance for m in top + others.meters) == list(range(1, n + 1)), "every meter exactly once")
        ids = [m.identifier.instance for m in top]
        ctx.expect(len(ids) == min(k, n) and len(set(ids)) == len(ids), "k different meters")
        ctx.expect(all(m is ms[m.identifier.instance - 1] for m in top), "the meters of the group")
        e = [es[i - 1] for i in ids]
        for a, b in zip(e, e[1:]):
            ctx.expect(a <= b if asc else a >= b, "in order of energy")
        for i in range(n):
            if i + 1 not in ids:
                for x in e:
                    ctx.expect(x <= es[i] if asc else x >= es[i], "no left-out meter used more")


def h_submetered(ctx, n, deep, mains_n):
    """Only the meters directly below mains count."""
    with registry():
        mains = [stat_meter(100 + i, site=True) for i in range(mains_n)]
        em = [set_energy(ctx, m, ['active'], lo=1)['active'] for m in mains]
        top = [stat_meter(i + 1, of=100 if mains_n == 1 else 0) for i in range(n)]
        et = [set_energy(ctx, m, ['active'])['active'] for m in top]
        below = [stat_meter(50 + i, of=1) for i in range(deep)]
        for m in below:
            set_energy(ctx, m, ['active'])
        got = group(mains + below + top).proportion_of_energy_submetered()
        tot = sum(em)
        want = 0
        for e in et:
            want = want + e / tot
        ctx.eq(got, want, "share of mains measured directly below mains")
        s = set(str(kw.get('sections')) for m in mains + top for what, kw in m.log if what == 'total_energy')
        ctx.expect(s == {'good100'}, "over the good sections of mains")


def h_timeframe(ctx, n, empty):
    from nilmtk.timeframe import TimeFrame
    with registry():
        ms = [stat_meter(i + 1) for i in range(n)]
        tfs = []
        for i, m in enumerate(ms):
            a, b = times(ctx, 2, 'f%d_' % i)
            tf = TimeFrame(a, b)
            if i in empty:
                c, d = times(ctx, 2, 'w%d_' % i)
                ctx.assume(c > b)
                tf = tf.intersection(TimeFrame(c, d))
            else:
                tfs.append((a, b))
            m.get_timeframe = lambda tf=tf: tf
        got = group(ms).get_timeframe()
        if not tfs:
            ctx.expect(bool(got.empty), "no data: empty time frame")
            return
        ctx.expect(disj(*[ctx.same(got.start, a) for a, b in tfs]), "starts with a meter")
        ctx.expect(disj(*[ctx.same(got.end, b) for a, b in tfs]), "ends with a meter")
        for a, b in tfs:
            ctx.expect(conj(got.start <= a, got.end >= b), "covers every meter")


def h_split(ctx, n, num, den):
    from nilmtk.timeframe import TimeFrame
    from nilmtk.timeframegroup import TimeFrameGroup
    P = 60
    with registry():
        mains = stat_meter(1, site=True)
        ts = times(ctx, 2 * n, hi=2000)
        recs = []
        for i in range(n):
            d = (ts[2 * i + 1] - ts[2 * i]).total_seconds()
            ctx.assume(d >= P)
            k = ctx.int('records%d' % i, 1, 60)
            ctx.assume(conj(d >= k * P, d < k * P + P))
            recs.append(k)
        mains.good = TimeFrameGroup([TimeFrame(ts[2 * i], ts[2 * i + 1]) for i in range(n)])
        got = group([mains, stat_meter(2, of=1)]).train_test_split(train_fraction=num / den)
        total = sum(recs)
        ok, before = [], 0
        for i in range(n):
            # samples of section i before the split
            want = (total * num - before * den) * P          # times den
            off = (got - ts[2 * i]).total_seconds() * den
            ok.append(conj(off >= want - den, off <= want + den, want >= 0, want <= recs[i] * P * den))
            before = before + recs[i]
        ctx.expect(disj(*ok), "the given fraction of the good samples lies before the split")


def h_switches(ctx, sizes, equal):
    with registry():
        ms = [stat_meter(i + 1, of=9) for i in range(len(sizes))] + [stat_meter(9, site=True)]
        allts = []
        for i, (m, s) in enumerate(zip(ms, sizes)):
            ts = times(ctx, s, 's%d_' % i)
            allts.append(ts)
            m.switch_times = lambda thr, ts=ts: [t if ctx.symbolic else t.value for t in ts]
        ms[-1].switch_times = lambda thr: [t if ctx.symbolic else t.value for t in allts[0]]
        got = group(ms).simultaneous_switches(threshold=5)
        want = []
        for i, ts in enumerate(allts):
            for t in ts:
                if any(w[0] == t for w in want):
                    continue
                c = 0
                for us in allts:
                    for u in us:
                        if u == t:
                            c += 1
                if c >= 2:
                    want.append((t, c))
        ctx.expect(len(got) == len(want), "number of simultaneous switches")
        have = [(pd.Timestamp(k, tz='UTC') if not ctx.symbolic else k, v) for k, v in zip(got.index, got.values)]
        for t, c in want:
            ctx.expect(disj(*[conj(ctx.same(k, t), bool(v == c)) for k, v in have]), "instant and number of meters")


def h_period(ctx, n):
    """The sample period of a group is the longest of its meters."""
    with registry():
        ms = [stat_meter(i + 1) for i in range(n)]
        ps = [ctx.int('p%d' % i, 1, 600) for i in range(n)]
        for m, p in zip(ms, ps):
            m.sample_period = lambda p=p: p
        for g in (group(ms), group([group(ms[:1])] + ms[1:]), group(ms[:-1] + [group(ms[-1:])])):
            got = g.sample_period()
            ctx.expect(disj(*[ctx.same(got, p) for p in ps]), "the period of a meter")
            for p in ps:
                ctx.expect(got >= p, "the longest")


def h_pairwise(ctx, n):
    with registry():
        ms = [stat_meter(i + 1) for i in range(n)]
        vals = {}
        for i in range(n):
            for j in range(i, n):
                vals[i, j] = ctx.real('v%d%d' % (i, j))
        for i, m in enumerate(ms):
            m.correlation = lambda o, i=i: vals[min(i, ms.index(o)), max(i, ms.index(o))]
            m.entropy = lambda i=i: vals[i, i]
        df = group(ms).pairwise_correlation()
        for i in range(n):
            c = col(df, ms[i].identifier)
            for j in range(n):
                ctx.eq(item(c, ms[j].identifier), vals[min(i, j), max(i, j)], "value of the pair")
        s = group(ms).entropy_per_meter()
        for i in range(n):
            ctx.eq(item(s, ms[i].identifier), vals[i, i], "value of the meter")


def cases(tier):
    t = tier == 'thorough'
    A, B, R = 'active', 'apparent', 'reactive'
    cs = [Case(h_total, n=n, types=ty, nested=ne) for n, ty, ne in ((1, [A], False), (2, [A, R], False), (3, [A], False), (3, [B, A], True))]
    cs += [Case(h_dropout, n=n) for n in (1, 2, 3)] + [Case(h_full)]
    cs += [Case(h_full_results, n=n, k=k, stat=st, nested=ne) for n, k, ne in ((1, 1, False), (2, 2, False), (3, 1, False), (3, 1, True)) for st in ('total_energy', 'dropout_rate')]
    cs += [Case(h_per_meter, types=ty, period=p, labels=l) for ty in ([[A]], [[A], [B], [A]], [[A, R], [B]]) for p, l in ((None, False), ('D', False), (None, True))]
    cs += [Case(h_remainder, types=ty, mains_types=mt, period=p) for ty, mt, p in (
        ([A], [A], None), ([A, A], [B, A], None), ([A, B, B], [A, B], None), ([B, A, B], [A, R], 'D'), ([B, B, A], [A], None), ([A, B], [A, B], None),
        ([R, B, R], [R, A, B], 'D'), ([B, B], [R, A], None), ([B, B], [A, R, B], None))]
    cs += [Case(h_fraction, types=ty) for ty in ([A], [A, A], [A, B, R])]
    cs += [Case(h_top, n=n, k=k, asc=a, rest=r) for n, k, a, r in ((1, 1, False, False), (3, 1, False, False), (3, 2, False, True), (3, 2, True, False), (3, 5, False, False),
                                                                   (4, 2, False, True))]
    cs += [Case(h_submetered, n=n, deep=d, mains_n=mn) for n, d, mn in ((1, 0, 1), (2, 1, 1), (2, 0, 2), (3, 2, 1))]
    cs += [Case(h_timeframe, n=n, empty=e) for n, e in ((1, ()), (2, ()), (3, ()), (2, (0,)), (2, (1,)), (3, (0, 1)), (3, (1,)), (2, (0, 1)))]
    cs += [Case(h_split, n=n, num=a, den=b) for n in ((1, 2, 3) if not t else (1, 2, 3, 4)) for a, b in ((1, 4), (1, 2), (4, 5))]
    cs += [Case(h_switches, sizes=s, equal=True) for s in ((1, 1), (2, 1), (1, 1, 1)) + (((2, 2), (2, 1, 1)) if t else ())]
    cs += [Case(h_period, n=n) for n in (1, 2, 3)]
    cs += [Case(h_pairwise, n=n) for n in (1, 2, 3)]
    return cs
