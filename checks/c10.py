"""C10 combinatorial optimisation and the mean baseline."""
import contextlib
import io

from .stream import *

EXPLANATION = ("find_nearest and CO.disaggregate_chunk run symbolically with arbitrary learnt states and arbitrary mains "
               "readings: z3 proves that no combination of appliance states is closer to the reading than the one "
               "returned.  Mean.partial_fit/disaggregate_chunk run on arbitrary readings with missing samples.")
BOUNDS = {"known values": "1..4", "appliances": "1..3", "states per appliance": "2..3 (one is off)", "readings": "1..2 per chunk, up to 2 chunks",
          "values": "arbitrary reals"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["the learnt states are arbitrary: k-means itself is outside the encoding",
                                  "sklearn.utils.extmath.cartesian is trusted (its real code runs on the proxies)"]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def h_nearest(ctx, m, n, two_d):
    from nilmtk.utils import find_nearest
    known = [ctx.real('k%d' % i, -1000, 1000) for i in range(m)]
    test = [ctx.real('x%d' % i, -2000, 2000) for i in range(n)]
    arr = ctx.array(test)
    if two_d:
        arr = arr.reshape(-1, 1)
    idx, res = find_nearest(ctx.array(known), arr)
    ctx.expect(idx.shape == arr.shape and res.shape == arr.shape, "one answer per value")
    for x, i, r in zip(test, np.asarray(idx).ravel(), np.asarray(res).ravel()):
        ctx.expect(0 <= int(i) < m, "index into the known values")
        ctx.eq(r, x - known[int(i)], "residual is the difference to the chosen value")
        for k in known:
            ctx.expect(abs(x - known[int(i)]) <= abs(x - k), "no known value is closer")


def model(ctx, states):
    from nilmtk.disaggregate import CO
    co = CO({})
    st = [[0.0 if j == 0 else ctx.real('s%d_%d' % (a, j), 0, 4000) for j in range(k)] for a, k in enumerate(states)]
    for s in st:
        for a, b in zip(s, s[1:]):
            ctx.assume(a < b)
    co.model = [{'states': ctx.array(s), 'appliance_name': 'app%d' % a} for a, s in enumerate(st)]
    return co, st


def combos(st):
    out = [[]]
    for s in st:
        out = [c + [x] for c in out for x in s]
    return out


def h_co(ctx, states, chunks):
    co, st = model(ctx, states)
    dfs, k = [], 0
    for c in chunks:
        v = [ctx.real('x%d' % (k + i), 0, 10000) for i in range(c)]
        dfs.append((v, frame(ctx, [conc_ts(ctx, k + i) for i in range(c)], {COL: v})))
        k += c
    with quiet():
        preds = co.disaggregate_chunk([d for _, d in dfs])
    ctx.expect(len(preds) == len(chunks), "one prediction per chunk")
    for (v, df), p in zip(dfs, preds):
        ctx.expect(list(p.columns) == ['app%d' % a for a in range(len(states))], "one column per appliance")
        ctx.expect(p.index.equals(df.index), "predictions carry the timestamps of the mains")
        for i, x in enumerate(v):
            got = [p.iloc[i, a] for a in range(len(states))]
            for a, g in enumerate(got):
                ctx.expect(disj(*[ctx.same(g, s) for s in st[a]]), "a prediction is one of the appliance's states")
            for c in combos(st):
                slack = 0 if ctx.symbolic else 0.01
                ctx.expect(abs(x - sum(got)) <= abs(x - sum(c)) + slack, "no combination of states is closer to the mains")


def conc_ts(ctx, i):
    return pd.Timestamp('2020-01-01', tz='UTC') + pd.Timedelta(minutes=i)


def h_co_grow(ctx):
    """Appliances learnt after a first disaggregation take part in the next."""
    co, st = model(ctx, (2,))
    x = ctx.real('x', 0, 10000)
    df = frame(ctx, [conc_ts(ctx, 0)], {COL: [x]})
    with quiet():
        co.disaggregate_chunk([df])
        extra = [0.0, ctx.real('e', 1, 4000)]
        co.model.append({'states': ctx.array(extra), 'appliance_name': 'late'})
        p = co.disaggregate_chunk([df])[0]
    ctx.expect(list(p.columns) == ['app0', 'late'], "all learnt appliances are predicted")
    for c in combos(st + [extra]):
        slack = 0 if ctx.symbolic else 0.01
        ctx.expect(abs(x - (p.iloc[0, 0] + p.iloc[0, 1])) <= abs(x - sum(c)) + slack, "no combination is closer")


def h_mean(ctx, calls, test, same_times=False, jointly=False, signed=False):
    """calls: per partial_fit, per appliance, sizes of the frames."""
    from nilmtk.disaggregate import Mean
    m = Mean({'chunk_wise_training': False} if jointly else {})
    tot, cnt = {}, {}
    for k, call in enumerate(calls):
        apps = []
        for a, sizes in enumerate(call):
            fr = []
            for f, n in enumerate(sizes):
                v = []
                for i in range(n):
                    nm = '%d_%d_%d_%d' % (k, a, f, i)
                    v.append(float('nan') if i == 1 and ctx.bool('nan' + nm) else ctx.real('p' + nm, -3000 if signed else 0, 3000))
                for x in v:
                    if not ctx.isnan(x):
                        tot[a] = tot.get(a, 0) + x
                        cnt[a] = cnt.get(a, 0) + 1
                fr.append(frame(ctx, [conc_ts(ctx, i if same_times else 100 * k + 10 * f + i) for i in range(n)], {COL: v}))
            apps.append(('app%d' % a, fr))
        with quiet():
            m.partial_fit([apps[0][1][0]], apps)
    dfs = [frame(ctx, [conc_ts(ctx, 1000 + 50 * j + i) for i in range(n)], {COL: [1.0] * n}) for j, n in enumerate(test)]
    with quiet():
        preds = m.disaggregate_chunk(dfs)
    ctx.expect(len(preds) == len(test), "one prediction per chunk")
    for df, p in zip(dfs, preds):
        ctx.expect(list(p.columns) == ['app%d' % a for a in sorted(cnt)], "one column per appliance")
        ctx.expect(p.index.equals(df.index), "predictions carry the timestamps of the mains")
        for a in cnt:
            for g in p['app%d' % a]:
                # sums are truncated to whole watts once per training call
                ctx.expect(abs(g * cnt[a] - tot[a]) <= len(calls), "the prediction is the mean of the training samples")


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_nearest, m=m, n=n, two_d=d) for m, n, d in ((1, 1, False), (2, 1, False), (3, 1, True), (4, 1, False), (3, 2, False)) +
          (((5, 1, False), (4, 2, True)) if t else ())]
    cs += [Case(h_co, states=s, chunks=c) for s, c in (((2,), (1,)), ((3,), (2,)), ((2, 2), (1,)), ((2, 2), (1, 1)), ((3, 2), (1,)), ((2, 2, 2), (1,))) +
           ((((3, 3), (1,)), ((2, 2, 2), (1, 1)), ((3, 2), (2,))) if t else ())]
    cs += [Case(h_co_grow)]
    cs += [Case(h_mean, calls=(((3,),),), test=(2,)),
           Case(h_mean, calls=(((2,), (3,)), ((2,), (2,))), test=(1, 2)),
           Case(h_mean, calls=(((2, 2),),), test=(2,)),
           # several buildings recorded over the same period, feeding in power
           Case(h_mean, calls=(((2, 3),),), test=(1,), same_times=True), Case(h_mean, calls=(((2,),), ((2,),)), test=(1,), same_times=True, jointly=True),
           Case(h_mean, calls=(((2, 1),),), test=(1,), signed=True)]
    return cs
