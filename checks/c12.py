"""C12 Hart85: edges, pairing, assignment."""
import contextlib
import io

from .stream import *
from .standins import EXTRA

EXPLANATION = ("find_steady_states, Hart85.pair (PairBuffer), assign_power_from_states, min_rmse_column and disaggregate_chunk "
               "run symbolically on arbitrary readings/transitions/states; the edges are compared with the differences of "
               "consecutive steady levels, the pairs with the definition of Hart 85 p. 32, predictions with the latest event "
               "of the matching centroid.")
BOUNDS = {"samples": "1..5 (6 thorough)", "measurements": "1..2", "transitions": "2..4, buffer 2..20", "centroids": "1..2",
          "thresholds": "arbitrary (edges), defaults and arbitrary tolerance (pairing)"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["mean-shift clustering is outside the encoding: centroids are arbitrary",
                                  "sklearn.metrics.mean_squared_error stand-in in symbolic runs",
                                  "event samples themselves and the last sample of a chunk are outside the claim"]
R = ('power', 'reactive')


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def ts(i):
    return pd.Timestamp('2020-01-01', tz='UTC') + pd.Timedelta(minutes=i)


def levels(rows, thr):
    """[(index of the row where the change begins, mean power of the level)]"""
    n, k = len(rows), len(rows[0])
    changing, prev = [], [0] * k
    for r in rows:
        changing.append(any(bool(abs(a - b) > thr) for a, b in zip(r, prev)))
        prev = r
    out, i = [], 0
    while i < n and not changing[i]:
        i += 1
    out.append((0, mean(rows[:i], k)))
    while i < n:
        start = i
        while i < n and changing[i]:
            i += 1
        first = i - 1
        while i < n and not changing[i]:
            i += 1
        out.append((start, mean(rows[first:i], k)))
    return out


def mean(rows, k):
    if not rows:
        return [0] * k
    return [sum(r[j] for r in rows) / len(rows) for j in range(k)]


def edges(rows, thr, noise):
    k = len(rows[0])
    prev, out = [0] * k, []
    for at, lev in levels(rows, thr):
        d = [a - b for a, b in zip(lev, prev)]
        if any(bool(abs(x) > noise) for x in d):
            out.append((at, d, lev))
        prev = lev
    if out and out[0][0] == 0 and any(bool(x > noise) for x in out[0][2]):
        out = out[1:]
    return out


def h_steady(ctx, n, k):
    from nilmtk.feature_detectors.steady_states import find_steady_states
    rows = [[ctx.real('p%d_%d' % (i, j), -500, 5000) for j in range(k)] for i in range(n)]
    thr, noise = ctx.real('thr', 1, 100), ctx.real('noise', 1, 500)
    df = frame(ctx, [ts(i) for i in range(n)], {c: [r[j] for r in rows] for j, c in enumerate((COL, R)[:k])})
    with quiet():
        ss, tr = find_steady_states(df, state_threshold=thr, noise_level=noise)
    want = edges(rows, thr, noise)
    ctx.expect(len(tr) == len(want) and len(ss) == len(want), "one transition and one steady state per edge")
    ctx.expect(list(tr.index) == [ts(w[0]) for w in want] and list(ss.index) == [ts(w[0]) for w in want],
               "an edge carries the time at which the change begins")
    if want:
        ctx.expect(list(tr.columns) == ['active transition', 'reactive transition'][:k], "columns of transitions")
        ctx.expect(list(ss.columns) == ['active average', 'reactive average'][:k], "columns of steady states")
    for i, (_, d, lev) in enumerate(want):
        for j in range(k):
            ctx.eq(tr.iloc[i, j], d[j], "a transition is the difference of consecutive levels")
            ctx.eq(ss.iloc[i, j], lev[j], "a steady state is the mean of its samples")


def tol(a, b, mt, pt, large):
    m = abs(a) if abs(a) >= abs(b) else abs(b)
    return mt if m < large else pt * m


def hart(legacy=False):
    if legacy:
        from nilmtk.legacy.disaggregate import Hart85
        return Hart85()
    from nilmtk.disaggregate import Hart85
    return Hart85({})


def h_pair(ctx, n, k, buf, mt, sym_tol, signs=None, legacy=False):
    h = hart(legacy)
    h.columns = [COL, R][:k]
    pt, large = 0.25, 1000
    if sym_tol:
        mt = ctx.real('mt', 1, 500)
    tr = [[ctx.real('d%d_%d' % (i, j), -3000, 3000) for j in range(k)] for i in range(n)]
    for t, g in zip(tr, signs or ()):
        ctx.assume(t[0] > 0 if g == '+' else t[0] <= 0)
    data = {c: ctx.array([t[j] for t in tr]) for j, c in enumerate(['active transition', 'reactive transition'][:k])}
    h.transients = pd.DataFrame(data, index=pd.DatetimeIndex([ts(i) for i in range(n)]))
    with quiet():
        got = h.pair(buf, mt, pt, large)
    # oracle: a new transition is paired at once with the latest unpaired ON
    used, held, want = set(), [], []
    for i in range(n):
        if len(held) == buf:
            held = [x for x in held if x not in used]
        held = (held + [i])[-buf:]
        for x in reversed(held[:-1]):
            if x in used or not tr[x][0] > 0:
                continue
            if all(bool(abs(a + b) < tol(a, b, mt, pt, large)) for a, b in zip(tr[x], tr[i])):
                used |= {x, i}
                want.append((x, i))
                break
    ctx.expect(len(got) == len(want), "number of pairs")
    names = ['Active', 'Reactive'][:k]
    for r, (x, y) in enumerate(want):
        ctx.expect(got['T1 Time'].iloc[r] == ts(x) and got['T2 Time'].iloc[r] == ts(y), "ON and OFF which belong together")
        for j, nm in enumerate(names):
            ctx.eq(got['T1 ' + nm].iloc[r], tr[x][j], "power of the ON transition")
            ctx.eq(got['T2 ' + nm].iloc[r], tr[y][j], "power of the OFF transition")


def model(cents, k=1, legacy=False):
    h = hart(legacy)
    h.columns = [COL, R][:k]
    h.centroids = pd.DataFrame(cents, columns=h.columns)
    return h


def h_assign(ctx, n, cents, k, legacy=False):
    h = model(cents, k, legacy)
    if not ctx.symbolic:
        mk = lambda v: np.array(v)
    st = [[ctx.int('s%d_%d' % (i, a), -1, 1) for i in range(n)] for a in range(len(cents))]
    prev = {a: ctx.int('prev%d' % a, -1, 1) for a in range(len(cents))}
    states = pd.DataFrame({a: (ctx.array(s) if ctx.symbolic else np.array(s, dtype=int)) for a, s in enumerate(st)},
                          index=pd.DatetimeIndex([ts(i) for i in range(n)]))
    di = h.assign_power_from_states(states, prev)
    ctx.expect(list(di) == list(range(len(cents))), "one series per centroid")
    for a, s in enumerate(st):
        ctx.expect(len(di[a]) == n, "one value per sample")
        cur = None
        for i in range(n - 1):
            if s[i] != -1:
                cur = bool(s[i] == 1)
                continue
            on = bool(prev[a] == 1) if cur is None else cur
            want = [int(x) for x in cents[a]] if on else [0] * k
            ctx.all_eq(list(np.atleast_1d(di[a][i])), want, "power follows the latest event")


def h_rmse(ctx, n, m, cols):
    h = model([[100.0]])
    t = pd.DataFrame({j: ctx.array([ctx.real('a%d_%d' % (j, i), 0, 3000) for i in range(n)]) for j in range(cols)})
    g = [ctx.real('g%d' % i, 0, 3000) for i in range(m)]
    gt = pd.DataFrame({'active': ctx.array(g)})
    got = h.min_rmse_column(t, gt)
    ctx.expect(0 <= int(got) < cols, "a column")
    k = min(n, m)
    err = [sum((t[j].iloc[i] - g[i]) * (t[j].iloc[i] - g[i]) for i in range(k)) for j in range(cols)]
    for e in err:
        ctx.expect(err[int(got)] <= e + (0 if ctx.symbolic else 1e-6 * (1 + abs(e))), "no other column is closer to the appliance")


def h_disagg(ctx, chunks, cents, match):
    """Each chunk on its own: nearest centroid, latest event, same index."""
    h = model([[c] for c in cents])
    h.state_threshold, h.noise_level = 15, 70
    h.appliances = ['app%d' % a for a in range(len(match))]
    h.best_matches = {a: m for a, m in zip(h.appliances, match)}
    dfs, vals, n0 = [], [], 0
    for c in chunks:
        v = [ctx.real('p%d' % (n0 + i), 0, 4000) for i in range(c)]
        vals.append(v)
        dfs.append(frame(ctx, [ts(n0 + i) for i in range(c)], {COL: v}))
        n0 += c
    with quiet():
        preds = h.disaggregate_chunk(dfs)
    ctx.expect(len(preds) == len(chunks), "one prediction per chunk")
    for p, df, v in zip(preds, dfs, vals):
        ctx.expect(p.index.equals(df.index), "predictions carry the timestamps of the mains")
        ctx.expect(list(p.columns) == h.appliances, "one column per appliance")
        ev = {}
        for at, d, _ in edges([[x] for x in v], 15, 70):
            x = abs(d[0])
            best = 0
            for j in range(1, len(cents)):
                if abs(x - cents[j]) < abs(x - cents[best]):
                    best = j
            ev[at] = (best, bool(d[0] > 0))
        for a, m in enumerate(match):
            cur, last = None, ev.get(len(v) - 1)
            for i in range(len(v) - 1):
                if i in ev and ev[i][0] == m:
                    cur = ev[i][1]
                    continue
                if cur is None:
                    continue
                ctx.eq(p.iloc[i, a], int(cents[m]) if cur else 0, "power follows the latest event of the centroid")


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_steady, n=n, k=1) for n in ((1, 2, 3, 4) if not t else (1, 2, 3, 4, 5))]
    cs += [Case(h_steady, n=n, k=2) for n in ((1, 2) if not t else (1, 2, 3))]
    cs += [Case(h_pair, n=n, k=1, buf=b, mt=100, sym_tol=s) for n, b, s in ((2, 20, True), (3, 20, False), (3, 2, True)) +
           (((4, 20, False), (4, 2, False), (4, 3, False)) if t else ())]
    cs += [Case(h_pair, n=n, k=1, buf=3, mt=100, sym_tol=False, signs=g) for n, g in ((4, '++--'),) + (((5, '++-+-'), (5, '++---')) if t else ())]
    cs += [Case(h_pair, n=2, k=2, buf=20, mt=100, sym_tol=False)]
    cs += [Case(h_assign, n=n, cents=c, k=k) for n, c, k in ((1, [[120.7]], 1), (3, [[120.7]], 1), (4, [[120.7]], 1), (3, [[120.0], [2000.0]], 1),
                                                           (3, [[120.7, 30.2]], 2)) + (((5, [[120.7]], 1), (6, [[120.7]], 1)) if t else ())]
    cs += [Case(h_rmse, extra=EXTRA, n=n, m=m, cols=c) for n, m, c in ((2, 2, 2), (1, 2, 3), (2, 1, 2))]
    cs += [Case(h_disagg, chunks=c, cents=ce, match=m) for c, ce, m in (((3,), (100.0, 2000.0), (1, 0)), ((2, 2), (300.0,), (0,)),
                                                                       ((4,), (300.0,), (0,))) + ((((4,), (100.0, 2000.0), (1, 0)),) if t else ())]
    return cs
