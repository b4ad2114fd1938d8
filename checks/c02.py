"""C02 good sections."""
from .stream import *

EXPLANATION = ("get_good_sections and the GoodSections node + GoodSectionsResults run symbolically on rows at arbitrary "
               "increasing instants, arbitrary rows missing (NaN), arbitrary max_sample_period, cut into chunks in every "
               "listed way; the result is compared with the maximal runs of valid samples whose gaps are at most "
               "max_sample_period, computed on the unchunked rows.")
BOUNDS = {"rows": "up to 5 single chunk, up to 6 chunked (7 thorough)", "chunk sizes": "1..4", "look-ahead rows": "2 and 10",
          "instants": "arbitrary reals, strictly increasing"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["chunk streams follow the contract proved for the HDF5 store (C01): consecutive chunks "
                                  "share one row, look_ahead holds the rows that follow"]


def oracle(ts, m):
    """Maximal runs of samples at most m seconds apart (at least 2 samples)."""
    out, run = [], []
    for t in ts:
        if run and (t - run[-1]).total_seconds() <= m:
            run.append(t)
        else:
            if len(run) > 1:
                out.append((run[0], run[-1]))
            run = [t]
    if len(run) > 1:
        out.append((run[0], run[-1]))
    return out


def check_sections(ctx, got, want):
    ctx.expect(len(got) == len(want), "wrong number of good sections")
    for g, (s, e) in zip(got, want):
        ctx.eq(g.start, s, "good section starts at the wrong instant")
        ctx.eq(g.end, e, "good section ends at the wrong instant")


def h_single(ctx, n, nan, order):
    from nilmtk.stats.goodsections import get_good_sections
    ts = times(ctx, n)
    m = ctx.seconds('m', 1, 5000)
    vals = [float('nan') if nan and ctx.bool('nan%d' % i) else 1.0 for i in range(n)]
    valid = [t for t, v in zip(ts, vals) if v == v]
    df = frame(ctx, ts, {COL: vals})
    df = df.iloc[list(order)]
    got = get_good_sections(df, m)
    check_sections(ctx, got, oracle(valid, m))


def h_single_2cols(ctx, n):
    """A row counts as a sample only if all its measurements are present."""
    from nilmtk.stats.goodsections import get_good_sections
    ts = times(ctx, n)
    m = ctx.seconds('m', 1, 5000)
    a = [float('nan') if ctx.bool('a%d' % i) else 1.0 for i in range(n)]
    b = [float('nan') if ctx.bool('b%d' % i) else 1.0 for i in range(n)]
    valid = [t for t, x, y in zip(ts, a, b) if x == x and y == y]
    df = frame(ctx, ts, {COL: a, ('power', 'apparent'): b})
    check_sections(ctx, get_good_sections(df, m), oracle(valid, m))


def run_node(ctx, chunks, m):
    from nilmtk.stats import GoodSections
    node = GoodSections(Upstream(chunks, {'device': {'max_sample_period': m}}))
    node.run()
    return node.results


def h_chunked(ctx, n, c, la, nan):
    ts = times(ctx, n)
    m = ctx.seconds('m', 1, 5000)
    vals = [float('nan') if i in nan and ctx.bool('nan%d' % i) else 1.0 for i in range(n)]
    valid = [t for t, v in zip(ts, vals) if v == v]
    df = frame(ctx, ts, {COL: vals})
    res = run_node(ctx, chunked(df, c, la), m)
    got = res.combined()
    check_sections(ctx, got, oracle(valid, m))
    if len(got):
        ctx.expect(got[-1].include_end, "the last sample of the data is excluded from its good section")
        ctx.expect(not any(g.include_end for g in got[:-1]), "include_end on an inner section")
    from nilmtk.timeframe import TimeFrame
    kept = [TimeFrame().from_dict(d) for d in res.to_dict()['statistics']['good_sections']]
    check_sections(ctx, kept, oracle(valid, m))


def h_chunked_2cols(ctx, n, c, la, first, second):
    """As h_chunked with two columns: a row with a missing measurement is no
    sample, not even in the look-ahead."""
    ts = times(ctx, n)
    m = ctx.seconds('m', 1, 5000)
    a = [float('nan') if i in first and ctx.bool('a%d' % i) else 1.0 for i in range(n)]
    b = [float('nan') if i in second and ctx.bool('b%d' % i) else 1.0 for i in range(n)]
    valid = [t for t, x, y in zip(ts, a, b) if x == x and y == y]
    df = frame(ctx, ts, {COL: a, ('power', 'apparent'): b})
    check_sections(ctx, run_node(ctx, chunked(df, c, la), m).combined(), oracle(valid, m))


def h_node_reuse(ctx, n, c):
    """Running two meters through fresh nodes is independent of history, and
    combined() may be read more than once."""
    ts = times(ctx, n)
    m = ctx.seconds('m', 1, 5000)
    df = frame(ctx, ts, {COL: [1.0] * n})
    res = run_node(ctx, chunked(df, c, 10), m)
    res.combined()
    check_sections(ctx, res.combined(), oracle(ts, m))


def h_two_sections(ctx, n1, n2):
    """Two separately loaded stretches: a good section never spans the hole
    between them unless the hole itself is short."""
    ts = times(ctx, n1 + n2)
    m = ctx.seconds('m', 1, 5000)
    a = frame(ctx, ts[:n1], {COL: [1.0] * n1})
    b = frame(ctx, ts[n1:], {COL: [1.0] * n2})
    ctx.assume((ts[n1] - ts[n1 - 1]).total_seconds() > m)
    res = run_node(ctx, chunked(a, 2, 10) + chunked(b, 2, 10), m)
    check_sections(ctx, res.combined(), oracle(ts[:n1], m) + oracle(ts[n1:], m))


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_single, n=n, nan=True, order=tuple(range(n))) for n in ((0, 1, 2, 3, 4) if not t else (0, 1, 2, 3, 4, 5))]
    cs += [Case(h_single, n=5 if not t else 6, nan=False, order=tuple(range(5 if not t else 6))),
           Case(h_single, n=3, nan=False, order=(2, 0, 1)), Case(h_single_2cols, n=3)]
    shapes = [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (5, 3)] + ([(6, 2), (6, 1), (6, 3)] if t else [(6, 2)])
    cs += [Case(h_chunked, n=n, c=c, la=la, nan=()) for n, c in shapes for la in (2, 10)]
    cs += [Case(h_chunked, n=4, c=2, la=10, nan=(0, 1, 2, 3)), Case(h_chunked, n=5, c=2, la=10, nan=(1, 2, 3) if not t else tuple(range(5)))]
    cs += [Case(h_chunked_2cols, n=4, c=2, la=10, first=(3,), second=(2, 3)), Case(h_chunked_2cols, n=5, c=2, la=10, first=(3,), second=(1,))]
    cs += [Case(h_node_reuse, n=4, c=2), Case(h_two_sections, n1=2, n2=2), Case(h_two_sections, n1=3, n2=2)]
    return cs
