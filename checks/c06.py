"""C06 splitting and merging time frames."""
from .tf_common import *

EXPLANATION = ("TimeFrame.split, split_timeframes and merge_timeframes run symbolically on frames with arbitrary "
               "bounds, duration thresholds and gaps; the pieces / merged frames are compared with the exact "
               "partition / coalescing of the instants.")
BOUNDS = {"pieces per split": "up to 4 (6 thorough)", "frames merged": "up to 4 (5 thorough), sorted and disjoint",
          "gap": "0..1000 s", "duration threshold": "any positive real number of seconds"}
ASSUMPTIONS = BASE_ASSUMPTIONS


def _check_partition(ctx, pieces, tf, d):
    ctx.expect(len(pieces) >= 1, "no pieces")
    ctx.eq(pieces[0].start, tf.start, "first piece does not start at the start")
    ctx.eq(pieces[-1].end, tf.end, "last piece does not end at the end")
    for p in pieces:
        ctx.expect(not p.empty and p.start < p.end, "empty piece")
        ctx.expect((p.end - p.start).total_seconds() <= d, "piece longer than the threshold")
    for p, q in zip(pieces, pieces[1:]):
        ctx.eq(q.start, p.end, "pieces not adjacent")
        ctx.expect(not p.include_end, "inner piece claims the first instant of the next one")
    ctx.expect(bool(pieces[-1].include_end) == bool(tf.include_end), "last instant of the frame gained or lost")


def h_split(ctx, k):
    tf = mk_tf(ctx, 'a', ('both',))
    d = ctx.seconds('d', 0.001, 100000)
    ctx.assume(tf.timedelta.total_seconds() <= d * k)
    pieces = list(tf.split(d))
    _check_partition(ctx, pieces, tf, d)
    ctx.expect(len(pieces) <= k, "more pieces than needed")


def h_split_rejects(ctx):
    tf = mk_tf(ctx, 'a', ('empty', 'none', 'disabled'))
    d = ctx.seconds('d', 1, 100)
    ctx.raises(ValueError, lambda: list(tf.split(d)), "a frame that cannot be split was split")


def h_split_many(ctx, n, k):
    from nilmtk.timeframe import split_timeframes
    tfs = [mk_tf(ctx, 'a%d' % i, ('both',), include_end=False) for i in range(n)]
    d = ctx.seconds('d', 1, 100000)
    for tf in tfs:
        ctx.assume(tf.timedelta.total_seconds() <= d * k)
    pieces = list(split_timeframes(tfs, d))
    i = 0
    for tf in tfs:
        mine = []
        while i < len(pieces):
            mine.append(pieces[i])
            i += 1
            if ctx.same(mine[-1].end, tf.end):
                break
        ctx.expect(len(mine) > 0, "a frame vanished in the split")
        _check_partition(ctx, mine, tf, d)
    ctx.expect(i == len(pieces), "extra pieces")


def _sorted_disjoint(ctx, n):
    from nilmtk.timeframe import TimeFrame
    out, prev = [], None
    for i in range(n):
        s, e = ctx.time('s%d' % i), ctx.time('e%d' % i)
        ctx.assume(s < e)
        if prev is not None:
            ctx.assume(prev <= s)
        prev = e
        out.append(TimeFrame(s, e))
    return out


def h_merge(ctx, n):
    from nilmtk.timeframe import merge_timeframes
    tfs = _sorted_disjoint(ctx, n)
    bounds = [(t.start, t.end) for t in tfs]
    gap = ctx.seconds('gap', 0, 1000)
    use_gap = ctx.bool('gap_given')
    got = merge_timeframes(list(tfs), gap) if use_gap else merge_timeframes(list(tfs))
    g = gap if use_gap else 0
    want = []
    for s, e in bounds:
        if want and (s - want[-1][1]).total_seconds() <= g:
            want[-1] = (want[-1][0], e)
        else:
            want.append((s, e))
    ctx.expect(len(got) == len(want), "merged into the wrong number of frames")
    for t, (s, e) in zip(got, want):
        ctx.eq(t.start, s, "merged start")
        ctx.eq(t.end, e, "merged end")


def h_split_merge(ctx, k):
    from nilmtk.timeframe import merge_timeframes
    tf = mk_tf(ctx, 'a', ('both',), include_end=False)
    d = ctx.seconds('d', 1, 100000)
    ctx.assume(tf.timedelta.total_seconds() <= d * k)
    got = merge_timeframes(list(tf.split(d)))
    ctx.expect(len(got) == 1, "split then merge is not one frame")
    ctx.expect(got[0] == tf, "split then merge is not the original frame")


def h_dicts(ctx, n):
    from nilmtk.timeframe import list_of_timeframe_dicts, list_of_timeframes_from_list_of_dicts
    tfs = _sorted_disjoint(ctx, n)
    back = list_of_timeframes_from_list_of_dicts(list_of_timeframe_dicts(tfs))
    ctx.expect(len(back) == n, "frames lost in serialisation")
    for a, b in zip(tfs, back):
        ctx.expect(a == b, "frame changed by serialisation")


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_split, k=k) for k in ((1, 2, 4) if not t else (1, 2, 3, 4, 6))]
    cs += [Case(h_split_rejects), Case(h_split_many, n=2, k=2), Case(h_split_merge, k=3 if not t else 5),
           Case(h_dicts, n=2)]
    cs += [Case(h_merge, n=n) for n in ((0, 1, 2, 3, 4) if not t else (0, 1, 2, 3, 4, 5))]
    return cs
