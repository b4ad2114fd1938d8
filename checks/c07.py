"""C07 TimeFrameGroup set operations."""
from .stream import times
from .tf_common import *

EXPLANATION = ("Groups of arbitrary disjoint sorted frames are intersected, measured and filtered symbolically; for an "
               "arbitrary instant t membership of the result is compared with set semantics.")
BOUNDS = {"frames per group": "up to 3 x 2 (3 x 3 thorough)", "threshold": "any real"}
ASSUMPTIONS = BASE_ASSUMPTIONS


def mk_group(ctx, name, n, include_end=False):
    from nilmtk.timeframe import TimeFrame
    from nilmtk.timeframegroup import TimeFrameGroup
    out, prev = [], None
    for i in range(n):
        s, e = ctx.time('%ss%d' % (name, i)), ctx.time('%se%d' % (name, i))
        ctx.assume(s < e)
        if prev is not None:
            ctx.assume(prev <= s)
        prev = e
        tf = TimeFrame(s, e)
        if include_end and i == n - 1:
            tf.include_end = ctx.bool('%si%d' % (name, i))
        out.append(tf)
    return TimeFrameGroup(out)


def member(g, t):
    return disj(False, *[contains(x, t) for x in g])


def h_intersection(ctx, n, m):
    a, b = mk_group(ctx, 'a', n), mk_group(ctx, 'b', m)
    ka = [(x.start, x.end) for x in a]
    i = a.intersection(b)
    t = ctx.time('t', -10, 200000)
    ctx.expect(iff(member(i, t), conj(member(a, t), member(b, t))), "intersection is not the common instants")
    for x in i:
        ctx.expect(not x.empty and x.start < x.end, "empty frame in an intersection")
    for x, y in zip(i, i[1:]):
        ctx.expect(x.end <= y.start, "intersection unsorted or overlapping")
    from nilmtk.timeframegroup import TimeFrameGroup
    ctx.expect(isinstance(i, TimeFrameGroup), "intersection is not a group")
    ctx.expect(len(a) == len(ka) and all(x.start is k[0] or x.start == k[0] for x, k in zip(a, ka)), "operand changed")


def open_group(ctx, name, kinds):
    """Sorted disjoint frames, the first possibly without a start and the last
    possibly without an end."""
    from nilmtk.timeframe import TimeFrame
    from nilmtk.timeframegroup import TimeFrameGroup
    b = iter(times(ctx, 2 * len(kinds), name))
    out = []
    for k in kinds:
        s, e = next(b), next(b)
        out.append(TimeFrame(None if k in ('end', 'none') else s, None if k in ('start', 'none') else e))
    return TimeFrameGroup(out)


def h_open(ctx, a, b):
    """Frames without bounds are as good as any other."""
    x, y = open_group(ctx, 'a', a), open_group(ctx, 'b', b)
    i = x.intersection(y)
    t = ctx.time('t', -10, 200000)
    ctx.expect(iff(member(i, t), conj(member(x, t), member(y, t))), "intersection is not the common instants")
    ctx.expect(not any(f.empty for f in i), "empty frame in an intersection")


def h_uptime(ctx, n):
    a = mk_group(ctx, 'a', n)
    tot = 0
    for x in a:
        tot = tot + (x.end - x.start).total_seconds()
    ctx.eq(a.uptime().total_seconds(), tot, "uptime is not the sum of durations")


def h_remove(ctx, n):
    a = mk_group(ctx, 'a', n)
    th = ctx.seconds('th', 0, 1000)
    keep = [x for x in a if (x.end - x.start).total_seconds() >= th]
    r = a.remove_shorter_than(th)
    ctx.expect(len(r) == len(keep) and all(x == y for x, y in zip(r, keep)), "kept the wrong frames")
    ctx.expect(len(a) == n, "operand changed")


def h_self(ctx, n):
    """A group intersected with itself or with one covering frame is itself."""
    from nilmtk.timeframe import TimeFrame
    from nilmtk.timeframegroup import TimeFrameGroup
    a = mk_group(ctx, 'a', n)
    ctx.expect([(x.start, x.end) for x in a.intersection(a)] == [(x.start, x.end) for x in a], "not idempotent")
    whole = TimeFrameGroup([TimeFrame()])
    ctx.expect([(x.start, x.end) for x in a.intersection(whole)] == [(x.start, x.end) for x in a],
               "masking with all time changes the group")
    ctx.expect(len(a.intersection(TimeFrameGroup())) == 0, "masking with nothing leaves something")


def cases(tier):
    t = tier == 'thorough'
    sh = [(0, 0), (0, 2), (1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 1), (1, 3), (3, 2), (2, 3), (3, 3)] if t else [(3, 1)])
    cs = [Case(h_intersection, n=n, m=m) for n, m in sh]
    cs += [Case(h_open, a=a, b=b) for a, b in (
        (('none',), ('none',)), (('start',), ('none',)), (('none',), ('end',)), (('start',), ('end',)), (('end',), ('end',)),
        (('end', 'start'), ('start',)), (('end', 'both', 'start'), ('none',)), (('end', 'start'), ('both', 'start')))]
    cs += [Case(h_uptime, n=n) for n in (0, 1, 3)] + [Case(h_remove, n=n) for n in (0, 1, 3)]
    cs += [Case(h_self, n=n) for n in (0, 1, 2)]
    return cs
