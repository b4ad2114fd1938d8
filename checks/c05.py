"""C05 TimeFrame interval algebra."""
from .tf_common import *
import pandas as pd

EXPLANATION = ("Every TimeFrame operation runs symbolically on arbitrary frames (each bound an arbitrary instant, "
               "open, disabled or empty; include_end arbitrary) and is compared, for an arbitrary instant t, with "
               "set semantics on instants.")
BOUNDS = {"frames per operation": 2, "instants": "reals in a 1000 s range (ordering-only constraints), all orderings",
          "gap": "0..1000 s", "slice rows": "up to 3 (4 thorough) rows at arbitrary times"}
ASSUMPTIONS = BASE_ASSUMPTIONS


def TF():
    from nilmtk.timeframe import TimeFrame
    return TimeFrame


def h_construct(ctx):
    s, e = ctx.time('s'), ctx.time('e')
    try:
        tf = TF()(s, e)
    except ValueError:
        ctx.expect(s >= e, "a valid frame was rejected")
        return
    ctx.expect(s < e, "a frame with start >= end was accepted")
    ctx.eq(tf.start, s, "start")
    ctx.eq(tf.end, e, "end")
    ctx.expect(not tf.empty, "a valid frame reports empty")


def h_setters(ctx, which):
    tf = mk_tf(ctx, 'a', ('both', 'start', 'end', 'none'), include_end=False)
    s0, e0 = tf.start, tf.end
    new = ctx.choose('new_kind', ['time', 'nat', 'none'])
    val = ctx.time('v') if new == 'time' else (pd.NaT if new == 'nat' else None)
    want = val if new == 'time' else None
    try:
        setattr(tf, which, val)
    except ValueError:
        ctx.expect(new == 'time', "clearing a bound raised")
        if which == 'start':
            ctx.expect(e0 is not None and val >= e0, "valid start rejected")
        else:
            ctx.expect(s0 is not None and val <= s0, "valid end rejected")
        ctx.eq(tf.start, s0, "start changed by a rejected assignment")
        ctx.eq(tf.end, e0, "end changed by a rejected assignment")
        return
    if which == 'start':
        ctx.eq(tf.start, want, "start not set")
        ctx.eq(tf.end, e0, "end changed")
    else:
        ctx.eq(tf.end, want, "end not set")
        ctx.eq(tf.start, s0, "start changed")
    if tf.start is not None and tf.end is not None:
        ctx.expect(tf.start < tf.end, "frame with start >= end")


def h_intersection(ctx):
    a, b = mk_tf(ctx, 'a'), mk_tf(ctx, 'b')
    sa = (a.start, a.end, a.include_end, a.empty)
    i = a.intersection(b)
    t = ctx.time('t', -10, 2000)
    ctx.assume(conj(*[t != x for x in (a.end, b.end) if x is not None]))
    ctx.expect(iff(contains(i, t), conj(contains(a, t), contains(b, t))),
               "intersection is not the set of common instants")
    if i.start is not None and i.end is not None:
        ctx.expect(i.start < i.end, "intersection with start >= end")
    ctx.expect(sa == (a.start, a.end, a.include_end, a.empty), "intersection changed its operand")
    if not i.empty and i.end is not None:
        # the end comes from one operand: its include_end must come along
        for x, y in ((a, b), (b, a)):
            if x.end is not None and (y.end is None or x.end < y.end):
                ctx.expect(i.include_end == x.include_end, "include_end not taken from the frame that ends first")
                break
        else:
            if a.include_end == b.include_end:
                ctx.expect(i.include_end == a.include_end, "include_end differs from both operands")


def h_intersection_none(ctx):
    a = mk_tf(ctx, 'a', ('both', 'start', 'end', 'none', 'empty'))
    i = a.intersection(None)
    ctx.expect(i is not a, "intersection(None) aliases its operand")
    t = ctx.time('t', -10, 2000)
    ctx.expect(iff(contains(i, t), contains(a, t)), "intersection(None) differs")


def h_union(ctx):
    a, b = mk_tf(ctx, 'a', ('both',)), mk_tf(ctx, 'b', ('both',))
    u = a.union(b)
    ctx.eq(u.start, ctx.ite(a.start <= b.start, a.start, b.start), "union start")
    ctx.eq(u.end, ctx.ite(a.end >= b.end, a.end, b.end), "union end")
    ctx.expect(not u.empty, "union empty")


def h_adjacent(ctx):
    a = mk_tf(ctx, 'a', ('both', 'empty'))
    b = mk_tf(ctx, 'b', ('both', 'empty'))
    gap = ctx.seconds('gap', 0, 1000)
    got = a.adjacent(b, gap)
    if a.empty or b.empty:
        ctx.expect(not got, "an empty frame is adjacent")
        return
    import symrun.proxies as P

    def secs(d):
        return d.total_seconds()
    d1, d2 = secs(b.start - a.end), secs(a.start - b.end)
    want = disj(conj(d1 >= 0, d1 <= gap), conj(d2 >= 0, d2 <= gap))
    ctx.expect(iff(want, bool(got)), "adjacent differs from: gap between frames <= gap")


def h_timedelta(ctx):
    a = mk_tf(ctx, 'a', ('both', 'empty', 'start', 'end', 'none'))
    td = a.timedelta
    if a.empty:
        ctx.eq(td.total_seconds(), 0, "empty frame has a duration")
    elif a.start is not None and a.end is not None:
        ctx.eq(td.total_seconds(), (a.end - a.start).total_seconds(), "duration")
    else:
        ctx.expect(td is None, "open frame has a duration")


def h_eq_hash(ctx):
    a, b = mk_tf(ctx, 'a'), mk_tf(ctx, 'b')
    got = bool(a == b)
    want = conj(ctx.same(a.start, b.start), ctx.same(a.end, b.end), a.empty == b.empty)
    ctx.expect(iff(want, got), "equality differs from equality of bounds and emptiness")
    ctx.expect(iff(want, bool(b == a)), "equality not symmetric")
    ctx.expect(bool(a != b) != got, "!= is not the negation of ==")
    if got:
        ctx.expect(hash(a) == hash(b), "equal frames with different hashes")
        ctx.expect(len({a, b}) == 1, "equal frames counted twice in a set")


def h_order(ctx):
    kinds = ('both', 'start', 'end')
    a, b = mk_tf(ctx, 'a', kinds, False), mk_tf(ctx, 'b', kinds, False)
    ctx.assume(neg(ctx.same(a.start, b.start)))
    lt, gt = bool(a < b), bool(b < a)
    want = True if a.start is None else (False if b.start is None else a.start < b.start)
    ctx.expect(iff(want, lt), "order differs from order of starts (open start first)")
    ctx.expect(lt != gt, "order is not antisymmetric")
    got = sorted([b, a])
    ctx.expect(got[0] is (a if lt else b), "sorting")


def h_overlap(ctx):
    a, b = mk_tf(ctx, 'a', include_end=False), mk_tf(ctx, 'b', include_end=False)

    def lo(x):
        return x.start
    overlap = not a.empty and not b.empty
    if overlap:
        for x, y in ((a, b), (b, a)):
            if x.end is not None and y.start is not None and x.end <= y.start:
                overlap = False
    try:
        a.check_for_overlap(b)
        ok = True
    except ValueError:
        ok = False
    ctx.expect(ok == (not overlap), "overlap check wrong")


def h_bool(ctx):
    a = mk_tf(ctx, 'a')
    want = (not a.empty) and (a.start is not None or a.end is not None)
    ctx.expect(bool(a) == want, "truth value: an empty or fully open frame must be falsy")


def h_dict(ctx):
    a = mk_tf(ctx, 'a', ('both', 'start', 'end', 'none'), include_end=False)
    d = a.to_dict()
    ctx.expect(set(d) <= {'start', 'end'} and all(isinstance(v, str) for v in d.values()), "dict form")
    b = TF().from_dict(d)
    ctx.eq(b.start, a.start, "start lost in round trip")
    ctx.eq(b.end, a.end, "end lost in round trip")
    ctx.expect(b == a, "round trip not equal")


def h_copy(ctx):
    a = mk_tf(ctx, 'a')
    b = TF()(a)
    ctx.eq(b.start, a.start, "copy start")
    ctx.eq(b.end, a.end, "copy end")
    ctx.expect(b.empty == a.empty and b.include_end == a.include_end and b.enabled == a.enabled, "copy flags")


def h_slice(ctx, n):
    ts = [ctx.time('t%d' % i) for i in range(n)]
    for x, y in zip(ts, ts[1:]):
        ctx.assume(x < y)
    tf = mk_tf(ctx, 'a', ('both', 'start', 'end', 'none', 'empty'))
    df = pd.DataFrame({'v': list(range(n))}, index=ctx.index(ts))
    out = tf.slice(df)
    want = [i for i, t in enumerate(ts) if contains(tf, t)]
    ctx.expect(list(out['v']) == want, "slice keeps the wrong rows")
    ctx.expect(out.timeframe is tf or out.timeframe == tf, "slice does not record its timeframe")


def h_query_terms(ctx):
    """The HDF5 query terms select exactly the instants of the frame."""
    tf = mk_tf(ctx, 'a', ('both', 'start', 'end', 'none', 'empty', 'disabled'))
    if tf.empty:
        try:
            tf.query_terms('tf')
        except Exception:
            return
        ctx.expect(False, "query of an empty frame")
    terms = tf.query_terms('tf')
    t = ctx.time('t', -10, 2000)
    got = True
    for term in (terms or []):
        got = conj(got, eval(term, {}, {'index': t, 'tf': tf}))
    ctx.expect(iff(contains(tf, t), got), "query terms select other instants than the frame")


def cases(tier):
    cs = [Case(f) for f in (h_construct, h_intersection, h_intersection_none, h_union, h_adjacent,
                            h_timedelta, h_eq_hash, h_order, h_overlap, h_bool, h_dict, h_copy, h_query_terms)]
    cs += [Case(h_setters, which='start'), Case(h_setters, which='end')]
    cs += [Case(h_slice, n=n) for n in ((0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 5))]
    return cs
