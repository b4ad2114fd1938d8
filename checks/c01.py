"""C01 HDFDataStore.load: complete, ordered, bounded chunks."""
from .stream import *
from . import fakestore
from .tf_common import mk_tf, contains

EXPLANATION = ("HDFDataStore.put/load/get_timeframe/_nrows run symbolically over a table with rows at arbitrary increasing "
               "instants, arbitrary window and sections (open, half-open, end-inclusive, empty, overlapping a row exactly), "
               "every chunk size and look-ahead within the bounds; the concatenation of the chunks is compared row by row "
               "with the rows inside window and section.  pd.HDFStore is replaced by an in-memory table in the symbolic "
               "runs; every path's model is replayed on a real HDF5 file.")
BOUNDS = {"rows": "1..5 (6 thorough)", "chunksize": "1..3 and larger than the table", "sections": "None, 1, 2",
          "look-ahead rows": "0..3", "columns": "1..2"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["pd.HDFStore stand-in in symbolic runs: rows kept in order, where-clauses of the form "
                                  "index OP expr joined by &, start/stop/columns as documented"]

KEY = '/building1/elec/meter1'
A, B = ('power', 'active'), ('voltage', '')


def filled(ctx, st, n, cols=(A,), key=KEY):
    ts = times(ctx, n, hi=1000)
    vals = {c: [float(10 * j + i) for i in range(n)] for j, c in enumerate(cols)}
    st.put(key, frame(ctx, ts, vals))
    return ts, vals


def verify(ctx, chunks, ts, vals, cols, rows, inter, c, la):
    """chunks of one section against the list of expected row numbers."""
    ctx.expect(len(chunks) >= 1, "a section yields at least one frame")
    if not rows:
        ctx.expect(len(chunks) == 1 and len(chunks[0]) == 0, "a section without data yields exactly one empty frame")
        return
    if len(rows) == 1:
        ctx.expect(len(chunks) == 1, "one row, one frame")
        if inter.start is None or inter.end is None:
            # a single row spans no time: an open-ended request may report it as empty
            ctx.expect(len(chunks[0]) <= 1, "one row at most")
            if len(chunks[0]) == 0:
                return
    got = []
    for k, ch in enumerate(chunks):
        n = len(ch)
        last = k == len(chunks) - 1
        ctx.expect(n <= c + 1, "a chunk is longer than chunksize")
        ctx.expect(n >= 2 or len(rows) == 1, "a chunk holds no new row")
        if not last:
            ctx.expect(n == c + 1, "only the last chunk may be short")
        lo = len(got) - 1 if k else 0
        want = rows[lo:lo + n]
        ctx.expect(len(want) == n, "more rows than the section contains")
        ctx.all_eq(ch.index, [ts[i] for i in want], "rows of the section in order, one shared between chunks")
        ctx.expect([tuple(x) for x in ch.columns] == list(cols), "the requested columns")
        for col in cols:
            ctx.all_eq(ch[col].values, [vals[col][i] for i in want], "values of the rows")
        got = rows[:lo + n]
        tf = ch.timeframe
        ctx.expect(not tf.empty, "chunk time frame is not empty")
        if k == 0 and inter.start is not None:
            ctx.eq(tf.start, inter.start, "the first chunk starts where the section does")
        elif tf.start is not None or len(rows) > 1:
            ctx.eq(tf.start, ch.index[0], "chunk starts at its first row")
        if last and inter.end is not None:
            ctx.eq(tf.end, inter.end, "the last chunk ends where the section does")
        elif tf.end is not None or len(rows) > 1:
            ctx.eq(tf.end, ch.index[-1], "chunk ends at its last row")
        if la:
            follow = [i for i in range(want[-1] + 1, want[-1] + 1 + la) if i < len(ts)]
            ctx.all_eq(ch.look_ahead.index, [ts[i] for i in follow], "look_ahead holds the rows that follow")
            for col in cols:
                if follow:
                    ctx.all_eq(ch.look_ahead[col].values, [vals[col][i] for i in follow], "values of look_ahead")
    ctx.expect(len(got) == len(rows), "rows of the section are missing")


def inside(ts, *tfs):
    return [i for i, t in enumerate(ts) if all(bool(contains(f, t)) for f in tfs)]


def split_sections(chunks, counts):
    pass


def h_whole(ctx, n, c, la, cols, want):
    with fakestore.store(ctx) as st:
        ts, vals = filled(ctx, st, n, cols)
        from nilmtk.timeframe import TimeFrame
        kw = {}
        if want is not None:
            kw['columns'] = list(want)
        chunks = list(st.load(KEY, n_look_ahead_rows=la, chunksize=c, **kw))
        verify(ctx, chunks, ts, vals, tuple(x for x in cols if want is None or x in want), list(range(n)), TimeFrame(), c, la)
        ctx.expect(bool(st.all_sections_smaller_than_chunksize) == (len(chunks) <= 1), "all_sections_smaller_than_chunksize")


def h_section(ctx, n, c, la, kinds):
    with fakestore.store(ctx) as st:
        ts, vals = filled(ctx, st, n)
        sec = mk_tf(ctx, 's', kinds=kinds, hi=1000)
        chunks = list(st.load(KEY, sections=[sec], n_look_ahead_rows=la, chunksize=c))
        verify(ctx, chunks, ts, vals, (A,), inside(ts, sec), sec, c, la)


def h_window(ctx, n, c, la, wk, sk):
    with fakestore.store(ctx) as st:
        ts, vals = filled(ctx, st, n)
        st.window = win = mk_tf(ctx, 'w', kinds=wk, include_end=False, hi=1000)
        if sk is None:
            chunks = list(st.load(KEY, n_look_ahead_rows=la, chunksize=c))
            inter = win
            rows = inside(ts, win)
        else:
            sec = mk_tf(ctx, 's', kinds=sk, include_end=False, hi=1000)
            chunks = list(st.load(KEY, sections=[sec], n_look_ahead_rows=la, chunksize=c))
            inter = win.intersection(sec)
            rows = inside(ts, win, sec)
        verify(ctx, chunks, ts, vals, (A,), rows, inter, c, la)


def h_two_sections(ctx, n, c, la):
    """Each section is delivered by itself; look_ahead ignores the next section."""
    from nilmtk.timeframe import TimeFrame
    with fakestore.store(ctx) as st:
        ts, vals = filled(ctx, st, n)
        b = times(ctx, 4, 'b', hi=1000)
        secs = [TimeFrame(b[0], b[1]), TimeFrame(b[2], b[3])]
        per = [list(st.load(KEY, sections=[s], n_look_ahead_rows=la, chunksize=c)) for s in secs]
        both = list(st.load(KEY, sections=secs, n_look_ahead_rows=la, chunksize=c))
        ctx.expect(len(both) == len(per[0]) + len(per[1]), "sections are delivered one after the other")
        for s, chunks in zip(secs, (both[:len(per[0])], both[len(per[0]):])):
            verify(ctx, chunks, ts, vals, (A,), inside(ts, s), s, c, la)


def h_meta(ctx, n, wk):
    """get_timeframe, _nrows, keys with and without slashes, missing keys."""
    with fakestore.store(ctx) as st:
        ts, vals = filled(ctx, st, n)
        st.put('/building1/elec/meter2', frame(ctx, [ts[0], ts[-1]], {A: [1.0, 2.0]}))
        for k in ('building1/elec/meter1', KEY + '/', 'building1/elec/meter1/'):
            got = pd.concat(list(st.load(k)))
            ctx.all_eq(got.index, ts, "keys may have or lack slashes")
        ctx.raises(KeyError, lambda: list(st.load('/building1/elec/nope')), "missing key must raise KeyError")
        st.window = win = mk_tf(ctx, 'w', kinds=wk, include_end=False, hi=1000)
        tf = st.get_timeframe(KEY)
        s, e = ts[0], ts[-1]
        if win.start is not None and win.start > s:
            s = win.start
        if win.end is not None and win.end < e:
            e = win.end
        if s >= e:
            ctx.expect(tf.empty or (tf.start == s and tf.end == e), "get_timeframe outside the window is empty")
        else:
            ctx.expect(not tf.empty, "get_timeframe of a table with data inside the window")
            ctx.eq(tf.start, s, "get_timeframe start")
            ctx.eq(tf.end, e, "get_timeframe end")


def h_append(ctx, n1, n2, c):
    """Appended rows follow the rows already stored."""
    from nilmtk.timeframe import TimeFrame
    with fakestore.store(ctx) as st:
        ts = times(ctx, n1 + n2, hi=1000)
        v = [float(i) for i in range(n1 + n2)]
        st.append(KEY, frame(ctx, ts[:n1], {A: v[:n1]}))
        st.append(KEY, frame(ctx, ts[n1:], {A: v[n1:]}))
        verify(ctx, list(st.load(KEY, chunksize=c)), ts, {A: v}, (A,), list(range(n1 + n2)), TimeFrame(), c, 0)
        ctx.all_eq(st[KEY].index, ts, "the whole table")


def cases(tier):
    t = tier == 'thorough'
    E = fakestore.EXTRA
    cs = []
    for n in range(1, 6 if not t else 9):
        for c in (1, 2, 3, 10):
            cs.append(Case(h_whole, extra=E, n=n, c=c, la=1, cols=(A,), want=None))
    cs += [Case(h_whole, extra=E, n=4, c=2, la=2, cols=(A, B), want=w) for w in (None, (A,), (B,))]
    for n, c in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2)) + (((5, 2), (5, 3), (4, 3), (6, 2)) if t else ()):
        cs.append(Case(h_section, extra=E, n=n, c=c, la=2, kinds=('both',)))
        cs.append(Case(h_section, extra=E, n=n, c=c, la=0, kinds=('start', 'end', 'none', 'empty', 'disabled')))
    cs += [Case(h_window, extra=E, n=3, c=2, la=1, wk=(w,), sk=(s,)) for w in ('both', 'start', 'end') for s in ('both', 'end', 'start')
           if t or (w, s) in (('both', 'both'), ('start', 'end'), ('end', 'start'))]
    cs += [Case(h_window, extra=E, n=3, c=2, la=1, wk=('both', 'start', 'end'), sk=None)]
    cs += [Case(h_two_sections, extra=E, n=n, c=2, la=2) for n in ((3,) if not t else (3, 4))]
    cs += [Case(h_meta, extra=E, n=n, wk=('none', 'both', 'start', 'end')) for n in (2, 3)]
    cs += [Case(h_append, extra=E, n1=2, n2=2, c=2), Case(h_append, extra=E, n1=1, n2=2, c=1)]
    return cs
