"""C23 CSV stores, keys and conversion."""
import contextlib
import os

from .stream import *
from . import fakestore, fakecsv
from .tf_common import mk_tf, contains

EXPLANATION = ("CSVDataStore.put/append/load/get_timeframe/[]/remove/elements_below_key/save_metadata/load_metadata, "
               "convert_datastore, Key, join_key and get_datastore run symbolically over tables with rows at arbitrary "
               "increasing instants, arbitrary values, windows, sections and building and meter numbers.  The contents of "
               "the files stay in memory, line by line as to_csv writes and read_csv reads them, in the symbolic runs; the "
               "models of failed and undecided paths are replayed on real files.")
BOUNDS = {"rows": "1..4 (6 thorough), in 1..3 parts", "chunksize": "1..3 and larger than the table", "sections": "None, 1, 2",
          "look-ahead rows": "0..3", "columns": "1..2", "meters": "1..3 in 1..2 buildings", "building and meter numbers": "arbitrary positive integers"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["stand-ins for DataFrame.to_csv, pd.read_csv, yaml.dump and the YAML loader of nilm_metadata (not installed) in "
                                  "symbolic runs; pd.HDFStore as in C01; values are written and read back exactly (repr of a float)"]
A, B = ('power', 'active'), ('voltage', '')
KEY = '/building1/elec/meter1'
NAN = float('nan')


@contextlib.contextmanager
def csv(ctx):
    from nilmtk.datastore import CSVDataStore
    with fakecsv.directory() as d:
        yield CSVDataStore(os.path.join(d, 'data'))


def table(ctx, n, cols=(A,), nan=(), p='', name=None, index=None):
    ts = list(index) if index is not None else times(ctx, n, p + 't', hi=1000)
    vals = {c: [NAN if (j, i) in nan else ctx.real('%sv%d_%d' % (p, j, i), -1000, 5000) for i in range(n)] for j, c in enumerate(cols)}
    df = frame(ctx, ts, vals)
    if index is not None:
        df.index = index
    df.index.name = name
    return df, ts, vals


def same(ctx, got, ts, vals, cols, want, label):
    ctx.all_eq(got.index, [ts[i] for i in want], label + ': rows')
    ctx.expect([tuple(c) for c in got.columns] == list(cols), label + ': columns')
    for c in cols:
        ctx.all_eq(got[c].values, [vals[c][i] for i in want], label + ': values')


def verify(ctx, chunks, ts, vals, cols, rows, inter, c, la):
    ctx.expect(len(chunks) >= 1, "a section yields at least one frame")
    if not rows:
        ctx.expect(len(chunks) == 1 and len(chunks[0]) == 0, "a section without data yields exactly one empty frame")
        return
    at = 0
    for k, ch in enumerate(chunks):
        n = len(ch)
        last = k == len(chunks) - 1
        ctx.expect(1 <= n <= c, "between 1 and chunksize rows per chunk")
        want = rows[at:at + n]
        ctx.expect(len(want) == n, "more rows than the section contains")
        same(ctx, ch, ts, vals, cols, want, "chunk")
        at += n
        tf = ch.timeframe
        ctx.expect(not tf.empty, "the time frame of a chunk is not empty")
        if k == 0 and inter.start is not None:
            ctx.eq(tf.start, inter.start, "the first chunk starts where the section does")
        else:
            ctx.eq(tf.start, ch.index[0], "a chunk starts at its first row")
        if tf.end is None:
            ctx.expect(last and n == 1, "only one row at the end may leave the end open")
            ctx.expect(inter.end is None or inter.end == ch.index[0], "the last chunk ends where the section does")
        elif last and inter.end is not None:
            ctx.eq(tf.end, inter.end, "the last chunk ends where the section does")
        elif last:
            ctx.eq(tf.end, ch.index[-1], "the last chunk ends at its last row")
        else:
            ctx.expect(tf.end >= ch.index[-1], "the time frame covers the chunk")
            ctx.expect(tf.end <= chunks[k + 1].index[0], "the time frame ends before the next chunk")
        if la:
            follow = [i for i in range(want[-1] + 1, want[-1] + 1 + la) if i < len(ts)]
            ctx.expect(len(ch.look_ahead) == len(follow), "look_ahead holds the rows that follow")
            if follow:
                same(ctx, ch.look_ahead, ts, vals, cols, follow, "look_ahead")
    ctx.expect(at == len(rows), "rows of the section are missing")


def inside(ts, *tfs):
    return [i for i, t in enumerate(ts) if all(bool(contains(f, t)) for f in tfs)]


def h_parts(ctx, parts, c, la, cols, want, nan, name):
    """Rows put and appended in parts come back once and in order."""
    from nilmtk.timeframe import TimeFrame
    with csv(ctx) as st:
        n = sum(parts)
        df, ts, vals = table(ctx, n, cols, nan, name=name)
        first = ctx.choose('first', ['put', 'append'])
        at = 0
        for k, m in enumerate(parts):
            (st.put if k == 0 and first == 'put' else st.append)(KEY, df.iloc[at:at + m])
            at += m
        kw = {} if want is None else {'columns': list(want)}
        got = tuple(x for x in cols if want is None or x in [tuple(y or '' for y in w) for w in want])
        chunks = list(st.load(KEY, n_look_ahead_rows=la, chunksize=c, **kw))
        verify(ctx, chunks, ts, vals, got, list(range(n)), TimeFrame(), c, la)
        ctx.expect(bool(st.all_sections_smaller_than_chunksize) == (len(chunks) <= 1), "all_sections_smaller_than_chunksize")
        same(ctx, st[KEY], ts, vals, cols, list(range(n)), "the whole table")
        if n > 1:
            tf = st.get_timeframe(KEY)
            ctx.eq(tf.start, ts[0], "get_timeframe start")
            ctx.eq(tf.end, ts[-1], "get_timeframe end")


def h_section(ctx, n, c, la, kinds):
    with csv(ctx) as st:
        df, ts, vals = table(ctx, n)
        st.put(KEY, df)
        sec = mk_tf(ctx, 's', kinds=kinds, hi=1000)
        chunks = list(st.load(KEY, sections=[sec], n_look_ahead_rows=la, chunksize=c))
        verify(ctx, chunks, ts, vals, (A,), inside(ts, sec), sec, c, la)


def h_window(ctx, n, c, la, wk, sk):
    with csv(ctx) as st:
        df, ts, vals = table(ctx, n)
        st.put(KEY, df)
        st.window = win = mk_tf(ctx, 'w', kinds=wk, include_end=False, hi=1000)
        if sk is None:
            chunks = list(st.load(KEY, n_look_ahead_rows=la, chunksize=c))
            inter, rows = win, inside(ts, win)
        else:
            sec = mk_tf(ctx, 's', kinds=sk, include_end=False, hi=1000)
            chunks = list(st.load(KEY, sections=[sec], n_look_ahead_rows=la, chunksize=c))
            inter, rows = win.intersection(sec), inside(ts, win, sec)
        verify(ctx, chunks, ts, vals, (A,), rows, inter, c, la)
        tf = st.get_timeframe(KEY)
        s, e = ts[0], ts[-1]
        if win.start is not None and win.start > s:
            s = win.start
        if win.end is not None and win.end < e:
            e = win.end
        if s >= e:
            ctx.expect(tf.empty or (tf.start == s and tf.end == e), "get_timeframe outside the window is empty")
        else:
            ctx.expect(not tf.empty, "get_timeframe of a table with data inside the window")
            ctx.eq(tf.start, s, "get_timeframe start")
            ctx.eq(tf.end, e, "get_timeframe end")


def h_two_sections(ctx, n, c, la):
    from nilmtk.timeframe import TimeFrame
    with csv(ctx) as st:
        df, ts, vals = table(ctx, n)
        st.put(KEY, df)
        b = times(ctx, 4, 'b', hi=1000)
        secs = [TimeFrame(b[0], b[1]), TimeFrame(b[2], b[3])]
        per = [list(st.load(KEY, sections=[s], n_look_ahead_rows=la, chunksize=c)) for s in secs]
        both = list(st.load(KEY, sections=secs, n_look_ahead_rows=la, chunksize=c))
        ctx.expect(len(both) == len(per[0]) + len(per[1]), "sections are delivered one after the other")
        for s, chunks in zip(secs, (both[:len(per[0])], both[len(per[0]):])):
            verify(ctx, chunks, ts, vals, (A,), inside(ts, s), s, c, la)


def h_dst(ctx, parts, c, la, first):
    """Rows on both sides of the end of winter time, in local time."""
    from nilmtk.timeframe import TimeFrame
    with csv(ctx) as st:
        n = sum(parts)
        index = pd.date_range(first, periods=n, freq='30min', tz='UTC').tz_convert('Europe/London')
        df, ts, vals = table(ctx, n, index=index)
        at = 0
        for m in parts:
            st.append(KEY, df.iloc[at:at + m])
            at += m
        verify(ctx, list(st.load(KEY, n_look_ahead_rows=la, chunksize=c)), ts, vals, (A,), list(range(n)), TimeFrame(), c, la)
        sec = TimeFrame(ts[1], ts[-1])
        verify(ctx, list(st.load(KEY, sections=[sec], n_look_ahead_rows=la, chunksize=c)), ts, vals, (A,), inside(ts, sec), sec, c, la)
        tf = st.get_timeframe(KEY)
        ctx.expect(tf.start == ts[0] and tf.end == ts[-1], "get_timeframe")
        same(ctx, st[KEY], ts, vals, (A,), list(range(n)), "the whole table")


def h_tables(ctx, big, kind='csv'):
    """Tables do not get mixed up; put replaces, remove removes only what it names."""
    b1, b2 = number(ctx, 'b1', big), number(ctx, 'b2', big)
    ctx.assume(b1 != b2)
    m1, m2 = number(ctx, 'm1', big), number(ctx, 'm2', big)
    ctx.assume(m1 != m2)
    with (csv if kind == 'csv' else fakestore.store)(ctx) as st:
        keys = [key(b1, m1), key(b1, m2), key(b2, m1), key(b1, m2).replace('elec', 'gas')]
        data = []
        for k, kk in enumerate(keys):
            df, ts, vals = table(ctx, 2, p='k%d' % k)
            (st.put if k % 2 else st.append)(kk, df)
            data.append((ts, vals))
        ctx.expect(sorted(st.elements_below_key()) == sorted({tok(ctx, 'building', b1), tok(ctx, 'building', b2)}), "buildings of the store")
        for k in (tok(ctx, '/building', b1), tok(ctx, 'building', b1), tok(ctx, '/building', b1) + '/'):
            ctx.expect(sorted(st.elements_below_key(k)) == ['elec', 'gas'], "utilities of a building")
            ctx.expect(sorted(st.elements_below_key(k.rstrip('/') + '/elec')) == sorted([tok(ctx, 'meter', m1), tok(ctx, 'meter', m2)]),
                       "meters of a building")
        for kk, (ts, vals) in zip(keys, data):
            same(ctx, st[kk], ts, vals, (A,), [0, 1], "table")
            ctx.all_eq(pd.concat(list(st.load(kk.lstrip('/')))).index, ts, "keys may lack the slash")
        df, ts, vals = table(ctx, 2, p='new')
        st.put(keys[0], df)
        data[0] = (ts, vals)
        same(ctx, st[keys[0]], ts, vals, (A,), [0, 1], "put replaces the table")
        what = ctx.choose('what', ['meter', 'utility', 'building'])
        gone = [0] if what == 'meter' else [0, 1] if what == 'utility' else [0, 1, 3]
        st.remove(keys[0] if what == 'meter' else tok(ctx, '/building', b1) + ('/elec' if what == 'utility' else ''))
        for k, (kk, (ts, vals)) in enumerate(zip(keys, data)):
            if k in gone:
                ctx.raises(KeyError, lambda: list(st.load(kk)), "load of a missing key must raise KeyError")
                ctx.raises(KeyError, lambda: st[kk], "[] of a missing key must raise KeyError")
            else:
                same(ctx, st[kk], ts, vals, (A,), [0, 1], "the other tables stay")


def number(ctx, name, big):
    return ctx.int(name, *((10, 10 ** 6) if big else (1, 99)))


def tok(ctx, prefix, i):
    return '%s%s' % (prefix, '{:d}'.format(i))


def key(b, m):
    return '/building{:d}/elec/meter{:d}'.format(b, m)


def meta(bs, ms):
    ds = {'name': 'X', 'timezone': 'Europe/London', 'meter_devices': {'dev': {'model': 'dev', 'sample_period': 6}}}
    bd = {}
    for b, m in zip(bs, ms):
        bd[b] = {'instance': b, 'rooms': [{'name': 'kitchen'}],
                 'elec_meters': {i: {'device_model': 'dev', 'site_meter': k == 0, 'data_location': key(b, i)} for k, i in enumerate(m)},
                 'appliances': [{'type': 'kettle', 'instance': 1, 'meters': list(m)}]}
    return ds, bd


def h_convert(ctx, shape, way, cols, nan, big, cache, bare=False):
    """A whole dataset, converted (and converted back)."""
    from nilmtk.datastore import CSVDataStore
    from nilmtk.datastore.datastore import convert_datastore
    bs = [number(ctx, 'b%d' % i, big) for i in range(len(shape))]
    ms = [[number(ctx, 'm%d_%d' % (i, j), big) for j in range(k)] for i, k in enumerate(shape)]
    for xs in [bs] + ms:
        for i in range(len(xs)):
            for j in range(i):
                ctx.assume(xs[i] != xs[j])
    with fakecsv.directory() as d, fakestore.store(ctx) as h1, fakestore.store(ctx) as h2:
        new = iter([CSVDataStore(os.path.join(d, 'a')), CSVDataStore(os.path.join(d, 'b'))])
        hdf = iter([h1, h2])
        stores = [next(new) if w == 'c' else next(hdf) for w in way]
        src = stores[0]
        data = {}
        for i, b in enumerate(bs):
            for j, m in enumerate(ms[i]):
                df, ts, vals = table(ctx, 2 if (i, j) != (0, 0) else 3, cols, nan, p='x%d%d' % (i, j))
                src.put(key(b, m), df)
                data[key(b, m)] = (ts, vals)
        if cache:
            src.put(tok(ctx, '/building', bs[0]) + '/elec/cache/' + tok(ctx, 'meter', ms[0][0]) + '/total_energy', table(ctx, 1, p='cache')[0])
        ds, bd = meta(bs, ms)
        src.save_metadata('/', ds)
        for b in bs if bare else ():
            # as in the YAML files which come with a dataset
            for m in bd[b]['elec_meters'].values():
                del m['data_location']
        for b in bs:
            src.save_metadata(tok(ctx, '/building', b), bd[b])
        before = list(ds)
        for s, t in zip(stores, stores[1:]):
            convert_datastore(s, t)
        ctx.expect(list(ds) == before, "save_metadata leaves the caller's metadata alone")
        for out in stores:
            got = out.load_metadata('/')
            ctx.expect(got['name'] == 'X' and got['timezone'] == 'Europe/London', "metadata of the dataset")
            ctx.expect(got['meter_devices'] == ds['meter_devices'], "meter devices")
            ctx.expect(sorted(out.elements_below_key()) == sorted(tok(ctx, 'building', b) for b in bs), "buildings")
            for i, b in enumerate(bs):
                k = tok(ctx, '/building', b)
                got = out.load_metadata(k)
                ctx.expect(sorted(got) == sorted(bd[b]) and got['rooms'] == bd[b]['rooms'], "metadata of a building")
                ctx.expect(got['instance'] == b, "instance of the building")
                ctx.expect(len(got['elec_meters']) == len(ms[i]), "meters of a building")
                for m in ms[i]:
                    ctx.expect(got['elec_meters'][m]['data_location'] == key(b, m), "data_location")
                    ctx.expect(got['elec_meters'][m]['site_meter'] == bd[b]['elec_meters'][m]['site_meter'], "site_meter")
                ctx.expect(got['appliances'] == bd[b]['appliances'], "appliances")
        out = stores[-1]
        names = set()
        for i, b in enumerate(bs):
            names |= {key(b, m) for m in ms[i]}
            ctx.expect(sorted(x for x in out.elements_below_key(tok(ctx, '/building', b) + '/elec') if x != 'cache') ==
                       sorted(tok(ctx, 'meter', m) for m in ms[i]), "meters with data")
        for kk, (ts, vals) in data.items():
            same(ctx, out[kk], ts, vals, cols, list(range(len(ts))), "converted table")


def h_key(ctx, big):
    from nilmtk.datastore import Key
    from nilmtk.datastore.datastore import join_key
    b, m = number(ctx, 'b', big), number(ctx, 'm', big)
    building = tok(ctx, 'building', b)
    meter = tok(ctx, 'meter', m)
    for s in ('/' + building, building, building + '/', '/' + building + '/elec', building + '/elec/'):
        k = Key(s)
        ctx.eq(k.building, b, "building of a key")
        ctx.expect(k.meter is None, "a key without meter")
        ctx.expect((k.utility == 'elec') == ('elec' in s), "utility of a key")
        ctx.expect(repr(k) == '/' + building, "the key of a building")
    for s in ('/' + building + '/elec/' + meter, building + '/elec/' + meter, building + '/elec/' + meter + '/'):
        k = Key(s)
        ctx.eq(k.building, b, "building of a key")
        ctx.eq(k.meter, m, "meter of a key")
        ctx.expect(k.utility == 'elec', "utility of a key")
        ctx.expect(repr(k) == '/' + building + '/elec/' + meter, "the key of a meter")
    k = Key(building=b, meter=m)
    ctx.expect(repr(k) == '/' + building + '/elec/' + meter, "the key made from numbers")
    ctx.expect(repr(Key(building=b)) == '/' + building, "the key made from a building")
    for args in ((building, 'elec', meter), ('/' + building, 'elec/', meter), ('/' + building + '/elec', meter), ('', building + '/', '/', '/elec/', meter + '/'),
                 ('/', '/' + building + '/elec/' + meter + '/')):
        ctx.expect(join_key(*args) == '/' + building + '/elec/' + meter, "join_key")
    for args in (('/',), ('',), ('/', ''), ()):
        ctx.expect(join_key(*args) == '/', "join_key of nothing")
    ctx.expect(join_key(building) == '/' + building, "join_key of one element")
    z = ctx.int('z', -5, 0)
    ctx.raises(AssertionError, lambda: Key(building=z), "buildings are numbered from 1")
    ctx.raises(AssertionError, lambda: Key(building=b, meter=z), "meters are numbered from 1")
    ctx.raises(AssertionError, lambda: Key('elec/' + building), "a key starts with the building")
    ctx.raises(ValueError, lambda: Key('buildingX'), "a building has a number")


def h_get_datastore(ctx):
    """The store which goes with the name of the file."""
    from nilmtk.utils import get_datastore
    from nilmtk.datastore import CSVDataStore, HDFDataStore
    stem = ctx.string('stem', ['a', 'h5', 'csv.h5', 'x.csv', 'h5.csv'])
    ext = ctx.string('ext', ['.h5', '.csv', '', '.h5x'])
    fmt = ctx.choose('format', [None, 'HDF', 'CSV', 'XML'])
    with fakecsv.directory() as d:
        name = os.path.join(d, stem.conc() if hasattr(stem, 'conc') else stem) + (ext.conc() if hasattr(ext, 'conc') else ext)
        want = fmt or ('HDF' if name.endswith('.h5') else 'CSV' if name.endswith('.csv') else None)
        if want == 'HDF' and not ctx.symbolic:
            import nilmtk.datastore
        if want in ('HDF', 'CSV'):
            st = get_datastore(name, fmt, 'w')
            ctx.expect(isinstance(st, HDFDataStore if want == 'HDF' else CSVDataStore), "format of the store")
            st.close()
        else:
            ctx.raises(ValueError, lambda: get_datastore(name, fmt, 'w'), "unknown formats raise ValueError")
        ctx.raises(ValueError, lambda: get_datastore(None, fmt), "no filename raises ValueError")


def cases(tier):
    t = tier == 'thorough'
    E = fakecsv.extra
    cs = []
    for parts in ((1,), (2,), (3,), (1, 1), (1, 2), (2, 2), (1, 1, 1), (4,)) + (((5,), (6,), (3, 3), (2, 1, 2)) if t else ()):
        for c in (1, 2, 3, 10):
            cs.append(Case(h_parts, extra=E, parts=parts, c=c, la=2, cols=(A,), want=None, nan=(), name=None))
    for want in (None, (A,), (B,), (('voltage', None),), (A, B)):
        cs.append(Case(h_parts, extra=E, parts=(2, 1), c=2, la=2, cols=(A, B), want=want, nan=(), name=None))
    for nan in (((0, 0),), ((0, 1),), ((0, 0), (1, 0)), ((0, 2), (1, 2)), ((0, 0), (0, 1), (0, 2))):
        for name in (None, 't'):
            cs.append(Case(h_parts, extra=E, parts=(2, 1), c=2, la=1, cols=(A, B), want=None, nan=nan, name=name))
    cs.append(Case(h_parts, extra=E, parts=(1, 2), c=1, la=3, cols=(A,), want=None, nan=((0, 0),), name=None))
    for n, c in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 10), (4, 2)) + (((5, 2), (4, 3), (5, 3)) if t else ()):
        cs.append(Case(h_section, extra=E, n=n, c=c, la=2, kinds=('both',)))
        cs.append(Case(h_section, extra=E, n=n, c=c, la=0, kinds=('start', 'end', 'none', 'empty', 'disabled')))
    cs += [Case(h_window, extra=E, n=3, c=2, la=1, wk=(w,), sk=(s,)) for w in ('both', 'start', 'end') for s in ('both', 'end', 'start')
           if t or (w, s) in (('both', 'both'), ('start', 'end'), ('end', 'start'))]
    cs += [Case(h_window, extra=E, n=3, c=2, la=1, wk=('both', 'start', 'end'), sk=None)]
    cs += [Case(h_two_sections, extra=E, n=n, c=2, la=1) for n in ((3,) if not t else (3, 4))]
    for first in ('2020-03-29 00:00', '2020-10-24 23:30'):
        for parts, c in (((4,), 1), ((4,), 2), ((4,), 10), ((2, 2), 3), ((1, 3), 2)):
            cs.append(Case(h_dst, extra=E, parts=parts, c=c, la=2, first=first))
    for big in (False, True):
        cs += [Case(h_tables, extra=E, big=big), Case(h_key, extra=E, big=big)]
        for way in ('hc', 'ch', 'hch', 'chc', 'cc', 'hh'):
            cs.append(Case(h_convert, extra=E, shape=(1,), way=way, cols=(A, B), nan=(), big=big, cache=False))
        for way in ('hc', 'ch'):
            cs.append(Case(h_convert, extra=E, shape=(2, 1), way=way, cols=(A,), nan=(), big=big, cache=False))
            cs.append(Case(h_convert, extra=E, shape=(1,), way=way, cols=(A, B), nan=((0, 0), (1, 1)), big=big, cache=way == 'hc'))
        if t:
            cs.append(Case(h_convert, extra=E, shape=(3, 2), way='hchc', cols=(A, B), nan=(), big=big, cache=False))
    cs += [Case(h_convert, extra=E, shape=(1, 1), way=w, cols=(A,), nan=(), big=False, cache=False, bare=True) for w in ('c', 'ch', 'cc')]
    cs += [Case(h_tables, extra=E, big=b, kind='hdf') for b in (False, True)]
    cs += [Case(h_get_datastore, extra=E)]
    return cs
