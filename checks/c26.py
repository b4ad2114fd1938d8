"""C26 data-set converters."""
import contextlib
import gzip
import importlib
import io
import os

from .common import *
from . import fakestore, rawfiles
from nilm_metadata.convert_yaml_to_hdf5 import CALLS
from symrun.proxies import contains_sym
from .rawfiles import Text, epoch, instant, second, write

EXPLANATION = ("The converters for REDD, UK-DALE, REFIT, HIPE, DRED, IDEAL, SMART*, AMPds, iAWE, COMBED, CAXE, GREEND, ECO and Dataport "
               "run symbolically over raw files with readings at arbitrary instants, in any order where the format allows it, with "
               "arbitrary values and some missing ones; every table of the resulting store is compared with the rows of the file it "
               "comes from.  The raw files are real; a symbolic cell is a number that stands for it.  The models of every path are "
               "replayed on real raw files and real HDF5 files.")
BOUNDS = {"rows": "1..3 (4 thorough) per file", "files": "1..20", "chunks": "1..2 (Dataport)", "days of ECO": "1..2 of 2 rows per meter (a day is scaled down to that)"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["read_csv parses what the file holds (its real parser runs on digits that stand for a symbolic cell); to_datetime, "
                                  "concat(axis=1), resample on symbolic instants follow their documented contracts; pd.HDFStore as in C01",
                                  "32-bit rounding of the stored values is outside the encoding"]
NAN = float('nan')
P_ACTIVE, P_APP, P_REACTIVE = ('power', 'active'), ('power', 'apparent'), ('power', 'reactive')
VOLT, CURR, FREQ = ('voltage', ''), ('current', ''), ('frequency', '')


@contextlib.contextmanager
def scratch():
    cwd = os.getcwd()
    del CALLS[:]
    with fakestore.directory() as d:
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                yield d
        finally:
            os.chdir(cwd)


LAST = [None]


def module(name):
    LAST[0] = name
    return importlib.import_module('nilmtk.dataset_converters.%s.convert_%s' % (name, name))


def tables(ctx, path):
    def to(c):
        a = list(c[1]) + list(c[2].values())
        ctx.expect(os.path.basename(str(a[0])) == 'metadata', "the metadata of the data set")
        if LAST[0] and 'dataset_converters' in str(a[0]):
            ctx.expect(os.path.basename(os.path.dirname(str(a[0]))) == LAST[0], "the metadata of this data set")
        return not isinstance(a[1], str) or os.path.abspath(a[1]) == os.path.abspath(path)
    ctx.expect(any([to(c) for c in CALLS]), "the metadata are converted too")
    st = fakestore.FakeHDFStore(path, 'r') if ctx.symbolic else pd.HDFStore(path, 'r')
    try:
        return {k: st[k] for k in st.keys() if '/elec/' in k}
    finally:
        st.close()


def val(ctx, name, lo=0, hi=5000):
    return ctx.real(name, lo, hi)


def key(b, m):
    return '/building%d/elec/meter%d' % (b, m)


def order(rows):
    """Rows (instant, values...) by instant."""
    import functools
    return sorted(rows, key=functools.cmp_to_key(lambda a, b: -1 if a[0] < b[0] else 1))


def instants(ctx, n, free, p, hi=600, unit='s'):
    """n pairs (number, instant), all different; in any order if free."""
    out = [epoch(ctx, '%s%d' % (p, i), 0, hi, unit) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(out[i][0] != out[j][0] if free else out[i][0] > out[j][0])
    return out


def check(ctx, got, want):
    """want: {key: (columns, [(instant, values...)])}"""
    ctx.expect(sorted(got) == sorted(want), "exactly the meters of the data set are stored")
    for k in want:
        cols, rows = want[k]
        df = got[k]
        ctx.expect([tuple(c) for c in df.columns] == list(cols), "the columns of a meter are what it measures")
        ctx.expect(list(df.columns.names) == ['physical_quantity', 'type'], "level names")
        ctx.expect(len(df) == len(rows), "every reading is stored once")
        ctx.expect(df.index.tz is not None, "instants carry a time zone")
        ctx.all_eq(df.index, [r[0] for r in rows], "instants of the readings")
        for j in range(len(cols)):
            ctx.all_eq(list(df.iloc[:, j]), [r[1 + j] for r in rows], "values of the readings")


def h_redd(ctx, n):
    """Channels of several houses; rows in any order; other files are left alone."""
    m = module('redd')
    with scratch() as d:
        want = {}
        for h, c, k in ((1, 1, n), (1, 3, 1), (2, 2, 1), (2, 12, 2)):
            ts = instants(ctx, k, (h, c) == (1, 1), 't%d_%d_' % (h, c))
            vs = [val(ctx, 'v%d_%d_%d' % (h, c, i)) for i in range(k)]
            write('%s/redd/house_%d/channel_%d.dat' % (d, h, c), [(t[0], v) for t, v in zip(ts, vs)], ' ')
            want[key(h, c)] = ([P_APP if c <= 2 else P_ACTIVE], order([(t[1], v) for t, v in zip(ts, vs)]))
        write(d + '/redd/house_1/labels.dat', [('1', 'mains')], ' ')
        write(d + '/redd/house_1/channel_7.dat.bak', [('1', 'mains')], ' ')
        write(d + '/redd/other/channel_1.dat', [('1', '2')], ' ')
        os.makedirs(d + '/redd/house_1/channel_4.dat')
        m.convert_redd(d + '/redd', d + '/x.h5')
        check(ctx, tables(ctx, d + '/x.h5'), want)


def h_ukdale(ctx, n, drop, one_sec):
    """Rows keep their order; of rows at one instant the first is kept; the
    one-second data replace the six-second data of their meter."""
    m = module('ukdale')
    need(ctx, m, '_get_ac_type_map')
    acs = {(1, 1): ['active', 'apparent'] if one_sec else ['apparent'], (1, 2): ['active'], (2, 1): ['apparent']}
    real = m._get_ac_type_map
    m._get_ac_type_map = lambda path: acs
    try:
        with scratch() as d:
            want = {}
            for (h, c), ac in acs.items():
                k = n if (h, c) == (1, 2) else 1
                ts = instants(ctx, k, k > 1, 't%d_%d_' % (h, c))
                if k > 1 and drop and ctx.bool('same'):
                    ts[-1] = ts[-2]
                vs = [val(ctx, 'v%d_%d_%d' % (h, c, i)) for i in range(k)]
                write('%s/uk/house_%d/channel_%d.dat' % (d, h, c), [(t[0], v) for t, v in zip(ts, vs)], ' ')
                rows = [(t[1], v) for i, (t, v) in enumerate(zip(ts, vs)) if not i or t is not ts[i - 1]]
                want[key(h, c)] = ([('power', ac[0])], rows)
            if one_sec:
                ts = instants(ctx, 2, False, 'm')
                if drop and ctx.bool('msame'):
                    ts[1] = ts[0]
                vs = [[val(ctx, 'm%d_%d' % (i, j)) for j in range(3)] for i in range(2)]
                write(d + '/uk/house_1/mains.dat', [[t[0]] + v for t, v in zip(ts, vs)], ' ')
                want[key(1, 1)] = ([P_ACTIVE, P_APP, VOLT], [(t[1],) + tuple(v) for i, (t, v) in enumerate(zip(ts, vs)) if not i or ts[1] is not ts[0]])
            kw = {} if drop else {'drop_duplicates': False}
            m.convert_ukdale(d + '/uk', d + '/x.h5', **kw)
            check(ctx, tables(ctx, d + '/x.h5'), want)
    finally:
        m._get_ac_type_map = real


def h_refit(ctx, n, clean, house):
    m = module('refit')
    ids = [h for h in range(1, 22) if h != 14]
    with scratch() as d:
        want = {}
        for b, h in enumerate(ids):
            k = n if h == house else 1
            ts = instants(ctx, k, h == house, 't%d_' % h)
            vs = [[val(ctx, 'v%d_%d_%d' % (h, i, j)) if h == house else float(100 * h + j) for j in range(10)] for i in range(k)]
            head = 'Time,Unix,Aggregate,' + ','.join('Appliance%d' % i for i in range(1, 10))
            issues = clean and h % 2 == 0
            write('%s/refit/%s%d.csv' % (d, 'CLEAN_House' if clean else 'House_', h),
                  [['2013-10-09 13:06:17', t[0]] + v + ([1] if issues else []) for t, v in zip(ts, vs)], head=[head + (',Issues' if issues else '')])
            for j in range(10):
                want[key(b + 1, j + 1)] = ([P_ACTIVE], order([(t[1], v[j]) for t, v in zip(ts, vs)]))
        m.convert_refit(d + '/refit', d + '/x.h5')
        check(ctx, tables(ctx, d + '/x.h5'), want)


MACHINES = ["MainTerminal", "ChipPress", "ChipSaw", "HighTemperatureOven", "PickAndPlaceUnit", "ScreenPrinter", "SolderingOven", "VacuumOven",
            "VacuumPump1", "VacuumPump2", "WashingMachine"]


def h_hipe(ctx, n, which):
    """kW are converted to (positive) W."""
    m = module('hipe')
    with scratch() as d:
        want = {}
        for j, name in enumerate(MACHINES):
            k = n if j == which else 1
            ts = instants(ctx, k, j == which, 't%d_' % j)
            vs = [ctx.real('v%d_%d' % (j, i), -10, 10) for i in range(k)]
            write('%s/hipe/%s_PhaseCount_3_geq_2017-10-23_lt_2017-10-30.csv' % (d, name),
                  [(Text(t[1], '%Y-%m-%dT%H:%M:%S%z', 'Etc/GMT-2'), name, v, 5) for t, v in zip(ts, vs)], head=['SensorDateTime,Machine,P_kW,Q_kvar'])
            want[key(1, j + 1)] = ([P_APP if j == 0 else P_ACTIVE], [(t, abs(v) * 1000) for t, v in order([(t[1], v) for t, v in zip(ts, vs)])])
        m.convert_hipe(d + '/hipe', d + '/x.h5')
        check(ctx, tables(ctx, d + '/x.h5'), want)


def h_dred(ctx, n):
    m = module('dred')
    with scratch() as d:
        ts = instants(ctx, n, True, 't')
        vs = [[val(ctx, 'v%d_%d' % (i, j)) for j in range(13)] for i in range(n)]
        write(d + '/All_data.csv', [[Text(t[1], '%Y-%m-%d %H:%M:%S')] + v for t, v in zip(ts, vs)], head=['a,b,c', 'd', 'e'])
        m.convert_dred(d + '/All_data.csv', d + '/x.h5')
        check(ctx, tables(ctx, d + '/x.h5'), {key(1, j + 1): ([P_APP], order([(t[1], v[j]) for t, v in zip(ts, vs)])) for j in range(13)})


def h_ideal(ctx, n):
    """Only homes with mains and appliances; the sensor number is the meter."""
    m = module('ideal')
    with scratch() as d:
        want = {}
        files = [('household_sensordata', 105, 'hall687', '3145c3154', 'electric-mains', 'electric-combined', P_APP, n),
                 ('household_sensordata', 106, 'hall687', '31c32', 'electric-mains', 'electric-combined', P_APP, 1),
                 ('household_sensordata', 107, 'hall1', '41c42', 'electric-mains', 'electric-combined', P_APP, 1),
                 ('household_sensordata', 105, 'hall687', '99', 'gas', 'gas', None, 1),
                 ('rooms_appliance_sensordata', 105, 'kitchen696', '4004', 'electric-appliance', 'kettle', P_ACTIVE, n),
                 ('rooms_appliance_sensordata', 105, 'kitchen696', '4006', 'electric-appliance', 'dishwasher', P_ACTIVE, 1),
                 ('rooms_appliance_sensordata', 107, 'kitchen6', '5004', 'electric-appliance', 'kettle', P_ACTIVE, 1),
                 ('rooms_appliance_sensordata', 108, 'kitchen7', '6004', 'electric-appliance', 'kettle', P_ACTIVE, 1),
                 ('rooms_appliance_sensordata', 105, 'kitchen696', '4009', 'room', 'temperature', None, 1),
                 ('rooms_appliance_sensordata', 106, 'kitchen5', '4010', 'room', 'temperature', None, 1),
                 ('household_sensordata', 108, 'hall1', '78', 'gas', 'gas', None, 1)]
        for i, (folder, home, room, sensor, cat, sub, col, k) in enumerate(files):
            ts = instants(ctx, k, i == 0, 't%d_' % i)
            vs = [val(ctx, 'v%d_%d' % (i, r)) for r in range(k)]
            write('%s/ideal/%s/home%d_%s_sensor%s_%s_%s.csv.gz' % (d, folder, home, room, sensor, cat, sub),
                  [(Text(t[1], '%Y-%m-%d %H:%M:%S'), v) for t, v in zip(ts, vs)], opener=gzip.open)
            if col and home in (105, 107):
                want[key(home, int(sensor.split('c')[0]))] = ([col], order([(t[1], v) for t, v in zip(ts, vs)]))
        m.convert_ideal(d + '/ideal', d + '/x.h5')
        check(ctx, tables(ctx, d + '/x.h5'), want)


AMPDS = [('V', VOLT), ('I', CURR), ('f', FREQ), ('DPF', ('power factor', 'real')), ('APF', ('power factor', 'apparent')), ('P', P_ACTIVE),
         ('Pt', ('energy', 'active')), ('Q', P_REACTIVE), ('Qt', ('energy', 'reactive')), ('S', P_APP), ('St', ('energy', 'apparent'))]


def h_ampds(ctx, n, gap):
    """The whole home is meter 1, the other files follow by name; incomplete rows are left out."""
    m = module('ampds')
    with scratch() as d:
        want = {}
        names = ['WHE', 'B1E', 'BME', 'CDE']
        for f in (2, 0, 3, 1):
            k = n if f in (0, 2) else 1
            ts = instants(ctx, k, False, 't%d_' % f)
            vs = [[val(ctx, 'v%d_%d_%d' % (f, i, j)) for j in range(11)] for i in range(k)]
            if gap is not None and f == 2:
                vs[gap[0]][gap[1]] = NAN
            write('%s/ampds/%s.csv' % (d, names[f]), [[t[0]] + v for t, v in zip(ts, vs)], head=['TS, ' + ', '.join(c[0] for c in AMPDS)])
            want[key(1, f + 1)] = ([c[1] for c in AMPDS], [(t[1],) + tuple(v) for t, v in zip(ts, vs) if not any(ctx.isnan(x) for x in v)])
        write(d + '/ampds/readme.txt', [('x',)])
        m.convert_ampds(d + '/ampds', d + '/x.h5')
        check(ctx, tables(ctx, d + '/x.h5'), want)


DAY = [1]
REAL_DATE_RANGE = pd.date_range


def _day(*a, **k):
    """A day of ECO has a few seconds only."""
    if k.get('periods') == 86400:
        k['periods'] = DAY[0]
    return REAL_DATE_RANGE(*a, **k)


class _Pandas(object):
    date_range = staticmethod(_day)

    def __getattr__(self, name):
        return getattr(pd, name)


@contextlib.contextmanager
def short_days(ctx, m, n):
    DAY[0] = n
    saved = dict(m.__dict__)
    real = os.listdir
    os.listdir = lambda *a: sorted(real(*a), reverse=True)      # any order is allowed
    for k, v in saved.items():
        if v is real:
            setattr(m, k, os.listdir)
    if not ctx.symbolic:
        for k, v in saved.items():
            if v is pd:
                setattr(m, k, _Pandas())
            elif v is REAL_DATE_RANGE:
                setattr(m, k, _day)
    try:
        yield
    finally:
        m.__dict__.update(saved)
        os.listdir = real


def _tan(x, *a, **k):
    if getattr(x, 'dtype', None) == object and not contains_sym(x):
        return np.tan(np.asarray(x, dtype=float), *a, **k)
    return np.tan(x, *a, **k)


def _is_missing(v):
    return isinstance(v, int) and v == -1


def eco(ctx):
    x = rawfiles.extra()(ctx)
    return dict(x, pd=dict(x['pd'], date_range=_day), np={'tan': _tan}, subst=x['subst'] + [(pd.date_range, _day), (np.tan, _tan)])


def h_eco(ctx, n, folders, nested):
    """A file per day and meter with a row per second of UTC; -1 stands for a missing reading."""
    m = module('eco')
    days = ['2012-06-01', '2012-06-03', '2012-06-02']
    bad = []

    def power(name):
        if len(bad) < 3 and ctx.bool('missing' + name):
            bad.append(name)
            return -1
        return val(ctx, name)

    def day(path, which, rows):
        rows = [[float(x) if isinstance(x, (int, float)) else x for x in r] for r in rows]
        write('%s/%s.csv' % (path, which), rows)
        t = pd.Timestamp(which, tz='UTC')
        return [t + pd.Timedelta(seconds=i) for i in range(n)]
    with scratch() as d, short_days(ctx, m, n):
        want = {}
        for b in (12, 1):
            for k, which in enumerate(days[:2] if b == 1 else days[1:2]):
                name = 's%d_%d_' % (b, k)
                rows = [[float(100 * b + 10 * i + j) for j in range(16)] for i in range(n)]
                for i, r in enumerate(rows):
                    for ph in (1, 2, 3):
                        free = i == 0 and ph == 1 + k and b == 1
                        r[ph] = (power if free else lambda x: val(ctx, x))(name + 'p%d_%d' % (i, ph))
                        r[12 + ph] = (45.0, -30.0, 0.0)[(i + ph) % 3]
                        if i == n - 1:
                            r[4 + ph], r[7 + ph] = val(ctx, name + 'c%d' % ph, 0, 50), val(ctx, name + 'u%d' % ph, 200, 250)
                ts = day('%s/eco/%02d_sm_csv/%02d' % (d, b, b), which, rows)
                for ph in (1, 2, 3):
                    cols = [P_ACTIVE, CURR, VOLT, ('phase_angle', ''), P_REACTIVE]
                    mine = [(t, r[ph], r[4 + ph], r[7 + ph], r[12 + ph], r[ph] * float(np.tan(r[12 + ph] * np.pi / 180))) for t, r in zip(ts, rows) if not _is_missing(r[ph])]
                    want.setdefault(key(b, ph), (cols, []))[1].extend(mine)
        for b in (1, 12):
            for f in folders:
                for k, which in enumerate(days[1:] if (b, f) == (1, folders[-1]) else days[:1]):
                    name = 'q%d_%s_%d_' % (b, f, k)
                    vs = [power(name + '%d' % i) if i == 0 and (b, f) == (1, folders[-1]) else val(ctx, name + '%d' % i) for i in range(n)]
                    ts = day('%s/eco/%02d_plugs_csv/%s%s' % (d, b, '%02d/' % b if nested else '', f), which, [[v] for v in vs])
                    want.setdefault(key(b, int(f) + 3), ([P_ACTIVE], []))[1].extend([(t, v) for t, v in zip(ts, vs) if not _is_missing(v)])
        for k in want:
            want[k] = (want[k][0], order(want[k][1]))
        write(d + '/eco/readme.txt', [('x',)])
        os.makedirs(d + '/eco/.hidden')
        os.makedirs(d + '/eco/03_occupancy_csv')
        m.convert_eco(d + '/eco', d + '/x.h5', 'Europe/Zurich')
        check(ctx, tables(ctx, d + '/x.h5'), want)


def h_combed(ctx, n, place):
    """Power, energy and current of a meter side by side; loads which were not measured are left out."""
    m = module('combed')
    meters = [('Academic Block', 'Building Total Mains', '0', 1, 1), ('Academic Block', 'Lifts', '0', 1, 2), ('Academic Block', 'Floor Total', '5', 1, 7),
              ('Academic Block', 'AHU', '5', 1, 11), ('Academic Block', 'Light', '3', 1, 12), ('Academic Block', 'UPS Sockets', '3', 1, 14),
              ('Lecture Block', 'Building Total Mains', '0', 2, 1), ('Lecture Block', 'Floor Total', '2', 2, 4), ('Lecture Block', 'AHU', '3', 2, 7)]
    with scratch() as d:
        want = {}
        for f, (block, load, part, b, meter) in enumerate(meters):
            k = n if f in (1, 7) else 1
            ts = instants(ctx, k, False, 't%d_' % f, unit='ms')
            vs = [[val(ctx, 'v%d_%d_%d' % (f, i, j)) for j in range(3)] for i in range(k)]
            for j, name in enumerate(('Power', 'Energy', 'Current')):
                write('/'.join([d + '/combed' + place, block, load, part, name + '.csv']), [(t[0], v[j]) for t, v in zip(ts, vs)])
            want[key(b, meter)] = ([P_ACTIVE, ('energy', 'active'), CURR], [(t[1],) + tuple(v) for t, v in zip(ts, vs)])
        m.convert_combed(d + '/combed', d + '/x.h5')
        check(ctx, tables(ctx, d + '/x.h5'), want)


def minutes(ctx, rows):
    """Means of the rows of every minute from the first to the last one (None where there is no row)."""
    from .resampling import bin_of, label
    b = [bin_of(ctx, r[0], 60) for r in rows]
    out = []
    for k in range(min(b), max(b) + 1):
        mine = [r for r, x in zip(rows, b) if x == k]
        out.append((label(ctx, k, 60),) + tuple(sum(r[j] for r in mine) / len(mine) if mine else None for j in range(1, len(rows[0]))))
    return out


def h_caxe(ctx, n):
    """Means per minute (every minute has a row)."""
    m = module('caxe')
    with scratch() as d:
        os.chdir(d)
        ts = instants(ctx, n, True, 't', hi=100)
        vs = [[val(ctx, 'v%d_%d' % (i, j)) for j in range(6)] for i in range(n)]
        write(d + '/a.csv', [[Text(t[1], '%Y-%m-%d %H:%M:%S%z', 'Etc/GMT-5')] + v for t, v in zip(ts, vs)])
        want = minutes(ctx, order([(t[1],) + tuple(v) for t, v in zip(ts, vs)]))
        ctx.assume(all(r[1] is not None for r in want))
        m.convert_caxe(d + '/a.csv')
        got = tables(ctx, 'test.h5')
        ctx.expect(list(got) == [key(1, 1)], "exactly the meters of the data set are stored")
        df = got[key(1, 1)]
        ctx.expect([tuple(c) for c in df.columns] == [P_REACTIVE, P_APP, CURR, FREQ, VOLT, P_ACTIVE], "the columns of a meter are what it measures")
        ctx.expect(len(df) == len(want), "one row per minute")
        ix = df.index if df.index.tz is not None else df.index.tz_localize('UTC')
        ctx.all_eq(ix, [r[0] for r in want], "minutes")
        for j in range(6):
            ctx.all_eq(list(df.iloc[:, j]), [r[1 + j] for r in want], "means")


IAWE = {'W': P_ACTIVE, 'VAR': P_REACTIVE, 'VA': P_APP, 'VLN': VOLT, 'f': FREQ, 'A': CURR, 'PF': ('pf', '')}


def middle(ctx, vals):
    v = list(vals)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            if v[j] > v[j + 1]:
                v[j], v[j + 1] = v[j + 1], v[j]
    k = len(v) // 2
    return v[k] if len(v) % 2 else (v[k - 1] + v[k]) / 2


def h_iawe(ctx, n, gap, meter, same):
    """Means per minute of the rows without gaps; minutes without rows hold no
    power and the median of everything else."""
    m = module('iawe')
    need(ctx, m, 'START_DATETIME'), need(ctx, m, 'END_DATETIME')
    real = m.START_DATETIME, m.END_DATETIME
    m.START_DATETIME, m.END_DATETIME = '2020-03-29 00:58', '2020-03-29 01:00'
    try:
        with scratch() as d:
            want = {}
            for c in range(1, 12):
                names = ['W', 'VAR', 'VLN'] if c != 2 else ['f', 'VA', 'A', 'PF']
                k = n if c == meter else 1
                ts = [epoch(ctx, 't%d_%d' % (c, i), -60 if c == meter else 0, 179 if c == meter else 1) for i in range(k)]
                for i in range(k):
                    for j in range(i):
                        ctx.assume(ts[i][0] != ts[j][0])
                if n == 3 and c == meter:    # three different minutes, the first of them not stored
                    ctx.assume(conj(ts[0][0] < rawfiles.EPOCH, ts[1][0] >= rawfiles.EPOCH, ts[1][0] < rawfiles.EPOCH + 60, ts[2][0] >= rawfiles.EPOCH + 60))
                if same and c == meter and ctx.bool('same'):
                    ts[1] = ts[0]
                vs = [[val(ctx, 'v%d_%d_%d' % (c, i, j)) if c == meter else float(i + j) for j in range(len(names))] for i in range(k)]
                rows = [(t[1],) + tuple(v) for i, (t, v) in enumerate(zip(ts, vs)) if (i, c) != (gap, meter) and not (i == 1 and ts[1] is ts[0])]
                if gap is not None and c == meter:
                    vs[gap][1] = '\\N'
                write('%s/iawe/electricity/%d.csv' % (d, c), [[t[0]] + v for t, v in zip(ts, vs)], head=['timestamp,' + ','.join(names)])
                means = minutes(ctx, order(rows))
                cols = [IAWE[x] for x in names]
                idx = pd.date_range('2020-03-29 00:58', '2020-03-29 01:00', freq='1min', tz='UTC')
                out = []
                for t in idx:
                    hit = [r for r in means if bool(r[0] == t) and r[1] is not None]
                    out.append((t,) + (tuple(hit[0][1:]) if hit else tuple(
                        0 if col[0] == 'power' else middle(ctx, [r[1 + j] for r in means if r[1] is not None]) for j, col in enumerate(cols))))
                want[key(1, c)] = (cols, out)
            m.convert_iawe(d + '/iawe', d + '/x.h5')
            check(ctx, tables(ctx, d + '/x.h5'), want)
    finally:
        m.START_DATETIME, m.END_DATETIME = real


def h_greend(ctx, n, plan):
    """Blocks with a header of their own; columns are numbered as they appear.
    plan: per block the columns and number of rows."""
    m = module('greend')
    with scratch() as d:
        names, rows, text = [], [], []
        ts = instants(ctx, sum(k for _, k in plan), True, 't')
        at = 0
        for b, (cols, k) in enumerate(plan):
            names += [c for c in cols if c not in names]
            text.append(['timestamp'] + list(cols))
            for i in range(k):
                v = [val(ctx, 'v%d_%d_%d' % (b, i, j)) for j in range(len(cols))]
                text.append([ts[at][0]] + v)
                rows.append((ts[at][1], dict(zip(cols, v))))
                at += 1
            if b == 0 and n == 2:
                text.append([ts[0][0]] + v)       # a repeated row
                rows[-1] = rows[-1] if k > 1 else (ts[0][1], dict(zip(cols, v)))
        write(d + '/greend/building0/dataset_2013-12-07.csv', text)
        write(d + '/greend/building0/notes.txt', [('x',)])
        t1, v1 = epoch(ctx, 'u'), val(ctx, 'w')
        write(d + '/greend/building1/dataset_2013-12-07.csv', [('timestamp', 'A'), (t1[0], v1)])
        t2, v2 = epoch(ctx, 'u2'), val(ctx, 'w2')
        ctx.assume(t2[0] != t1[0])
        write(d + '/greend/building1/dataset_2013-12-08.csv', [('timestamp', 'A'), (t2[0], v2)])
        m.convert_greend(d + '/greend', d + '/x.h5', use_mp=False)
        rows = order([(t,) + tuple(v.get(c, NAN) for c in names) for t, v in rows])
        want = {key(1, j + 1): ([P_ACTIVE], [(r[0], r[1 + j]) for r in rows]) for j in range(len(names))}
        want[key(2, 1)] = ([P_ACTIVE], order([(t1[1], v1), (t2[1], v2)]))
        check(ctx, tables(ctx, d + '/x.h5'), want)


def h_smart(ctx, n, years):
    """Column by column, with the use of the home first."""
    m = module('smart')
    with scratch() as d:
        want = {}
        alternatives = []
        for b, h in enumerate('ABC'):
            use, gen = {'A': ('use [kW]', 'gen [kW]'), 'B': ('Usage [kW]', 'Generation [kW]'), 'C': ('Usage [kW]', 'gen [kW]')}[h]
            parts = []
            for y in (years if h == 'A' else years[:1]):
                ts = instants(ctx, n if h == 'A' else 1, False, 't%s%s_' % (h, y))
                vs = [[val(ctx, 'v%s%s_%d_%d' % (h, y, i, j)) for j in range(4)] for i in range(len(ts))]
                base = '%s/smart/Home%s/%s/Home%s-meter1' % (d, h, y, h)
                write(base + '_%s.csv' % y, [[Text(t[1], '%Y-%m-%d %H:%M:%S')] + v for t, v in zip(ts, vs)], head=['Date & Time,%s,%s,Fridge [kW],Oven [kW]' % (use, gen)])
                write(base + '.txt', [('Home%s-meter1' % h,), ('x',), ('30 minutes',), ('end',)])
                write(base[:-1] + '2_%s.csv' % y, [['x', 1]], head=['Date & Time,Lamp [kW]'])
                write(base[:-1] + '2.txt', [('Home%s-meter2' % h,), ('x',), ('1 minute',), ('end',)])
                parts.append([(t[1], v[0], v[2], v[3]) for t, v in zip(ts, vs)])
            for j in range(3):
                want[key(b + 1, j + 1)] = ([P_ACTIVE], [(r[0], r[1 + j]) for p in parts for r in p])
        m.convert_smart(d + '/smart', d + '/x.h5')
        got = tables(ctx, d + '/x.h5')
        order_ = os.listdir(d + '/smart/HomeA')
        if len(years) == 2 and list(order_) != list(years):
            for j in range(3):
                cols, rows = want[key(1, j + 1)]
                want[key(1, j + 1)] = (cols, rows[n:] + rows[:n])
        check(ctx, got, want)


def h_dataport(ctx, n, solar, chunk, files):
    """kW become W; the use of a home is what it draws plus what it generates;
    homes without a mains meter or with too little data are left out."""
    import shutil
    import yaml
    from nilm_metadata import convert_yaml_to_hdf5 as stub
    m = importlib.import_module('nilmtk.dataset_converters.dataport.csv_converter')
    LAST[0] = None
    calls = importlib.import_module('nilm_metadata.convert_yaml_to_hdf5').CALLS if not callable(stub) else stub.__globals__['CALLS']
    del calls[:]
    with scratch() as d:
        write(d + '/dp/metadata.csv', [(40, 'x', 'Austin', 'Texas', 1990, '100%', 'yes'), (26, 'x', 'Austin', 'Texas', 1990, '99%', 'yes'),
                                       (27, 'x', 'Austin', 'Texas', 1990, '9%', 'yes'), (28, 'x', 'Austin', 'Texas', 1990, '99%', ''),
                                       (30, 'x', 'Austin', 'Texas', 1990, '97%', 'yes')],
              head=['dataid,building_type,city,state,house_construction_year,egauge_1s_data_availability,grid', 'id,b,c,s,h,e,g'])
        sources = ['solar'] * (solar in (1, 3)) + ['solar2'] * (solar in (2, 3))
        cols = ['grid'] + sources + ['air1', 'battery1', 'air2', 'car1']
        kept = ['air1', 'air2', 'car1']
        home26, home40, paths = [], [], []
        for f in range(files):
            ts = instants(ctx, n, f == 0, 't%d_' % f, hi=600)
            rows = []
            for i, t in enumerate(ts):
                v = {c: ctx.real('v%d_%d_%s' % (f, i, c), -10, 10) for c in cols}
                rows.append([26, t] + [v[c] for c in cols])
                home26.append((f, t[1], v))
                rows.append([27, t] + [1.0] * len(cols))
                rows.append([28, t] + [1.0] * len(cols))
                if i == 0:
                    v = {c: ctx.real('w%d_%d_%s' % (f, i, c), -10, 10) for c in cols}
                    rows.append([40, t] + [v[c] for c in cols])
                    home40.append((f, t[1], v))
            for r in rows:
                r[1] = Text(r[1][1], '%Y-%m-%d %H:%M:%S%z', 'Etc/GMT+6')
            paths.append('%s/dp/%d.csv' % (d, f))
            write(paths[-1], rows, head=['dataid,localminute,' + ','.join(cols)])
        want = {}
        names = ['use'] + kept if not sources else kept + ['use']
        for b, home in ((1, home26), (2, home40)):
            rows = []
            for f in range(files):
                rows += order([(t,) + tuple((sum([v[s] for s in sources], v['grid']) if c == 'use' else v[c]) * 1000 for c in names) for g, t, v in home if g == f])
            for j in range(len(names)):
                want[key(b, j + 1)] = ([P_ACTIVE], [(r[0], r[1 + j]) for r in rows])
        m.convert_dataport(paths, d + '/dp/metadata.csv', d + '/x.h5', chunksize=chunk)
        check(ctx, tables(ctx, d + '/x.h5'), want)
        ctx.expect(len(calls) == 1 and calls[0][1][1] == d + '/x.h5', "the metadata are added to the file")
        meta = calls[0][1][0]
        try:
            for b, original in ((1, 26), (2, 40)):
                with open('%s/building%d.yaml' % (meta, b)) as fh:
                    doc = yaml.safe_load(fh)
                ctx.expect(doc['original_name'] == original and doc['instance'] == b, "which home it is")
                ctx.expect({k for k, v in doc['elec_meters'].items() if v.get('site_meter')} == {names.index('use') + 1} and
                           set(doc['elec_meters']) == set(range(1, 5)), "the mains meter")
                ctx.expect([(a['original_name'], a['type'], a['instance'], a['meters']) for a in doc['appliances']] ==
                           [('air1', 'air conditioner', 1, [names.index('air1') + 1]), ('air2', 'air conditioner', 2, [names.index('air2') + 1]),
                            ('car1', 'electric vehicle', 1, [names.index('car1') + 1])] * 1, "appliances of the meters")
        finally:
            shutil.rmtree(os.path.dirname(meta), ignore_errors=True)


def cases(tier):
    X, V = rawfiles.extra(), rawfiles.extra(values=True)
    out = [Case(h_redd, X, n=3), Case(h_ukdale, X, n=2, drop=True, one_sec=True), Case(h_ukdale, X, n=3, drop=True, one_sec=False),
           Case(h_ukdale, X, n=2, drop=False, one_sec=True), Case(h_refit, X, n=2, clean=False, house=15), Case(h_refit, X, n=2, clean=True, house=2),
           Case(h_hipe, X, n=2, which=0), Case(h_hipe, X, n=3, which=10), Case(h_dred, X, n=3), Case(h_ideal, V, n=2),
           Case(h_ampds, X, n=2, gap=None), Case(h_ampds, X, n=3, gap=(1, 4)), Case(h_combed, X, n=2, place=''), Case(h_combed, X, n=3, place='/iiitd'),
           Case(h_caxe, X, n=3), Case(h_iawe, X, n=2, gap=None, meter=1, same=True), Case(h_iawe, X, n=2, gap=1, meter=11, same=False),
           Case(h_iawe, X, n=2, gap=None, meter=2, same=False), Case(h_iawe, X, n=3, gap=None, meter=5, same=False), Case(h_greend, X, n=1, plan=[('AB', 2)]),
           Case(h_greend, X, n=2, plan=[('AB', 1), ('BC', 2)]), Case(h_smart, X, n=2, years=['2015']), Case(h_smart, X, n=1, years=['2014', '2015'])]
    out += [Case(h_eco, eco, n=2, folders=('01', '02', '03'), nested=False), Case(h_eco, eco, n=2, folders=('01', '02'), nested=True)]
    out += [Case(h_dataport, X, n=2, solar=s, chunk=c, files=f) for s, c, f in ((0, 100, 1), (1, 2, 1), (3, 100, 1), (2, 100, 2))]
    if tier == 'thorough':
        out += [Case(h_redd, X, n=4), Case(h_ukdale, X, n=4, drop=True, one_sec=True), Case(h_ukdale, X, n=4, drop=False, one_sec=False), Case(h_refit, X, n=4, clean=True, house=13),
                Case(h_refit, X, n=3, clean=False, house=21), Case(h_hipe, X, n=4, which=5), Case(h_dred, X, n=4), Case(h_ideal, V, n=3), Case(h_ampds, X, n=4, gap=None),
                Case(h_combed, X, n=4, place='/iiitd'), Case(h_caxe, X, n=4), Case(h_iawe, X, n=3, gap=None, meter=1, same=True), Case(h_iawe, X, n=3, gap=1, meter=4, same=False),
                Case(h_greend, X, n=3, plan=[('AB', 1), ('BC', 2)]), Case(h_greend, X, n=2, plan=[('A', 1), ('AB', 2), ('C', 1)]), Case(h_smart, X, n=3, years=['2014', '2015']),
                Case(h_dataport, X, n=3, solar=3, chunk=2, files=1), Case(h_dataport, X, n=2, solar=1, chunk=3, files=2)]
    return out
