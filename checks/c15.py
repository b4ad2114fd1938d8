"""C15 loading a group of meters: the aggregate of its members."""
from .stream import *
from symrun.harness import conc_time
from symrun import shims

EXPLANATION = ("MeterGroup.load, combine_chunks_from_generators and dataframe_of_meters run symbolically on meters which deliver "
               "arbitrary readings; which rows and readings are missing, and the requested section, are symbolic choices.  Every cell "
               "is compared with the sum (mean for voltage and the like) of the readings the members have at that instant.")
BOUNDS = {"meters": "1..3 (also nested)", "grid": "3..4 instants, concrete", "readings": "arbitrary, any of the listed rows missing",
          "sections": "1..2, starting on and off the grid"}
ASSUMPTIONS = BASE_ASSUMPTIONS + ["member meters are stand-ins which deliver resampled rows of the requested section, as ElecMeter.load does"]

PA, PP, V, PF, PH, E, CUR = (('power', 'active'), ('power', 'apparent'), ('voltage', ''), ('power factor', ''), ('phase angle', ''),
                             ('energy', 'active'), ('current', ''))
AVERAGED = ('voltage', 'pf', 'frequency', 'power factor', 'phase angle')
STEP = 60


def _nansum(a, axis=None, out=None, dtype=None, **k):
    from symrun.proxies import contains_sym
    arrs = [np.asarray(x) for x in a]
    if all(x.dtype != object for x in arrs):
        return np.nansum(a, axis=axis, out=out, dtype=dtype, **k)
    if axis != 0:
        raise Unsupported("nansum axis %r" % (axis,))
    n = len(arrs[0])
    res = np.empty(n, dtype=object)
    for i in range(n):
        tot = 0.0
        for x in arrs:
            if not (isinstance(x[i], float) and x[i] != x[i]):
                tot = tot + x[i]
        res[i] = tot
    if out is not None:
        out[...] = res
        return out
    return res


def _frame(*a, **k):
    """An all-NaN float frame will hold proxies."""
    data = a[0] if a else k.get('data')
    if isinstance(data, float) and data != data:
        k = dict(k, dtype=object)
        return pd.DataFrame(*a, **k)
    return shims._mk_frame(pd.DataFrame)(*a, **k)


def extra(ctx):
    F = shims._cls(pd.DataFrame, (), _frame)
    return {'np': {'nansum': _nansum}, 'pd': {'DataFrame': F}, 'subst': [(pd.DataFrame, F)]}


class Member(object):
    """A meter: rows at concrete instants, symbolic readings."""
    name = None

    def __init__(self, ctx, i, grid, cols, holes, absent):
        from nilmtk.elecmeter import ElecMeterID
        self.ctx = ctx
        self.identifier = ElecMeterID(i, 1, 'D')
        self.cols = cols
        self.rows = {}                  # second -> [reading per column]
        for g in grid:
            if g in absent and ctx.bool('m%d_%d_absent' % (i, g)):
                continue
            self.rows[g] = [float('nan') if (g, k) in holes and ctx.bool('m%d_%d_%d_nan' % (i, g, k))
                            else ctx.real('m%d_%d_%d' % (i, g, k), 0, 1000) for k in range(len(cols))]
        self.span = (grid[0], grid[-1] + STEP)
        self.log = []

    def sample_period(self):
        return STEP

    def get_timeframe(self):
        from nilmtk.timeframe import TimeFrame
        return TimeFrame(at(self.ctx, self.span[0]), at(self.ctx, self.span[1]))

    def _convert_physical_quantity_and_ac_type_to_cols(self, **kw):
        kw.pop('physical_quantity', None)
        kw.pop('ac_type', None)
        kw['columns'] = list(self.cols)
        return kw

    def load(self, **kw):
        from nilmtk.timeframe import TimeFrame
        self.log.append(kw)
        for s in kw['sections']:
            lo, hi = sec(self.ctx, s.start), sec(self.ctx, s.end)
            gs = [g for g in sorted(self.rows) if g + STEP > lo and g < hi]
            data = {c: self.ctx.array([self.rows[g][k] for g in gs]) for k, c in enumerate(self.cols)}
            df = pd.DataFrame(data, index=index(self.ctx, gs), columns=pd.MultiIndex.from_tuples(self.cols, names=['physical_quantity', 'type']))
            set_attr(df, 'timeframe', TimeFrame(at(self.ctx, max(lo, self.span[0])), at(self.ctx, min(hi, self.span[1])))
                     if gs else TimeFrame(None, None) if False else s)
            yield df


def tz(ctx):
    return 'UTC' if ctx.symbolic else ctx.tz


def at(ctx, s):
    return conc_time(s, 'UTC', tz(ctx))


def sec(ctx, t):
    from symrun.proxies import BASE
    return (t - BASE).total_seconds()


def index(ctx, secs):
    return ctx.concrete_index(secs)


def cell(ctx, members, g, col):
    vs = []
    for m in members:
        if isinstance(m, list):
            v = cell(ctx, m, g, col)
        elif g in m.rows and col in m.cols:
            v = m.rows[g][list(m.cols).index(col)]
        else:
            continue
        if not ctx.isnan(v):
            vs.append(v)
    if not vs:
        return float('nan')
    tot = vs[0]
    for v in vs[1:]:
        tot = tot + v
    return tot / len(vs) if col[0] in AVERAGED else tot


def build(members):
    from nilmtk.metergroup import MeterGroup
    return MeterGroup([build(m) if isinstance(m, list) else m for m in members])


def flat(members):
    for m in members:
        if isinstance(m, list):
            for x in flat(m):
                yield x
        else:
            yield m


def check_chunk(ctx, df, members, lo, hi, allcols, cols=None):
    gs = list(range(lo - lo % STEP, hi, STEP))
    ctx.all_eq([sec(ctx, t) for t in df.index], gs, "the regular grid of the section, end excluded")
    ctx.expect(sorted(df.columns) == sorted(allcols), "every column some member has")
    for c in allcols:
        for k, g in enumerate(gs):
            want = cell(ctx, members, g, c)
            ctx.eq(df[c].iloc[k], want, "sum (mean) of the members' readings")
    tfs = [m for m in flat(members) if any(g + STEP > lo and g < hi for g in m.rows)]
    if tfs:
        ctx.eq(df.timeframe.start, at(ctx, min(max(lo, m.span[0]) for m in tfs)), "union of the members' time frames: start")
        ctx.eq(df.timeframe.end, at(ctx, max(min(hi, m.span[1]) for m in tfs)), "union of the members' time frames: end")


def h_load(ctx, shape, grid, sections, chunksize, holes, absent):
    from nilmtk.timeframe import TimeFrame
    count = [0]

    def make(s):
        if isinstance(s, list):
            return [make(x) for x in s]
        count[0] += 1
        i = count[0]
        return Member(ctx, i, grid, s, [(g, k) for g, k in holes] if i <= 2 else (), absent if i <= 2 else ())
    members = [make(s) for s in shape]
    allcols = sorted(set(c for m in flat(members) for c in m.cols))
    grp = build(members)
    kw = {}
    if chunksize:
        kw['chunksize'] = chunksize
    if sections is not None:
        kw['sections'] = [TimeFrame(at(ctx, a), at(ctx, b)) for a, b in sections]
    got = list(grp.load(**kw))
    pieces = []
    for a, b in sections or [(grid[0], grid[-1] + STEP)]:
        step = (b - a) if not chunksize else chunksize * STEP
        while a < b:
            pieces.append((a, min(a + step, b)))
            a += step
    ctx.expect(len(got) == len(pieces), "one chunk per piece of a section")
    for df, (a, b) in zip(got, pieces):
        check_chunk(ctx, df, members, a, b, allcols)
    for m in flat(members):
        for kw in m.log:
            ctx.expect(kw.get('sample_period') == STEP, "members are resampled to the group's period")


def h_nothing(ctx):
    from nilmtk.timeframe import TimeFrame
    m = Member(ctx, 1, (0, 60), (PA, V), (), ())
    none = TimeFrame(at(ctx, 0), at(ctx, 60)).intersection(TimeFrame(at(ctx, 120), at(ctx, 180)))
    got = list(build([m]).load(sections=[none]))
    ctx.expect(len(got) == 1 and got[0].empty and sorted(got[0].columns) == sorted([PA, V]), "empty sections: an empty frame with the columns")


def h_dataframe(ctx, n, grid, holes, absent, cols, parts):
    """One column per meter, missing readings missing."""
    from nilmtk.timeframe import TimeFrame
    members = [Member(ctx, i + 1, grid, cols[i], holes if i < 2 else (), absent if i == 0 else ()) for i in range(n)]
    secs = [TimeFrame(at(ctx, a), at(ctx, b)) for a, b in parts]
    df = build(members).dataframe_of_meters(sections=secs)
    log = members[0].log[0]
    ctx.expect(log.get('physical_quantity') == 'power' and log.get('ac_type') == 'best' and log.get('sample_period') == STEP,
               "best power readings at the group's period")
    got = {}
    rows = [sec(ctx, t) for t in df.index]
    ctx.expect(rows == sorted(set(rows)), "every row once, in order")
    for m in members:
        for g in grid:
            if not any(g >= a and g < b for a, b in parts):
                continue
            have = g in rows and tuple(m.identifier) in [tuple(c) for c in df.columns]
            v = float('nan')
            if have:
                col = [k for k, c in enumerate(df.columns) if tuple(c) == tuple(m.identifier)]
                ctx.expect(len(col) == 1, "one column per meter")
                v = df.iloc[rows.index(g), col[0]]
            if g in m.rows:
                vals = [x for x in m.rows[g] if not ctx.isnan(x)]
                want = float('nan')
                if vals:
                    want = vals[0]
                    for x in vals[1:]:
                        want = want + x
            else:
                want = float('nan')
            ctx.eq(v, want, "reading of the meter")


def cases(tier):
    t = tier == 'thorough'
    G3, G4 = (0, 60, 120), (0, 60, 120, 180)
    C = lambda *a, **k: Case(*a, extra=extra, **k)
    A = [(PA,), (PA,)]
    cs = [C(h_load, shape=[(PA,)], grid=G3, sections=None, chunksize=None, holes=((60, 0),), absent=(0,)),
          C(h_load, shape=A, grid=G3, sections=None, chunksize=None, holes=((60, 0), (120, 0)), absent=(0,)),
          C(h_load, shape=A, grid=G3, sections=[(30, 150)], chunksize=None, holes=((60, 0),), absent=(0, 120)),
          C(h_load, shape=A, grid=G4, sections=[(0, 60), (120, 240)], chunksize=None, holes=((120, 0),), absent=(0,)),
          C(h_load, shape=A, grid=G4, sections=None, chunksize=2, holes=((60, 0),), absent=(120,)),
          C(h_load, shape=A, grid=G4, sections=[(60, 240)], chunksize=1, holes=(), absent=(120,)),
          C(h_load, shape=[(PA, V), (PA, V)], grid=(0, 60), sections=None, chunksize=None, holes=((0, 1), (60, 0)), absent=(60,)),
          C(h_load, shape=[(PA, V), (PP, V), (PA,)], grid=(0, 60), sections=None, chunksize=None, holes=((0, 1), (0, 0)), absent=(60,)),
          C(h_load, shape=[(PF, PH), (PH, CUR)], grid=(0, 60), sections=None, chunksize=None, holes=((0, 0), (60, 1)), absent=()),
          C(h_load, shape=[(('frequency', ''), ('pf', '')), (('frequency', ''), ('pf', ''), E)], grid=(0, 60), sections=None, chunksize=None, holes=((0, 0),), absent=(60,)),
          C(h_load, shape=[[(PA,), (PA,)], (PA,)], grid=(0, 60), sections=None, chunksize=None, holes=((0, 0),), absent=(60,)),
          C(h_load, shape=[[(PA, V), (PA, V)]], grid=(0, 60), sections=[(0, 120)], chunksize=None, holes=((0, 1),), absent=(60,)),
          C(h_load, shape=[(PA,), (PA,), (PP,)], grid=(0, 60), sections=None, chunksize=None, holes=((0, 0),), absent=()),
          C(h_load, shape=A, grid=G4, sections=[(60, 90), (120, 240)], chunksize=None, holes=(), absent=(60,)),
          C(h_nothing)]
    cs += [C(h_dataframe, n=2, grid=G3, holes=((60, 0),), absent=(0,), cols=[(PA,), (PP,)], parts=[(0, 180)]),
           C(h_dataframe, n=2, grid=(0, 60), holes=((60, 1), (60, 0)), absent=(0, 60), cols=[(PA, PP), (PA,)], parts=[(0, 120)]),
           C(h_dataframe, n=2, grid=G4, holes=((60, 0),), absent=(180,), cols=[(PA,), (PP,)], parts=[(0, 120), (120, 240)])]
    if t:
        cs += [C(h_load, shape=A, grid=G4, sections=None, chunksize=None, holes=tuple((g, 0) for g in G4), absent=(60,)),
               C(h_load, shape=[(PA, V), (PA, V)], grid=G3, sections=None, chunksize=None, holes=tuple((g, 1) for g in G3), absent=(60,)),
               C(h_load, shape=[(PA,), (PA,), (PA,), (PA,)], grid=G4, sections=[(0, 120), (130, 230)], chunksize=None, holes=((0, 0), (60, 0)), absent=(120,)),
               C(h_load, shape=[[(PA,), [(PA,), (PP,)]], (PA,)], grid=(0, 60), sections=None, chunksize=1, holes=((0, 0),), absent=(60,))]
    return cs
