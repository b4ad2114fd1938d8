"""C19 which columns a request selects."""
from .groups import *

EXPLANATION = ("select_best_ac_type, measurement_columns, available_ac_types, available_physical_quantities, available_columns, "
               "ElecMeter._convert_physical_quantity_and_ac_type_to_cols (through load) and its MeterGroup counterpart run "
               "symbolically on meters with arbitrary subsets of measurements and on arbitrary (also invalid) requests, strings being "
               "symbolic values over the vocabulary; the columns handed to the store are compared with the documented selection.")
BOUNDS = {"vocabulary": "6 columns over 4 physical quantities", "requests": "string, list of 1..2 strings, 'best', None; invalid names",
          "meters": "1..2 per group"}
ASSUMPTIONS = BASE_ASSUMPTIONS



def extra(ctx):
    """pandas keeps the characters of its labels."""
    def plain(x):
        return str(x) if isinstance(x, str) else x

    class MI(object):
        @staticmethod
        def from_tuples(ts, **k):
            return pd.MultiIndex.from_tuples([tuple(plain(x) for x in t) for t in ts], **k)
    return {'pd': {'MultiIndex': MI}}


AC = ['active', 'apparent', 'reactive']
VOCAB = [('power', 'active'), ('power', 'apparent'), ('power', 'reactive'), ('energy', 'reactive'), ('energy', 'active'), ('voltage', '')]
PQS = ['power', 'energy', 'voltage', 'current', 'watts']
ACS = AC + ['best', 'real']
VALID_PQ = ['power', 'energy', 'voltage', 'current']


class Store(object):
    def __init__(self):
        self.asked = []

    def load(self, **kw):
        self.asked.append(kw)
        return iter(())


def device(ctx, name, present=None, order=None):
    """Measurements of a device: any subset of the vocabulary."""
    cols = []
    for k, c in enumerate(VOCAB):
        if (present is None or k in present) and ctx.bool('%s_has%d' % (name, k)):
            cols.append(c)
    if order:
        cols.reverse()
    ms = []
    for pq, ac in cols:
        m = {'physical_quantity': pq}
        if ac or order:
            m['type'] = ac
        ms.append(m)
    return cols, {'sample_period': 60, 'max_sample_period': 120, 'measurements': ms}


def best(cols, pq):
    ts = [c[1] for c in cols if c[0] == pq]
    for a in AC:
        if a in ts:
            return a
    return None


def pick(ctx, name, kind, options):
    """A request: None, a string, or a list."""
    if kind is None:
        return None
    if kind == 'str':
        return ctx.string(name, options)
    return [ctx.string('%s%d' % (name, i), options) for i in range(kind)]


def as_list(x):
    return None if x is None else x if isinstance(x, list) else [x]


def member(x, options):
    return any(bool(x == o) for o in options)


def wanted(cols, pq, ac):
    """The documented selection, or None for a refusal."""
    pqs, acs = as_list(pq), as_list(ac)
    if acs is not None and not isinstance(ac, list) and bool(ac == 'best'):
        if pqs is None:
            pqs = sorted(set(c[0] for c in cols))
        if not all(member(p, VALID_PQ) for p in pqs):
            return None
        out = [(p, best(cols, p)) for p in VALID_PQ if member(p, pqs) and best(cols, p)]
        return out or None
    if acs is not None and not all(member(a, AC) for a in acs):
        return None
    if pqs is not None and not all(member(p, VALID_PQ) for p in pqs):
        return None
    out = [c for c in cols if (pqs is None or member(c[0], pqs)) and (acs is None or member(c[1], acs))]
    if out or (pqs is None and acs is None):
        return out
    return None


def refused(f):
    from nilmtk.exceptions import MeasurementError
    try:
        f()
    except MeasurementError:
        return True
    return False


def h_load(ctx, pq, ac, order, present=None):
    from nilmtk.elecmeter import ElecMeter, ElecMeterID
    cols, dev = device(ctx, 'd', present, order)
    with registry({'dev': dev}):
        store = Store()
        m = ElecMeter(store, {'device_model': 'dev', 'data_location': '/key'}, ElecMeterID(1, 1, 'D'))
        kw = {}
        p, a = pick(ctx, 'pq', pq, PQS), pick(ctx, 'ac', ac, ACS)
        if p is not None:
            kw['physical_quantity'] = p
        if a is not None:
            kw['ac_type'] = a
        no = refused(lambda: m.load(sections='S', **kw))
        want = wanted(cols, p, a)
        if want is None:
            ctx.expect(no and not store.asked, "refused: nothing measured matches the request")
            return
        ctx.expect(not no, "accepted")
        ctx.expect(len(store.asked) == 1, "one load from the store")
        got = store.asked[0]
        ctx.expect(set(got) == {'key', 'columns', 'sections'} and got['key'] == '/key' and got['sections'] == 'S', "other arguments kept")
        ctx.expect(sorted(got['columns']) == sorted(want), "exactly the matching columns, each once")


def h_columns(ctx, n, both):
    from nilmtk.elecmeter import ElecMeter, ElecMeterID
    cols, dev = device(ctx, 'd', (0, 1, 5))
    with registry({'dev': dev}):
        store = Store()
        m = ElecMeter(store, {'device_model': 'dev', 'data_location': '/key'}, ElecMeterID(1, 1, 'D'))
        req = [(ctx.string('pq%d' % i, ['power', 'voltage']), ctx.string('ac%d' % i, ['active', 'apparent', ''])) for i in range(n)]
        if both:
            ctx.raises(ValueError, lambda: m.load(columns=req, **{both: 'power' if both == 'physical_quantity' else 'active'}), "columns exclude other selections")
            return
        no = refused(lambda: m.load(columns=req))
        if all(any(bool(p == c[0]) and bool(a == c[1]) for c in cols) for p, a in req):
            ctx.expect(not no and len(store.asked) == 1, "accepted")
            got = store.asked[0]['columns']
            ctx.expect(len(got) == n and all(bool(g[0] == r[0]) and bool(g[1] == r[1]) for g, r in zip(got, req)), "the columns asked for")
        else:
            ctx.expect(no, "refused: a column which is not measured")


def h_available(ctx, order):
    from nilmtk.elecmeter import ElecMeter
    cols, dev = device(ctx, 'd', None, order)
    with registry({'dev': dev}):
        m = ElecMeter(None, {'device_model': 'dev'})
        ctx.expect(sorted(m.available_columns()) == sorted(cols), "every measured column once")
        ctx.expect(sorted(m.available_physical_quantities()) == sorted(set(c[0] for c in cols)), "every physical quantity once")
        pq = ctx.string('pq', VALID_PQ)
        mine = [c[1] for c in cols if bool(pq == c[0]) and (c[1] or order)]
        got = m.available_ac_types(pq)
        ctx.expect(sorted(got) == sorted(mine), "AC types of the quantity")
        both = m.available_ac_types([pq, 'energy'])
        ctx.expect(sorted(both) == sorted(set(mine + [c[1] for c in cols if c[0] == 'energy'])), "AC types of both quantities, each once")
        ctx.raises(ValueError, lambda: m.available_ac_types('watts'), "unknown physical quantity")
        p = m.available_power_ac_types()
        ctx.expect(sorted(p) == sorted(c[1] for c in cols if c[0] == 'power'), "AC types of power")


def h_group(ctx, pq, ac):
    """A group has the columns of all its meters; a meter that cannot serve
    the request makes the group refuse it."""
    from nilmtk.elecmeter import ElecMeter, ElecMeterID
    from nilmtk.metergroup import MeterGroup
    c1, d1 = device(ctx, 'a', (0, 1, 5))
    c2, d2 = device(ctx, 'b', (0, 4))
    with registry({'one': d1, 'two': d2}):
        g = MeterGroup([ElecMeter(None, {'device_model': 'one'}, ElecMeterID(1, 1, 'D')),
                        MeterGroup([ElecMeter(None, {'device_model': 'two'}, ElecMeterID(2, 1, 'D'))])])
        kw = {}
        p, a = pick(ctx, 'pq', pq, ['power', 'energy', 'voltage']), pick(ctx, 'ac', ac, ['active', 'apparent', 'best'])
        if p is not None:
            kw['physical_quantity'] = p
        if a is not None:
            kw['ac_type'] = a
        out = []
        no = refused(lambda: out.append(g._convert_physical_quantity_and_ac_type_to_cols(sections='S', **kw)))
        w1, w2 = wanted(c1, p, a), wanted(c2, p, a)
        if w1 is None or w2 is None:
            ctx.expect(no, "refused: a meter cannot serve the request")
            return
        ctx.expect(not no, "accepted")
        ctx.expect(sorted(out[0]['columns']) == sorted(set(w1 + w2)), "union of the meters' columns, each once")
        ctx.expect(out[0]['sections'] == 'S', "other arguments kept")
        ctx.expect(sorted(g.available_physical_quantities()) == sorted(set(c[0] for c in c1 + c2)), "quantities of all meters, each once")
        ctx.expect(sorted(g.available_ac_types('power')) == sorted(set(c[1] for c in c1 + c2 if c[0] == 'power')), "AC types of all meters, each once")


def h_best(ctx, n, m):
    from nilmtk.measurement import select_best_ac_type
    av = [ctx.string('a%d' % i, AC + ['']) for i in range(n)]
    mains = None if m is None else [ctx.string('m%d' % i, AC + ['']) for i in range(m)]
    try:
        got = select_best_ac_type(av, mains)
    except KeyError:
        got = None
    order = [t for t in AC if member(t, av)]
    if mains is not None:
        order = [t for t in order if member(t, mains)] or order
    if not order:
        ctx.expect(got is None, "no AC type: KeyError")
    else:
        ctx.expect(got is not None and bool(got == order[0]), "the preferred type that is available (and shared with mains if any is)")


def h_make(ctx, n):
    from nilmtk.measurement import measurement_columns, LEVEL_NAMES
    cs = [(ctx.string('p%d' % i, ['power', 'cumulative energy', 'voltage', 'watts']), ctx.string('t%d' % i, ['active', '', 'real'])) for i in range(n)]
    bad = any(bool(p == 'watts') or (not bool(p == 'voltage') and not bool(t == 'active')) for p, t in cs)
    out = []
    no = refused(lambda: out.append(measurement_columns(cs)))
    ctx.expect(no == bad, "invalid names refused, valid ones accepted")
    if out:
        ctx.expect(list(out[0].names) == LEVEL_NAMES and [tuple(str(y) for y in x) for x in out[0]] == [(str(p), str(t)) for p, t in cs], "the columns")


def cases(tier):
    t = tier == 'thorough'
    some = None if t else (0, 1, 3, 5)
    cs = [Case(h_load, pq=p, ac=a, order=o, present=pr) for p, a, o, pr in (
        (None, None, False, None), ('str', None, True, None), (None, 'str', False, None), ('str', 'str', False, None), (None, 1, True, None),
        (1, None, False, None), (2, 'str', False, some), ('str', 2, True, some), (1, 1, False, some), (2, 2, False, (0, 2, 3)))]
    cs += [Case(h_columns, n=n, both=b) for n, b in ((1, None), (2, None), (1, 'physical_quantity'), (1, 'ac_type'))]
    cs += [Case(h_available, order=o) for o in (False, True)]
    cs += [Case(h_group, pq=p, ac=a) for p, a in ((None, None), ('str', None), (None, 'str'), ('str', 'str'), (2, 'str'))]
    cs += [Case(h_best, n=n, m=m) for n in (0, 1, 2, 3) for m in (None, 0, 1, 2)]
    cs += [Case(h_make, n=n, extra=extra) for n in (1, 2)]
    if t:
        cs += [Case(h_load, pq=3, ac=2, order=False, present=(0, 1, 3, 5)), Case(h_best, n=4, m=3)]
    return cs
