"""C17 finding, selecting and combining meters."""
from .groups import *

EXPLANATION = ("MeterGroup.__getitem__, select, select_using_appliances, from_list, from_other_metergroup, union, equality and hash, "
               "mains, submeters, use_alternative_mains, upstream_meter, wiring_graph, meters_directly_downstream_of_mains, "
               "import_metadata, groupby, matches and iterate_through_submeters_of_two_metergroups run symbolically on groups of real "
               "ElecMeters and Appliances whose instances, buildings, datasets, rooms, types, categories, roles and wiring are symbolic; "
               "the result is compared with the set of meters that satisfy the request.")
BOUNDS = {"meters": "1..4 (nesting depth 1..2)", "identifiers": "instances 0..4, 2 buildings, 2 datasets", "appliances": "1..2 per meter, 3 types"}
ASSUMPTIONS = BASE_ASSUMPTIONS

TYPES = {'kettle': {'categories': {'traditional': 'cooking', 'misc': ['water', 'small']}, 'synonyms': ['jug', 'boiler'], 'control': ['manual', 'timer'], 'on_power_threshold': 20},
         'fridge': {'categories': {'traditional': 'cold', 'misc': ['small']}, 'control': ['timer'], 'synonyms': []},
         'light': {'categories': {'traditional': 'lighting'}, 'control': []}}
CATS = {'kettle': ['cooking', 'water', 'small'], 'fridge': ['cold', 'small'], 'light': ['lighting']}


def MG(*a, **k):
    from nilmtk.metergroup import MeterGroup
    return MeterGroup(*a, **k)


def EID(*a):
    from nilmtk.elecmeter import ElecMeterID
    return ElecMeterID(*a)


def plain(i, b=1, d='D', **md):
    from nilmtk.elecmeter import ElecMeter
    return ElecMeter(None, dict(md, device_model='dev'), EID(i, b, d))


def appliance(t, i, **md):
    from nilmtk.appliance import Appliance
    return Appliance(dict(md, type=t, instance=i))


def distinct(ctx, ids):
    for i, a in enumerate(ids):
        for b in ids[:i]:
            ctx.assume(disj(*[x != y for x, y in zip(a, b)]))


def meters(ctx, n, buildings=2, datasets=2, lo=1, hi=3):
    ids = []
    for k in range(n):
        ids.append((ctx.id('i%d' % k, lo, hi), ctx.id('b%d' % k, 1, buildings) if buildings > 1 else 1,
                    ctx.string('d%d' % k, ['D', 'E']) if datasets > 1 else 'D'))
    distinct(ctx, ids)
    return ids, [plain(*x) for x in ids]


def same_id(a, b):
    return conj(*[x == y for x, y in zip(a, b)])


def exactly(ctx, got, want, label):
    """Same objects, each once, whatever the order."""
    got = list(got)
    ctx.expect(len(got) == len(want) and all(any(g is w for g in got) for w in want), label)


def attempt(f, excs=Exception):
    try:
        return f(), None
    except excs as e:
        return None, e


def h_id(ctx, n, form):
    """By identifier: that meter, or KeyError."""
    with registry():
        ids, ms = meters(ctx, n)
        key = (ctx.id('ki', 1, 3), ctx.id('kb', 1, 2), ctx.string('kd', ['D', 'E']))
        g = MG(ms)
        got, err = attempt(lambda: g[EID(*key) if form == 'id' else key], KeyError)
        hits = [m for x, m in zip(ids, ms) if same_id(x, key)]
        if hits:
            ctx.expect(got is hits[0], "the meter with this identifier")
        else:
            ctx.expect(err is not None, "no such meter: KeyError")


def h_zero(ctx, n):
    """Instance 0 stands for mains."""
    with registry():
        ids, ms = meters(ctx, n, datasets=1)
        site = [ctx.bool('site%d' % k) for k in range(n)]
        for m, s in zip(ms, site):
            if s:
                m.metadata['site_meter'] = True
        b = ctx.id('kb', 1, 2)
        got, err = attempt(lambda: MG(ms)[EID(0, b, 'D')], KeyError)
        here = [k for k in range(n) if bool(ids[k][1] == b)]
        want = [ms[k] for k in here if site[k]]
        if not here:
            ctx.expect(err is not None, "no meter in the building: KeyError")
        elif not want:
            ctx.expect(err is None and got is None, "no mains")
        elif len(want) == 1:
            ctx.expect(got is want[0], "the mains meter")
        else:
            exactly(ctx, got.meters, want, "the group of all mains meters")


def h_int(ctx, n, nested):
    with registry():
        ids, ms = meters(ctx, n, datasets=1)
        g = MG(ms[:nested] + [MG(ms[nested:])]) if nested is not None else MG(ms)
        key = ctx.id('key', 1, 4)
        got, err = attempt(lambda: g[key])
        hits = [m for x, m in zip(ids, ms) if x[0] == key]
        if len(hits) == 1:
            ctx.expect(got is hits[0], "the only meter with this instance")
        elif not hits:
            ctx.expect(isinstance(err, KeyError), "no such meter: KeyError")
        else:
            ctx.expect(err is not None, "ambiguous: refused")


def h_nested(ctx, form, n, k):
    """An existing nested group is found by exactly its members, in any order."""
    from nilmtk.metergroup import MeterGroupID
    with registry():
        ids, ms = meters(ctx, n + 2, buildings=1, datasets=1, hi=4)
        a, b = MG(ms[:n]), MG(ms[n:n + 1])
        g = MG([a, b, ms[n + 1]])
        want = [ctx.id('k%d' % i, 1, 4) for i in range(k)]
        kb, kd = ctx.choose('kb', [1, 2]), ctx.choose('kd', ['D', 'E'])
        ctx.assume(conj(*[want[i] != want[j] for i in range(k) for j in range(i)]) if k > 1 else True)
        key = {'id': lambda: MeterGroupID(meters=tuple(EID(i, kb, kd) for i in want)), 'list': lambda: [EID(i, kb, kd) for i in want],
               'tuple': lambda: EID(tuple(want), kb, kd)}[form]()
        got, err = attempt(lambda: g[key], KeyError)
        hit = None
        for grp, part in ((a, ids[:n]), (b, ids[n:n + 1])):
            if kb == 1 and kd == 'D' and len(part) == k and all(any(bool(x[0] == y) for y in want) for x in part):
                hit = grp
        if hit is None:
            ctx.expect(err is not None, "no such group: KeyError")
        else:
            ctx.expect(got is hit, "the group with exactly these meters")


def h_pair(ctx):
    with registry():
        ids, ms = meters(ctx, 3, buildings=1, datasets=1)
        a, b = ctx.id('a', 1, 3), ctx.id('b', 1, 3)
        got = MG(ms)[a, b]
        want = [m for k in (a, b) for x, m in zip(ids, ms) if x[0] == k]
        ctx.expect(len(got.meters) == 2 and got.meters[0] is want[0] and got.meters[1] is want[1], "a group of the two meters")


def equip(ctx, ms, per, types=('kettle', 'fridge', 'light')):
    out = []
    for k, m in enumerate(ms):
        mine = []
        for j in range(per if isinstance(per, int) else per[k]):
            t, i = ctx.string('t%d%d' % (k, j), list(types)), ctx.id('n%d%d' % (k, j), 1, 2)
            m.appliances.append(appliance(t, i))
            mine.append((t, i))
            if (k + j) % 2:
                m.appliances[-1].metadata['original_name'] = 'tv'
        out.append(mine)
    return out


def hits_type(t, want):
    return any(bool(t == k) and (bool(want == k) or any(bool(want == s) for s in TYPES[k].get('synonyms', []))) for k in TYPES)


def h_appliance(ctx, n, per, form):
    """By appliance: the one meter upstream of it."""
    with registry(types=TYPES):
        ms = [plain(k + 1) for k in range(n)]
        apps = equip(ctx, ms, per)
        g = MG(ms)
        t = ctx.string('kt', ['kettle', 'fridge', 'boiler', 'tv'])
        i = ctx.id('ki', 1, 2) if form != 'str' else 1
        if form == 'str':
            key = str(t)
        elif form == 'pair':
            key = (str(t), i)
        else:
            key = {'type': t, 'instance': i}
        got, err = attempt(lambda: g[key])
        hit = [m for m, mine in zip(ms, apps) if any(hits_type(a, t) and bool(x == i) for a, x in mine)]
        if len(hit) == 1:
            ctx.expect(got is hit[0], "the meter of this appliance")
        elif not hit:
            ctx.expect(isinstance(err, KeyError), "no such appliance: KeyError")
        else:
            ctx.expect(err is not None and not isinstance(err, KeyError), "ambiguous: refused")


def h_badkey(ctx):
    with registry():
        g = MG([plain(1)])
        for key in (True, 1.5, (1, 2, 3, 4), [1, 2]):
            ctx.raises(TypeError, lambda: g[key], "unknown form of key")


ROOMS = ['bath', 'hall', 'attic']


def h_select(ctx, n, keys, nested):
    """All meters which match every criterion, and no other."""
    with registry({'dev': {'sample_period': 60, 'max_sample_period': 120, 'manufacturer': 'x', 'colours': ['red', 'blue'], 'measurements': []},
                   'other': {'sample_period': 6, 'max_sample_period': 12, 'manufacturer': 'y', 'colours': [], 'measurements': []}}):
        ids, ms = meters(ctx, n, datasets=1, hi=4)
        facts = []
        for k, m in enumerate(ms):
            f = {'instance': ids[k][0], 'building': ids[k][1], 'dataset': 'D'}
            if 'room' in keys:
                f['room'] = ctx.string('room%d' % k, ROOMS)
                m.metadata['room'] = f['room']
            if 'sample_period' in keys or 'colours' in keys:
                other = ctx.bool('other%d' % k)
                m.metadata['device_model'] = 'other' if other else 'dev'
                f['sample_period'] = 6 if other else 60
                f['colours'] = [] if other else ['red', 'blue']
            facts.append(f)
        crit = {}
        for k in keys:
            crit[k] = {'room': lambda: ctx.string('kroom', ROOMS + ['cellar']), 'building': lambda: ctx.id('kb', 1, 3),
                       'instance': lambda: ctx.id('ki', 1, 4), 'sample_period': lambda: ctx.choose('ksp', [6, 60, 7]),
                       'colours': lambda: ctx.string('kc', ['red', 'blue', 'green']) if keys[0] != 'dataset' else ctx.choose('kcl', [['red', 'blue'], ['red'], [], ['blue', 'red']]),
                       'dataset': lambda: ctx.choose('kd', ['D', 'E'])}[k]()
        g = MG(ms) if nested is None else MG(ms[:nested] + [MG(ms[nested:])])
        units = [(m, [f]) for m, f in zip(ms, facts)] if nested is None else \
            [(m, [f]) for m, f in zip(ms[:nested], facts)] + [(g.meters[-1], facts[nested:])]

        def ok(f):
            return all(any(bool(crit[k] == c) for c in f[k]) if k == 'colours' and not isinstance(crit[k], list) else bool(f[k] == crit[k]) for k in keys)
        want = [m for m, fs in units if any(ok(f) for f in fs)]
        got, err = attempt(lambda: g.select(**crit), KeyError)
        if want:
            ctx.expect(err is None and len(got.meters) == len(want) and all(a is b for a, b in zip(got.meters, want)), "the matching meters, in order")
        else:
            ctx.expect(err is not None, "nothing matches: KeyError")
        ctx.expect(len(g.meters) == len(units), "the group itself is unchanged")


def h_select_list(ctx, n, how):
    """A list of values: the meters which match any of them, each once."""
    with registry(types=TYPES):
        ms = [plain(k + 1, room=ctx.string('room%d' % k, ROOMS)) for k in range(n)]
        rooms = [m.metadata['room'] for m in ms]
        apps = equip(ctx, ms, 1)
        if how == 'room':
            vals = [ctx.string('v%d' % i, ROOMS) for i in range(2)]
            got, err = attempt(lambda: MG(ms).select(room=vals), KeyError)
            hit = [[bool(r == v) for r in rooms] for v in vals]
        elif how == 'type':
            vals = [ctx.string('v%d' % i, ['kettle', 'boiler', 'fridge']) for i in range(2)]
            got, err = attempt(lambda: MG(ms).select_using_appliances(type=vals), KeyError)
            hit = [[hits_type(a[0][0], v) for a in apps] for v in vals]
        else:
            vals = [ctx.string('v%d' % i, ['small', 'cooking', 'cold']) for i in range(2)]
            got, err = attempt(lambda: MG(ms).select_using_appliances(category=vals), KeyError)
            hit = [[any(bool(a[0][0] == t) and any(bool(v == c) for c in CATS[t]) for t in CATS) for a in apps] for v in vals]
        if all(any(h) for h in hit):
            ctx.expect(err is None, "every value matches")
            exactly(ctx, got.meters, [m for k, m in enumerate(ms) if any(h[k] for h in hit)], "every meter which matches a value, once")
        else:
            ctx.expect(err is not None, "a value which matches nothing: KeyError")


def h_select_app(ctx, n, per, crit):
    with registry(types=TYPES):
        ms = [plain(k + 1) for k in range(n)]
        apps = equip(ctx, ms, per)
        want_t = {'type': ctx.string('v', ['kettle', 'boiler', 'fridge', 'tv']) if 'type' in crit else None,
                  'category': ctx.string('c', ['small', 'cooking', 'cold', 'heating']) if 'category' in crit else None,
                  'instance': ctx.id('i', 1, 2) if 'instance' in crit else None,
                  'control': ctx.string('ctl', ['manual', 'timer', 'smart']) if 'control' in crit else None}
        kw = {k: want_t[k] for k in crit}

        def ok(t, i):
            for k, v in kw.items():
                if k == 'type' and not hits_type(t, v):
                    return False
                if k == 'instance' and not bool(i == v):
                    return False
                if k == 'category' and not any(bool(t == x) and any(bool(v == c) for c in CATS[x]) for x in CATS):
                    return False
                if k == 'control' and not any(bool(t == x) and any(bool(v == c) for c in TYPES[x]['control']) for x in TYPES):
                    return False
            return True
        want = [m for m, mine in zip(ms, apps) if any(ok(t, i) for t, i in mine)]
        got, err = attempt(lambda: MG(ms).select_using_appliances(**kw), KeyError)
        if want:
            ctx.expect(err is None, "accepted")
            exactly(ctx, got.meters, want, "the meters with an appliance that matches all criteria")
        else:
            ctx.expect(err is not None, "nothing matches: KeyError")


def h_synonyms_off(ctx):
    from nilmtk.appliance import Appliance
    with registry(types=TYPES):
        a = appliance(ctx.string('t', ['kettle', 'fridge']), 1, room='hall')
        v = ctx.string('v', ['kettle', 'boiler', 'fridge'])
        Appliance.allow_synonyms = False
        try:
            off = a.matches({'type': v})
        finally:
            Appliance.allow_synonyms = True
        ctx.expect(bool(off) == bool(a.metadata['type'] == v), "without synonyms only the type itself")
        ctx.expect(bool(a.matches({'type': v})) == hits_type(a.metadata['type'], v), "with synonyms")
        ctx.expect(bool(a.matches({'type': v, 'room': 'hall'})) == hits_type(a.metadata['type'], v), "further criteria")
        ctx.expect(not a.matches({'type': v, 'room': 'attic'}), "every criterion counts")
        ctx.expect(a.matches({}), "no criterion: True")
        b = appliance(ctx.string('t2', ['kettle', 'fridge']), 2, original_name='teapot')
        ctx.expect(bool(b.matches({'type': v})) == hits_type(b.metadata['type'], v), "another appliance")
        ctx.expect(bool(a.matches({'type': v})) == hits_type(a.metadata['type'], v), "asking again gives the same answer")
        ctx.expect(not a.matches({'type': 'teapot'}) and a.matches({'type': a.metadata['type']}), "original names do not count")
        ctx.expect(Appliance.appliance_types == TYPES, "matching leaves the appliance types alone")
        ctx.raises(KeyError, lambda: a.matches({'nonsense': 1}), "unknown key")
        ctx.raises(TypeError, lambda: a.matches('kettle'), "a dict is needed")


def h_from_list(ctx, n, k):
    from nilmtk.metergroup import MeterGroupID
    with registry():
        ids, ms = meters(ctx, n, buildings=1, datasets=1)
        g = MG(ms)
        req = [ctx.id('k%d' % j, 1, 3) for j in range(k)]
        got, err = attempt(lambda: g.from_list([EID(r, 1, 'D') for r in req]), KeyError)
        want = []
        for r in req:
            hit = [m for x, m in zip(ids, ms) if x[0] == r]
            if not hit:
                ctx.expect(err is not None, "unknown meter: KeyError")
                return
            if not any(hit[0] is w for w in want):
                want.append(hit[0])
        ctx.expect(err is None and len(got.meters) == len(want) and all(a is b for a, b in zip(got.meters, want)), "the meters in this order, each once")


def h_from_list_groups(ctx, existing):
    """Group identifiers give the existing group, or a new one."""
    from nilmtk.metergroup import MeterGroupID
    with registry():
        ids, ms = meters(ctx, 3, buildings=1, datasets=1)
        inner = MG(ms[:2])
        g = MG([inner, ms[2]]) if existing else MG(ms)
        order = ctx.bool('swap')
        mid = MeterGroupID(meters=tuple(EID(*x) for x in (ids[1::-1] if order else ids[:2])))
        for key in (mid, tuple(mid.meters)):
            got = g.from_list([key, EID(*ids[2])])
            ctx.expect(len(got.meters) == 2 and got.meters[1] is ms[2], "two members")
            if existing:
                ctx.expect(got.meters[0] is inner, "the existing group")
            else:
                exactly(ctx, got.meters[0].meters, ms[:2], "a new group of these meters")


def h_other(ctx, nested):
    """The same meters of the other dataset."""
    from nilmtk.metergroup import MeterGroup
    with registry():
        ids, ms = meters(ctx, 3, buildings=1, datasets=1, hi=4)
        twins = [plain(x[0], 1, 'E') for x in ids]
        extra = plain(9, 1, 'E')
        a = MG([ms[0], MG(ms[1:])]) if nested else MG(ms)
        got = MeterGroup.from_other_metergroup(a, 'E')
        if nested:
            ctx.expect(len(got.meters) == 2 and got.meters[0] is twins[0], "meter of the other dataset")
            exactly(ctx, got.meters[1].meters, twins[1:], "nested group of the other dataset")
        else:
            ctx.expect(len(got.meters) == 3 and all(x is y for x, y in zip(got.meters, twins)), "meters of the other dataset")


def h_other_summed(ctx, k):
    """A meter which stands for several meters becomes the group of them."""
    from nilmtk.metergroup import MeterGroup
    with registry():
        ids = [(ctx.id('i%d' % i, 1, 4), 1, 'E') for i in range(k + 1)]
        for i in range(k + 1):
            for j in range(i):
                ctx.assume(ids[i][0] != ids[j][0])
        twins = [plain(*x) for x in ids]
        both, single = plain(tuple(x[0] for x in ids[:k]), 1, 'D'), plain(ids[k][0], 1, 'D')
        first = ctx.bool('first')
        got = MeterGroup.from_other_metergroup(MG([both, single] if first else [single, both]), 'E')
        ctx.expect(len(got.meters) == 2, "one member per member")
        group, one = got.meters if first else got.meters[::-1]
        ctx.expect(one is twins[k], "meter of the other dataset")
        exactly(ctx, group.meters, twins[:k], "the meters it stands for")


def h_union(ctx, n, m):
    with registry():
        ids, ms = meters(ctx, 3, buildings=1, datasets=1)
        a = [ms[k] for k in range(3) if ctx.bool('a%d' % k)]
        b = [ms[k] for k in range(3) if ctx.bool('b%d' % k)]
        na, nb = MG(ms[:2]), MG([ms[1], ms[0]])
        b.reverse()
        if n:
            a, b = a + [na], b + [nb]
        A, B = MG(a), MG(b)
        u = A.union(B)
        want = [x for x in ms if any(x is y for y in a + b)]
        plainm = [x for x in u.meters if x not in (na,)]
        exactly(ctx, plainm, want, "every meter of either group, once")
        ctx.expect(len(u.meters) == len(want) + (1 if n else 0), "equal nested groups count once")
        eq = len(a) == len(b) and all(any(x is y for y in b) for x in a if x is not na)
        ctx.expect(bool(A == B) == eq and bool(A != B) == (not eq), "groups are equal when they hold the same meters")
        if A == B:
            B.name = 'x'
            ctx.expect(hash(A) == hash(B), "equal groups have equal hashes")
        ctx.raises(TypeError, lambda: A.union(a), "only groups can be united")


def h_roles(ctx, n, buildings):
    with registry():
        ids, ms = meters(ctx, n, buildings=buildings, datasets=1)
        site = [ctx.bool('site%d' % k) for k in range(n)]
        for m, s in zip(ms, site):
            m.metadata['site_meter'] = s
        g = MG(ms)
        mains = [m for m, s in zip(ms, site) if s]
        exactly(ctx, g.submeters().meters, [m for m, s in zip(ms, site) if not s], "all meters but mains")
        ctx.expect(g.is_site_meter() == bool(mains), "a site meter if any member is")
        got, err = attempt(g.mains, RuntimeError)
        if any(bool(x[1] != ids[0][1]) for x in ids):
            ctx.expect(err is not None, "several buildings: refused")
            ctx.expect(g.contains_meters_from_multiple_buildings(), "several buildings")
            return
        ctx.expect(not g.contains_meters_from_multiple_buildings(), "one building")
        ctx.expect(bool(g.building() == ids[0][1]), "the building")
        if not mains:
            ctx.expect(err is None and got is None, "no mains")
        elif len(mains) == 1:
            ctx.expect(got is mains[0], "the mains meter")
        else:
            exactly(ctx, got.meters, mains, "all mains meters")


def h_alternative(ctx, n, k):
    with registry():
        ms = [plain(i + 1) for i in range(n + k)]
        for i, m in enumerate(ms):
            m.metadata['site_meter'] = ctx.bool('site%d' % i)
        g = MG(ms[:n], ms[n:])
        site = lambda m: m.metadata['site_meter']
        old, new = [m for m in ms[:n] if site(m)], [m for m in ms[n:] if site(m)]
        got, err = attempt(g.use_alternative_mains, RuntimeError)
        if not new:
            ctx.expect(err is not None, "no alternative mains: refused")
            exactly(ctx, g.meters, ms[:n], "nothing changed")
            exactly(ctx, g.disabled_meters, ms[n:], "nothing changed")
            return
        exactly(ctx, g.meters, [m for m in ms[:n] if not site(m)] + new, "submeters and the alternative mains")
        exactly(ctx, g.disabled_meters, old + [m for m in ms[n:] if not site(m)], "the former mains are disabled")
        exactly(ctx, g.all_meters(), ms, "no meter lost")


def h_wiring(ctx, n, mains_n, nested, b=1):
    """Downstream of mains: exactly the meters wired to it."""
    with registry():
        mains = [plain(k + 1, b, site_meter=True) for k in range(mains_n)]
        ups, ms = [], []
        for k in range(n):
            # 0 stands for mains; otherwise an earlier submeter
            up = ctx.id('up%d' % k, 0, 9 + k)
            ctx.assume(disj(up == 0, up >= 10) if mains_n > 1 else disj(up == 0, up == 1, up >= 10))
            ups.append(up)
            ms.append(plain(10 + k, b, submeter_of=up))
        g = MG(mains + ([MG(ms[:1])] + ms[1:] if nested else ms))
        for k, m in enumerate(ms):
            got = m.upstream_meter()
            if ups[k] == 0 and mains_n > 1:
                exactly(ctx, got.meters, mains, "upstream of the meter: all mains")
            elif ups[k] < 10:
                ctx.expect(got is mains[0], "upstream of the meter: mains")
            else:
                ctx.expect(any(got is ms[j] and bool(ups[k] == 10 + j) for j in range(k)), "upstream of the meter: the submeter it is wired to")
        graph = g.wiring_graph()
        ctx.expect(len(graph.edges()) == n and len(graph.nodes()) == n + 1, "one edge per submeter, one root")
        below = g.meters_directly_downstream_of_mains().meters
        exactly(ctx, below, [m for k, m in enumerate(ms) if ups[k] < 10], "the meters wired to mains")
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ctx.expect(mains[0].upstream_meter() is None, "nothing upstream of mains")
        if n > 1:
            one = all(bool((ups[k] < 10) if ups[0] < 10 else (ups[k] == ups[0])) for k in range(n))
            got, err = attempt(MG(ms).upstream_meter, RuntimeError)
            ctx.expect((err is None) == one, "a group has one upstream meter or refuses")


def h_upstream_refuse(ctx):
    with registry():
        ctx.raises(ValueError, lambda: plain(3).upstream_meter(), "no wiring information")
        ctx.raises(ValueError, lambda: plain(4, submeter_of=-1).upstream_meter(), "negative instance")
        ctx.raises(NotImplementedError, lambda: plain(5, submeter_of=1, upstream_meter_in_building=2).upstream_meter(), "other building")


class MetaStore(object):
    def __init__(self, md):
        self.md = md

    def load_metadata(self, key='/'):
        return self.md[key]

    def elements_below_key(self, key='/'):
        return [k[1:] for k in self.md if k != '/']


def h_import(ctx, n, apps, via):
    """Metadata: every meter once, every appliance on its meters."""
    from nilmtk.building import BuildingID
    from nilmtk.dataset import DataSet
    with registry(types=TYPES):
        elec, site, disabled = {}, [], []
        for k in range(n):
            site.append(ctx.bool('site%d' % k))
            disabled.append(ctx.bool('dis%d' % k))
            elec[k + 1] = {'device_model': 'new', 'data_location': '/building2/elec/meter%d' % (k + 1)}
            if site[-1]:
                elec[k + 1]['site_meter'] = True
            if disabled[-1]:
                elec[k + 1]['disabled'] = True
            elif k % 2 == 0:
                elec[k + 1]['disabled'] = False
        lst, where, used = [], [], set()
        for j in range(apps):
            on = ctx.choose('on%d' % j, [[k + 1] for k in range(n)] + ([[1, 2]] if n > 1 and j == apps - 1 else []) + ([[0]] if n > 1 and j == 0 else []))
            lst.append({'type': 'kettle', 'instance': j + 1, 'meters': list(on)})
            where.append(on)
        if len(where[-1]) == 2:
            for on in where[:-1]:
                ctx.assume(on[0] in range(3, n + 1))
        if [0] in where:
            ctx.assume(any(site))
        dev = {'sample_period': 6, 'max_sample_period': 12, 'measurements': []}
        md = {'/': {'name': 'DS', 'meter_devices': {'new': dev}}, '/building2': {'instance': 2, 'elec_meters': elec, 'appliances': lst}}
        if via == 'group':
            g = MG()
            g.import_metadata(MetaStore(md), elec, lst, BuildingID(2, 'DS'))
        else:
            ds = DataSet()
            ds.import_metadata(MetaStore(md))
            ctx.expect(list(ds.buildings) == [2] and ds.metadata['name'] == 'DS', "buildings by instance")
            g = ds.buildings[2].elec
            ctx.expect(ds.buildings[2].identifier.dataset == 'DS', "dataset of the building")
        flat = []
        for m in g.meters:
            flat += list(m.meters) if hasattr(m, 'meters') else [m]
        allm = flat + g.disabled_meters
        ctx.expect(sorted(m.identifier.instance for m in allm) == list(range(1, n + 1)), "every meter exactly once")
        ctx.expect(all(m.identifier == (m.identifier.instance, 2, 'DS') and m.metadata is elec[m.identifier.instance] and m.sample_period() == 6 for m in allm), "identity and metadata")
        group = where[-1] if len(where[-1]) == 2 else []
        nested = [m for m in g.meters if hasattr(m, 'meters')]
        ctx.expect(len(nested) == (1 if group else 0), "a group for an appliance on several meters")
        if group:
            ctx.expect(sorted(nested[0].instance()) == sorted(group), "the meters of the appliance")
        for m in allm:
            k = m.identifier.instance - 1
            ctx.expect(any(m is d for d in g.disabled_meters) == (disabled[k] and (k + 1) not in group), "disabled meters are set aside")
            want = [j + 1 for j, on in enumerate(where) if (k + 1) in on or (on == [0] and site[k])]
            ctx.expect([a.identifier.instance for a in m.appliances] == want, "the appliances of the meter")
            ctx.expect(all(a.metadata['building'] == 2 and a.metadata['dataset'] == 'DS' for a in m.appliances), "building and dataset of the appliances")


def h_groupby(ctx, n, key):
    with registry(types=TYPES):
        ms = [plain(k + 1) for k in range(n)]
        ts = []
        for k, m in enumerate(ms):
            ts.append(ctx.string('t%d' % k, list(TYPES)))
            m.appliances.append(appliance(ts[k], k + 1, room=ctx.string('r%d' % k, ['bath', 'hall'])))
        mains = plain(99, site_meter=True)
        g = MG(ms + [mains]).groupby(key)
        vals = [str(m.appliances[0].metadata[key]) for m in ms]
        ctx.expect(sorted(str(x.name) for x in g.meters) == sorted(set(vals)), "one group per value")
        for grp in g.meters:
            exactly(ctx, grp.meters, [m for m, v in zip(ms, vals) if v == str(grp.name)], "the meters with this value")


def h_twins(ctx):
    from nilmtk.metergroup import iterate_through_submeters_of_two_metergroups as it, replace_dataset, MeterGroupID
    with registry():
        ids, ms = meters(ctx, 2, buildings=1, datasets=1)
        twins = [plain(x[0], 1, 'E') for x in ids]
        g1, g2 = MG(ms + [plain(8, 1, 'D', site_meter=True)]), MG([plain(8, 1, 'E', site_meter=True)] + twins[::-1])
        got = it(g1, g2)
        ctx.expect(len(got) == 2 and all(a is m and b is t for (a, b), m, t in zip(got, ms, twins)), "submeters paired by identifier")
        mid = replace_dataset(MeterGroupID(meters=tuple(m.identifier for m in ms)), 'E')
        ctx.expect(len(mid.meters) == 2 and all(bool(same_id(a, t.identifier)) for a, t in zip(mid.meters, twins)), "identifier in the other dataset")
        ctx.raises(TypeError, lambda: replace_dataset((1, 1, 'D'), 'E'), "identifiers only")


def h_identity(ctx):
    """Meters are equal when their identifiers are; they register once."""
    import nilmtk
    with registry():
        ids = [(ctx.id('i%d' % k, 1, 2), ctx.id('b%d' % k, 1, 2), ctx.string('d%d' % k, ['D', 'E'])) for k in range(2)]
        a, b = plain(*ids[0]), plain(*ids[1])
        eq = bool(same_id(*ids))
        ctx.expect(bool(a == b) == eq and bool(a != b) == (not eq), "equality of meters is equality of identifiers")
        if eq:
            ctx.expect(hash(a) == hash(b), "equal meters have equal hashes")
        ctx.expect(len(nilmtk.global_meter_group.meters) == (1 if eq else 2), "registered once")
        ctx.expect(nilmtk.global_meter_group.meters[0] is a, "in order")


def cases(tier):
    t = tier == 'thorough'
    cs = [Case(h_id, n=n, form=f) for n, f in ((1, 'id'), (2, 'id'), (2, 'tuple'))] + ([Case(h_id, n=3, form='id')] if t else [])
    cs += [Case(h_zero, n=n) for n in ((1, 2, 3) if t else (1, 2))]
    cs += [Case(h_int, n=n, nested=k) for n, k in ((1, None), (2, None), (3, None), (2, 1), (3, 1), (3, 0))]
    cs += [Case(h_nested, form=f, n=n, k=k) for f in ('id', 'list', 'tuple') for n, k in ((1, 1), (2, 2), (2, 1), (1, 2))]
    cs += [Case(h_pair), Case(h_badkey)]
    cs += [Case(h_appliance, n=n, per=p, form=f) for n, p, f in ((1, 1, 'str'), (2, 1, 'pair'), (2, 1, 'dict'), (1, 2, 'dict'), (2, [2, 1], 'dict'), (3, 1, 'dict'))]
    cs += [Case(h_select, n=n, keys=k, nested=x) for n, k, x in ((2, ['room'], None), (2, ['room', 'building'], None), (3, ['room'], None), (2, ['sample_period'], None),
                                                               (2, ['colours', 'instance'], None), (3, ['building'], 1), (3, ['room', 'instance'], 1), (2, ['dataset', 'colours'], None))]
    cs += [Case(h_select_list, n=n, how=h) for n in (1, 2) for h in ('room', 'type', 'category')]
    cs += [Case(h_select_app, n=n, per=p, crit=c) for n, p, c in ((2, 1, ['type']), (1, 2, ['type', 'category']), (2, 1, ['category', 'instance']), (2, 1, ['control']),
                                                               (1, 2, ['type', 'instance']), (2, [2, 1], ['category']))]
    cs += [Case(h_synonyms_off)]
    cs += [Case(h_from_list, n=n, k=k) for n, k in ((2, 2), (3, 2), (3, 3))] + [Case(h_from_list_groups, existing=e) for e in (True, False)]
    cs += [Case(h_other, nested=x) for x in (False, True)] + [Case(h_other_summed, k=k) for k in (2, 3)]
    cs += [Case(h_union, n=n, m=0) for n in (0, 1)]
    cs += [Case(h_roles, n=n, buildings=b) for n, b in ((1, 1), (2, 2), (3, 1), (3, 2))]
    cs += [Case(h_alternative, n=n, k=k) for n, k in ((1, 1), (2, 1), (2, 2), (1, 0), (3, 2))]
    cs += [Case(h_wiring, n=n, mains_n=m, nested=x) for n, m, x in ((1, 1, False), (2, 1, False), (3, 1, False), (2, 2, False), (3, 2, False), (2, 1, True), (3, 1, True))] + [Case(h_wiring, n=2, mains_n=m, nested=False, b=3) for m in (1, 2)]
    if t:
        cs += [Case(h_wiring, n=4, mains_n=1, nested=False), Case(h_select, n=4, keys=['room', 'building'], nested=None), Case(h_appliance, n=3, per=2, form='dict'),
               Case(h_from_list, n=3, k=4), Case(h_roles, n=4, buildings=2), Case(h_select_list, n=3, how='category')]
    cs += [Case(h_upstream_refuse)]
    cs += [Case(h_import, n=n, apps=a, via=v) for n, a, v in ((1, 1, 'group'), (2, 1, 'group'), (2, 2, 'dataset'), (3, 2, 'group'))]
    cs += [Case(h_groupby, n=n, key=k) for n in (1, 2, 3) for k in ('type', 'room')]
    cs += [Case(h_twins), Case(h_identity)]
    return cs
