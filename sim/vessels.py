"""Vessels generated together with what is known about them by construction.

A spec (JSON) lists the parts with their arguments; the model says which rooms exist, how large they are and on
which side of which room every part lies.  Nothing here uses the code under test except build().
"""
from fractions import Fraction as F


def fr(x):
    return F(repr(x)) if isinstance(x, float) else F(x)


def hg(d):
    """height of the triangle that stands for a torispherical head in the graph"""
    return max(F(1, 10), fr(d) / 1000)


def r3(x):
    return round(x, 4)


# ---- a stack: shells on top of each other on one axis, closed and divided by heads, plates, raumenden --------

def gen_stack(r, shells, x0, y0, dia, u, prefix, ends=None, seps=(), hs=None, cones=True):
    """u: unit of length.  returns the structure, not yet parts"""
    ds = [dia]
    ys = [y0]
    for i in range(shells):
        d = ds[-1]
        if cones and r.random() < 0.35:
            d = r3(max(0.5 * u, d + r.choice([-1, -0.5, 0.5, 1]) * u * 0.5))
        ds.append(d)
        h = hs[i] if hs else r3(r.choice([0.8, 1.0, 1.25, 1.7, 2.3]) * u)
        ys.append(r3(ys[-1] + h))
    cl = [None] * (shells + 1)
    kinds_end = ['klopper', 'korb', 'flach']
    for i in (0, shells):
        k = r.choice(kinds_end)
        out = -1 if i == 0 else 1
        o = out if (k == 'flach' or r.random() < 0.8) else -out
        cl[i] = (k, o)
    if ends:
        for i, e in zip((0, shells), ends):
            if e is not None:
                cl[i] = e
    for i in seps:
        k = r.choice(kinds_end)
        cl[i] = (k, r.choice([-1, 1]))
    return {'x0': x0, 'ds': ds, 'ys': ys, 'cl': cl, 'prefix': prefix}


def stack_parts(st):
    parts = []
    x0, ds, ys, cl, p = st['x0'], st['ds'], st['ys'], st['cl'], st['prefix']
    for i in range(len(ds) - 1):
        parts.append(['Mantel', {'name': '%sma%d' % (p, i), 'pos_v': ys[i], 'pos_h': x0, 'd': [ds[i], ds[i + 1]],
                                 'h': r3(ys[i + 1] - ys[i])}])
    for i, c in enumerate(cl):
        if c is None:
            continue
        k, o = c
        n = '%sbo%d' % (p, i)
        if k in ('klopper', 'korb'):
            parts.append([{'klopper': 'Klopperboden', 'korb': 'Korbbogenboden'}[k],
                          {'name': n, 'pos_v': ys[i], 'pos_h': x0, 'd': ds[i], 'h1': r3(0.02 * ds[i]), 'orient': o}])
        elif k == 'flach':
            parts.append(['Flachboden', {'name': n, 'pos_v': ys[i], 'pos_h': x0, 'd': ds[i]}])
        elif k == 're':
            parts.append(['RaumEnde', {'name': n, 'pos_v': ys[i], 'pos_h': x0, 'd': ds[i]}])
    return parts


def stack_model(st):
    """rooms (with area and outline) and sides; 'out' stands for whatever surrounds the stack"""
    x0, ds, ys, cl, p = fr(st['x0']), [fr(d) for d in st['ds']], [fr(y) for y in st['ys']], st['cl'], st['prefix']
    rooms, sides = {}, {}
    n = len(ds) - 1

    def tent(i):
        c = cl[i]
        if c is None or c[0] in ('flach', 're'):
            return None
        return c[1] * hg(st['ds'][i])
    room_of = []
    cur = -1
    for i in range(n):
        if cl[i] is not None:
            cur += 1
        room_of.append('%sroom%d' % (p, cur))
    for i in range(n):
        sides['%sma%d' % (p, i)] = ({room_of[i]}, {'out'}, set())
    starts = [i for i in range(n + 1) if cl[i] is not None]
    for a, b in zip(starts, starts[1:]):
        right = [(x0 + ds[i] / 2, ys[i]) for i in range(a, b + 1)]
        left = [(x0 - ds[i] / 2, ys[i]) for i in range(b, a - 1, -1)]
        out = right
        if tent(b) is not None:
            out = out + [(x0, ys[b] + tent(b))]
        out = out + left
        if tent(a) is not None:
            out = out + [(x0, ys[a] + tent(a))]
        rooms[room_of[a]] = out
    for i in range(n + 1):
        c = cl[i]
        if c is None:
            continue
        below = room_of[i - 1] if i > 0 else 'out'
        above = room_of[i] if i < n else 'out'
        name = '%sbo%d' % (p, i)
        if c[0] == 'flach':
            sides[name] = (set(), set(), {below, above})
        elif c[0] == 're':
            sides[name] = (set(), set(), set())
        elif c[1] > 0:
            sides[name] = ({below}, {above}, set())
        else:
            sides[name] = ({above}, {below}, set())
    return rooms, sides


def area(poly):
    s = 0
    for (x1, y1), (x2, y2) in zip(poly, poly[1:] + poly[:1]):
        s += x1 * y2 - x2 * y1
    return abs(s) / 2


def replace_out(sides, new):
    return {k: tuple({(new if x == 'out' else x) for x in s} for s in v) for k, v in sides.items()}


# ---- families ------------------------------------------------------------------------------------------------

def gen(r, family=None):
    family = family or r.choice(FAMILIES)
    u = r.choice([1.0, 1.0, 1.0, 0.5, 2.0, 1000.0])
    x0 = r3(r.choice([0, 0, 1, -3, 12.5]) * u)
    y0 = r3(r.choice([0, 0, 1, -7, 40]) * u)
    dia = r3(r.choice([1, 1.5, 2, 3, 4]) * u)
    spec = globals()['fam_' + family](r, u, x0, y0, dia)
    spec['family'] = family
    spec['model'] = finish(spec['model'])
    order = list(range(len(spec['parts'])))
    r.shuffle(order)
    spec['order'] = order
    return spec


def finish(m):
    rooms = {k: {'area': float(area(v) - sum(area(h) for h in m.get('holes', {}).get(k, []))),
                 'outline': [[float(x), float(y)] for x, y in v],
                 'holes': [[[float(x), float(y)] for x, y in h] for h in m.get('holes', {}).get(k, [])]}
             for k, v in m['rooms'].items()}
    sides = {k: [sorted(x - {'out'}) for x in v] for k, v in m['sides'].items()}
    return {'rooms': rooms, 'sides': sides, 'vague': m.get('vague', [])}


def fam_simple(r, u, x0, y0, dia):
    st = gen_stack(r, r.choice([1, 1, 2, 2, 3]), x0, y0, dia, u, '')
    rooms, sides = stack_model(st)
    return {'parts': stack_parts(st), 'model': {'rooms': rooms, 'sides': sides}}


def fam_rooms(r, u, x0, y0, dia):
    n = r.choice([2, 2, 3])
    seps = [i for i in range(1, n)] if n == 2 or r.random() < 0.4 else [r.choice(range(1, n))]
    st = gen_stack(r, n, x0, y0, dia, u, '', seps=seps)
    rooms, sides = stack_model(st)
    return {'parts': stack_parts(st), 'model': {'rooms': rooms, 'sides': sides}}


def fam_skirt(r, u, x0, y0, dia):
    n = r.choice([1, 1, 2])
    st = gen_stack(r, n, x0, y0, dia, u, '', ends=((r.choice(['klopper', 'korb']), -1), None))
    rooms, sides = stack_model(st)
    h = r3(r.choice([1.0, 1.5, 2.0]) * u)
    parts = stack_parts(st) + [['StandZarge', {'name': 'stz', 'pos_v': r3(y0 - h), 'pos_h': x0, 'd': [dia, dia], 'h': h}]]
    X, D, Y, H = fr(x0), fr(dia), fr(y0), fr(h)
    rooms['skirt'] = [(X - D / 2, Y - H), (X + D / 2, Y - H), (X + D / 2, Y), (X, Y - hg(dia)), (X - D / 2, Y)]
    sides['bo0'] = (sides['bo0'][0], {'skirt'}, set())
    sides['stz'] = ({'skirt'}, {'out'}, set())
    return {'parts': parts, 'model': {'rooms': rooms, 'sides': sides}}


def fam_double(r, u, x0, y0, dia):
    """a vessel inside of another one"""
    n = r.choice([1, 1, 1, 2])
    st = gen_stack(r, n, x0, y0, dia, u, 'i', cones=False,
                   ends=((r.choice(['klopper', 'korb']), -1), (r.choice(['klopper', 'korb']), 1)))
    rooms, sides = stack_model(st)
    outline = rooms[next(iter(rooms))] if len(rooms) == 1 else None
    gap = r.choice([0.1, 0.25, 0.4]) * u
    g = r3(gap + max(0.1, dia / 1000.) * 2)
    od = r3(dia + 2 * gap)
    H = r3(st['ys'][-1] - st['ys'][0])
    so = gen_stack(r, 1, x0, r3(y0 - g), od, u, 'o', cones=False, hs=[r3(H + 2 * g)],
                   ends=((r.choice(['klopper', 'korb']), -1), (r.choice(['klopper', 'korb']), 1)))
    ro, sdo = stack_model(so)
    sides = replace_out(sides, 'oroom0')
    sides.update(sdo)
    rooms.update(ro)
    return {'parts': stack_parts(st) + stack_parts(so),
            'model': {'rooms': rooms, 'sides': sides, 'holes': {'oroom0': [outline]}}}


def fam_reend(r, u, x0, y0, dia):
    """closed at the bottom by a raumende"""
    st = gen_stack(r, r.choice([1, 2]), x0, y0, dia, u, '', ends=(('re', -1), None))
    rooms, sides = stack_model(st)
    return {'parts': stack_parts(st), 'model': {'rooms': rooms, 'sides': sides}}


def fam_jacket(r, u, x0, y0, dia, n=None, seps=()):
    """the lower part of a vessel in a jacket that a ring-formed raumende closes"""
    n = n or r.choice([1, 1, 2])
    st = gen_stack(r, n, x0, y0, dia, u, 'i', cones=False, ends=((r.choice(['klopper', 'korb']), -1), None), seps=seps)
    rooms, sides = stack_model(st)
    inner = rooms['iroom0']
    gap = r.choice([0.1, 0.25]) * u
    g = r3(gap + max(0.1, dia / 1000.) * 2)
    od = r3(dia + 2 * gap)
    yr = r3(st['ys'][0] + r.choice([0.3, 0.5, 0.7]) * (st['ys'][1] - st['ys'][0]))
    yo = r3(y0 - g)
    parts = stack_parts(st)
    parts.append(['Mantel', {'name': 'oma0', 'pos_v': yo, 'pos_h': x0, 'd': [od, od], 'h': r3(yr - yo)}])
    parts.append([r.choice(['Klopperboden', 'Korbbogenboden']),
                  {'name': 'obo0', 'pos_v': yo, 'pos_h': x0, 'd': od, 'h1': r3(0.02 * od), 'orient': -1}])
    parts.append(['RaumEnde', {'name': 're', 'pos_v': yr, 'pos_h': x0, 'd': od}])
    X, OD, D, YR, YO, Y0 = fr(x0), fr(od), fr(dia), fr(yr), fr(yo), fr(y0)
    rooms['jacket'] = [(X - OD / 2, YO), (X, YO - hg(od)), (X + OD / 2, YO), (X + OD / 2, YR), (X + D / 2, YR), (X + D / 2, Y0),
                       (X, Y0 - hg(dia)), (X - D / 2, Y0), (X - D / 2, YR), (X - OD / 2, YR)]
    sides['ima0'] = (sides['ima0'][0], {'jacket'}, set())
    sides['ibo0'] = (sides['ibo0'][0], {'jacket'}, set())
    sides['oma0'] = ({'jacket'}, {'out'}, set())
    sides['obo0'] = ({'jacket'}, {'out'}, set())
    sides['re'] = (set(), set(), set())
    return {'parts': parts, 'model': {'rooms': rooms, 'sides': sides}}


def fam_double2(r, u, x0, y0, dia):
    """a divided vessel inside of another one"""
    n = r.choice([2, 2, 3])
    st = gen_stack(r, n, x0, y0, dia, u, 'i', cones=False, seps=[1] if n == 2 else r.choice([[1], [2], [1, 2]]),
                   ends=((r.choice(['klopper', 'korb']), -1), (r.choice(['klopper', 'korb']), 1)))
    rooms, sides = stack_model(st)
    one = dict(st, cl=[c if i in (0, n) else None for i, c in enumerate(st['cl'])])
    outline = list(stack_model(one)[0].values())[0]
    gap = r.choice([0.1, 0.25, 0.4]) * u
    g = r3(gap + max(0.1, dia / 1000.) * 2)
    od = r3(dia + 2 * gap)
    H = r3(st['ys'][-1] - st['ys'][0])
    so = gen_stack(r, 1, x0, r3(y0 - g), od, u, 'o', cones=False, hs=[r3(H + 2 * g)],
                   ends=((r.choice(['klopper', 'korb']), -1), (r.choice(['klopper', 'korb']), 1)))
    ro, sdo = stack_model(so)
    sides = replace_out(sides, 'oroom0')
    sides.update(sdo)
    rooms.update(ro)
    return {'parts': stack_parts(st) + stack_parts(so),
            'model': {'rooms': rooms, 'sides': sides, 'holes': {'oroom0': [outline]}}}


def fam_skirt2(r, u, x0, y0, dia):
    """a divided vessel on a skirt"""
    st = gen_stack(r, 2, x0, y0, dia, u, '', ends=((r.choice(['klopper', 'korb']), -1), None), seps=[1])
    rooms, sides = stack_model(st)
    h = r3(r.choice([1.0, 1.5, 2.0]) * u)
    parts = stack_parts(st) + [['StandZarge', {'name': 'stz', 'pos_v': r3(y0 - h), 'pos_h': x0, 'd': [dia, dia], 'h': h}]]
    X, D, Y, H = fr(x0), fr(dia), fr(y0), fr(h)
    rooms['skirt'] = [(X - D / 2, Y - H), (X + D / 2, Y - H), (X + D / 2, Y), (X, Y - hg(dia)), (X - D / 2, Y)]
    sides['bo0'] = (sides['bo0'][0], {'skirt'}, set())
    sides['stz'] = ({'skirt'}, {'out'}, set())
    return {'parts': parts, 'model': {'rooms': rooms, 'sides': sides}}


def fam_jacket2(r, u, x0, y0, dia):
    """a divided vessel in a jacket that ends below the dividing head"""
    return fam_jacket(r, u, x0, y0, dia, n=2, seps=[1])


def fam_twins(r, u, x0, y0, dia):
    """two vessels side by side, nothing in common"""
    a = gen_stack(r, 1, x0, y0, dia, u, 'a', cones=False)
    b = gen_stack(r, 1, r3(x0 + 2 * dia + u), r3(y0 + r.choice([0, .3, -2]) * u), dia, u, 'b', cones=False)
    ra, sa = stack_model(a)
    rb, sb = stack_model(b)
    ra.update(rb)
    sa.update(sb)
    return {'parts': stack_parts(a) + stack_parts(b), 'model': {'rooms': ra, 'sides': sa}}


def fam_resep(r, u, x0, y0, dia):
    """divided by a raumende"""
    st = gen_stack(r, r.choice([2, 3]), x0, y0, dia, u, '', ends=(None, ('re', 1)) if r.random() < .5 else None)
    st['cl'][1] = ('re', 1)
    rooms, sides = stack_model(st)
    return {'parts': stack_parts(st), 'model': {'rooms': rooms, 'sides': sides}}


def fam_krempe(r, u, x0, y0, dia, knuckle=False):
    """a cone below a shell, with a reinforced corner between them"""
    D = dia
    d0 = r3(D * r.choice([0.4, 0.5, 0.6]))
    hk = r3(D * r.choice([0.25, 0.35, 0.5]))
    hm = r3(D * r.choice([0.4, 0.6, 1.0]))
    st = {'x0': x0, 'ds': [d0, D, D], 'ys': [y0, r3(y0 + hk), r3(r3(y0 + hk) + hm)], 'prefix': '',
          'cl': [r.choice([('re', -1), ('flach', -1), ('klopper', -1)]), None, (r.choice(['klopper', 'korb', 'flach']), 1)]}
    rooms, sides = stack_model(st)
    rad = r.choice([0.1, 0.125]) if knuckle else 0
    parts = stack_parts(st) + [['KegelKrempe', {'name': 'kkr', 'h_non_kegelside': r3(D * r.choice([0.1, 0.2])),
                                                'h_kegelside': r3(D * r.choice([0.075, 0.15])), 'r': r3(D * rad),
                                                'hts': ['ma1'], 'kegel': 'ma0'}]]
    sides['kkr'] = ({'room0'}, {'out'}, set())
    model = {'rooms': rooms, 'sides': sides}
    if rad:
        model['vague'] = ['room0']
    return {'parts': parts, 'model': model}


def fam_knuckle(r, u, x0, y0, dia):
    """the same with a knuckle; slow"""
    return fam_krempe(r, u, x0, y0, dia, True)


def round_ends(r):
    return (r.choice(['klopper', 'korb']), -1), (r.choice(['klopper', 'korb']), 1)


def outline(st):
    """of the whole stack, undivided"""
    n = len(st['ys']) - 1
    rooms, _ = stack_model(dict(st, cl=[c if i in (0, n) else None for i, c in enumerate(st['cl'])]))
    return list(rooms.values())[0]


def put_on_skirt(r, u, m, shell, head):
    o = [p for p in m['parts'] if p[1]['name'] == shell][0][1]
    h, od = r3(r.choice([1.0, 1.5, 2.0]) * u), o['d'][0]
    m['parts'].append(['StandZarge', {'name': 'stz', 'pos_v': r3(o['pos_v'] - h), 'pos_h': o['pos_h'], 'd': [od, od], 'h': h}])
    X, D, Y, H = fr(o['pos_h']), fr(od), fr(o['pos_v']), fr(h)
    m = m['model']
    m['rooms']['skirt'] = [(X - D / 2, Y - H), (X + D / 2, Y - H), (X + D / 2, Y), (X, Y - hg(od)), (X - D / 2, Y)]
    m['sides'][head] = (m['sides'][head][0], {'skirt'}, set())
    m['sides']['stz'] = ({'skirt'}, {'out'}, set())


def fam_doubleskirt(r, u, x0, y0, dia):
    """a vessel inside of another one that stands on a skirt"""
    m = fam_double(r, u, x0, y0, dia)
    put_on_skirt(r, u, m, 'oma0', 'obo0')
    return m


def fam_jacketskirt(r, u, x0, y0, dia):
    """a jacketed vessel, the jacket standing on a skirt"""
    m = fam_jacket(r, u, x0, y0, dia, n=1)
    put_on_skirt(r, u, m, 'oma0', 'obo0')
    return m


def fam_pair(r, u, x0, y0, dia, above=False):
    """two vessels inside of another one, one of them possibly divided"""
    n = r.choice([1, 1, 2])
    a = gen_stack(r, n, x0, y0, dia, u, 'a', cones=False, ends=round_ends(r), seps=[1] if n == 2 and r.random() < 0.5 else ())
    gap = r.choice([0.1, 0.25, 0.4]) * u
    g = r3(gap + max(0.1, dia / 1000.) * 2)
    bd = r3(dia * r.choice([1, 0.75]))
    if above:
        bx, by = x0, r3(a['ys'][-1] + 2 * g)
    else:
        bx, by = r3(x0 + dia / 2 + bd / 2 + gap), r3(y0 + r.choice([0, 0.2]) * u)
    b = gen_stack(r, 1, bx, by, bd, u, 'b', cones=False, ends=round_ends(r))
    lo, hi = min(a['ys'][0], b['ys'][0]), max(a['ys'][-1], b['ys'][-1])
    le, ri = min(x0 - dia / 2, bx - bd / 2) - gap, max(x0 + dia / 2, bx + bd / 2) + gap
    od = r3(ri - le)
    g = r3(gap + max(0.1, od / 1000.) * 2)
    o = gen_stack(r, 1, r3((le + ri) / 2), r3(lo - g), od, u, 'o', cones=False, hs=[r3(hi - lo + 2 * g)], ends=round_ends(r))
    rooms, sides = stack_model(o)
    for st in (a, b):
        ro, sd = stack_model(st)
        rooms.update(ro)
        sides.update(replace_out(sd, 'oroom0'))
    return {'parts': stack_parts(a) + stack_parts(b) + stack_parts(o),
            'model': {'rooms': rooms, 'sides': sides, 'holes': {'oroom0': [outline(a), outline(b)]}}}


def fam_pile(r, u, x0, y0, dia):
    """two vessels above each other inside of another one"""
    return fam_pair(r, u, x0, y0, dia, True)


def fam_lower(r, u, x0, y0, dia):
    """a divided vessel with another one in its lower or upper room"""
    st = gen_stack(r, r.choice([1, 1, 2]), x0, y0, dia, u, 'i', cones=False, ends=round_ends(r))
    gap = r.choice([0.1, 0.25, 0.4]) * u
    od = r3(dia + 2 * gap)
    g, far = r3(gap + max(0.1, dia / 1000.) * 2), r3(gap + max(0.1, od / 1000.) * 4)
    hs = [r3(st['ys'][-1] - st['ys'][0] + g + far), r3(r.choice([0.8, 1.2]) * u)]
    up = int(r.random() < 0.3)
    y = r3(y0 - far - hs[1]) if up else r3(y0 - g)
    so = gen_stack(r, 2, x0, y, od, u, 'o', cones=False, hs=hs[::-1] if up else hs, ends=round_ends(r), seps=[1])
    around = 'oroom%d' % up
    rooms, sides = stack_model(so)
    ro, sd = stack_model(st)
    rooms.update(ro)
    sides.update(replace_out(sd, around))
    return {'parts': stack_parts(st) + stack_parts(so), 'model': {'rooms': rooms, 'sides': sides, 'holes': {around: [outline(st)]}}}


def fam_four(r, u, x0, y0, dia):
    """three or four rooms above each other"""
    st = gen_stack(r, 4, x0, y0, dia, u, '', seps=[1, 2, 3] if r.random() < 0.6 else [1, 3])
    rooms, sides = stack_model(st)
    return {'parts': stack_parts(st), 'model': {'rooms': rooms, 'sides': sides}}


def fam_twinrooms(r, u, x0, y0, dia):
    """two vessels side by side, the first one divided"""
    a = gen_stack(r, 2, x0, y0, dia, u, 'a', seps=[1])
    b = gen_stack(r, 1, r3(x0 + 2 * dia + 3 * u), r3(y0 + r.choice([0, .3, -2]) * u), dia, u, 'b')
    rooms, sides = stack_model(a)
    rb, sb = stack_model(b)
    rooms.update(rb)
    sides.update(sb)
    return {'parts': stack_parts(a) + stack_parts(b), 'model': {'rooms': rooms, 'sides': sides}}


def fam_coneskirt(r, u, x0, y0, dia):
    """a cone below a shell, in a skirt as wide as the shell"""
    d0 = r3(dia * r.choice([0.4, 0.5, 0.6]))
    hk, hm = r3(dia * r.choice([0.25, 0.35, 0.5])), r3(dia * r.choice([0.4, 0.6, 1.0]))
    st = {'x0': x0, 'ds': [d0, dia, dia], 'ys': [y0, r3(y0 + hk), r3(r3(y0 + hk) + hm)], 'prefix': '',
          'cl': [(r.choice(['klopper', 'korb']), -1), None, (r.choice(['klopper', 'korb', 'flach']), 1)]}
    rooms, sides = stack_model(st)
    y1 = st['ys'][1]
    h = r3(hk + max(0.1, d0 / 1000.) * r.choice([2, 3]) + 0.3 * dia)
    parts = stack_parts(st) + [['StandZarge', {'name': 'stz', 'pos_v': r3(y1 - h), 'pos_h': x0, 'd': [dia, dia], 'h': h}]]
    X, D, D0, Y, Y1, H = fr(x0), fr(dia), fr(d0), fr(y0), fr(y1), fr(h)
    rooms['skirt'] = [(X - D / 2, Y1 - H), (X + D / 2, Y1 - H), (X + D / 2, Y1), (X + D0 / 2, Y), (X, Y - hg(d0)),
                      (X - D0 / 2, Y), (X - D / 2, Y1)]
    for n in ('bo0', 'ma0'):
        sides[n] = (sides[n][0], {'skirt'}, set())
    sides['stz'] = ({'skirt'}, {'out'}, set())
    return {'parts': parts, 'model': {'rooms': rooms, 'sides': sides}}


FAMILIES = ['simple', 'rooms', 'skirt', 'double', 'reend', 'jacket', 'double2', 'skirt2', 'twins', 'resep', 'krempe']


# ---- the real objects -------------------------------------------------------------------------------------------

def build_parts(spec):
    import SR_Vessel.SR_hauptteile as H
    res = []
    byname = {}
    for cls, kw in spec['parts']:
        kw = dict(kw)
        if cls == 'KegelKrempe':
            kw['hts'] = tuple(byname[x] for x in kw['hts'])
            kw['kegel'] = byname[kw['kegel']]
        if 'd' in kw and isinstance(kw['d'], list):
            kw['d'] = tuple(kw['d'])
        res.append(getattr(H, cls)(**kw))
        byname[kw['name']] = res[-1]
    return res


def build(spec, parts=None):
    import SR_Vessel.SR_hauptteile as H
    parts = parts or build_parts(spec)
    return H.Behalter([parts[i] for i in spec['order']])


def compare(spec, intex, room_names, found=None):
    """None if the report agrees with the model up to the names of the rooms (left in found), else a description"""
    import itertools
    model = spec['model']['sides']
    if not isinstance(intex, dict) or not all(isinstance(v, dict) for v in intex.values()):
        return 'the report is %r' % (intex,)
    ids = sorted(spec['model']['rooms'])
    names = sorted(room_names)
    if len(names) != len(set(names)):
        return 'room names not unique: %s' % names
    if len(names) != len(ids):
        return 'rooms found: %s; by construction there are %d (%s)' % (names, len(ids), ', '.join(ids))
    if set(intex) != set(model):
        return 'parts reported: %s; parts given: %s' % (sorted(intex), sorted(model))
    best = None
    for perm in itertools.permutations(names):
        m = dict(zip(ids, perm))
        bad = []
        for p, (i, a, n) in sorted(model.items()):
            exp = {'innenraum': {m[x] for x in i}, 'aussenraum': {m[x] for x in a}, 'indifferent': {m[x] for x in n}}
            got = {k: set(v) for k, v in intex[p].items()}
            if exp != got:
                bad.append('%s is %s, should be %s' % (p, fmt(got), fmt(exp)))
        if not bad:
            if found is not None:
                found.update(m)
            return None
        if best is None or len(bad) < len(best[1]):
            best = (m, bad)
    return '; '.join(best[1][:4]) + ' (under %s)' % ', '.join('%s=%s' % (v, k) for k, v in sorted(best[0].items()))


def fmt(d):
    return '/'.join('%s:%s' % (k[:5], ','.join(sorted(d[k])) or '-') for k in ('innenraum', 'aussenraum', 'indifferent') if k in d)
