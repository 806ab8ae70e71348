"""The markers that tell the sides of a wall lie on the sides they stand for."""
import math
from .. import base, exact
from ..base import need

TITLE = 'The markers of every wall lie on their true sides under every draw'
RUNS = {'quick': 900, 'thorough': 40000}
RULE = ('A run is one part (shell, cone, skirt, head, plate, cone knuckle with its shell and cone) of random size, place and unit, its '
        'shells possibly cut at up to three heights, made and marked under random draws and set orders. Nontrivial: at least two '
        'walls with markers on both sides were judged; distinct by the event log.')
ASSUMPTIONS = ['cones are not flatter than 1:4; sizes from 0.25 units on']


def r4(x):
    return round(x, 4)


def gen(r, tier):
    u = r.choice([1.0, 1.0, 0.5, 2.0, 10.0, 1000.0])
    x0 = r4(r.choice([0, 0, 1, -3, 12.5, 100]) * u)
    y0 = r4(r.choice([0, 0, 1, -7, 40, -100]) * u)
    d = r4(r.choice([0.5, 1, 1.5, 2, 3.3, 4]) * u)
    h = r4(r.choice([0.3, 0.5, 1, 1.25, 2.3]) * u)
    k = r.choice(['Mantel', 'Mantel', 'Mantel', 'StandZarge', 'Klopperboden', 'Korbbogenboden', 'Flachboden', 'KegelKrempe', 'KegelKrempe'])
    p = {'kind': k, 'x0': x0, 'y0': y0, 'u': u}
    if k in ('Mantel', 'StandZarge'):
        d2 = d if r.random() < 0.5 or k == 'StandZarge' else r4(max(0.25 * u, d + r.choice([-1, -.5, .5, 1, 2]) * min(h * 2, u)))
        p.update(d=[d, d2], h=h)
        p['cuts'] = [r4(y0 + h * r.choice([0.25, 0.5, r.uniform(0.05, 0.95)])) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        p['cuts'] = [c for i, c in enumerate(p['cuts']) if all(abs(c - b) > 0.01 * h for b in p['cuts'][:i])]
    elif k in ('Klopperboden', 'Korbbogenboden'):
        p.update(d=d, h1=r4(r.choice([0.02, 0.1]) * d), orient=r.choice([-1, 1]))
    elif k == 'Flachboden':
        p.update(d=d)
    else:
        p.update(D=d, d0=r4(d * r.choice([0.4, 0.5, 0.6])), hk=r4(d * r.choice([0.25, 0.35, 0.5])), hm=r4(d * r.choice([0.4, 0.6, 1.0])),
                 r=r4(d * r.choice([0, 0, 0.1, 0.125])), ho=r4(d * r.choice([0.02, 0.1, 0.2])), hu=r4(d * r.choice([0.02, 0.075, 0.15])))
        p['under'] = r.choice([None, None, 'Mantel', 'StandZarge'])
        p['hs'] = r4(p['hk'] + d * r.choice([0.1, 0.3]))
        p['turn'] = r.random() < 0.5
    return {'env': base.env(r, adv=False), 'part': p}


def make(p):
    """-> [(part, outline or None, the walls that have sides)]"""
    import SR_Vessel.SR_hauptteile as H
    k, x, y = p['kind'], p['x0'], p['y0']
    if k in ('Mantel', 'StandZarge'):
        o = getattr(H, k)(name='p', pos_v=y, pos_h=x, d=tuple(p['d']), h=p['h'])
        for c in p['cuts']:
            o.split(v=c)
        a, b, h = p['d'][0] / 2., p['d'][1] / 2., p['h']
        return [(o, [(x + a, y), (x + b, y + h), (x - b, y + h), (x - a, y)], 2 + 2 * len(p['cuts']))]
    if k in ('Klopperboden', 'Korbbogenboden'):
        o = getattr(H, k)(name='p', pos_v=y, pos_h=x, d=p['d'], h1=p['h1'], orient=p['orient'])
        t = max(0.1, p['d'] / 1000.) * p['orient']
        return [(o, [(x - p['d'] / 2., y), (x + p['d'] / 2., y), (x, y + t)], 2)]
    if k == 'Flachboden':
        return [(H.Flachboden(name='p', pos_v=y, pos_h=x, d=p['d']), None, 0)]
    ma = H.Mantel(name='ma', pos_v=round(y + p['hk'], 4), pos_h=x, d=(p['D'], p['D']), h=p['hm'])
    ke = H.Mantel(name='ke', pos_v=y, pos_h=x, d=(p['d0'], p['D']), h=p['hk'])
    hts = [ma]
    if p.get('under'):
        hts.append(getattr(H, p['under'])(name='under', pos_v=round(y + p['hk'] - p['hs'], 4), pos_h=x, d=(p['D'], p['D']), h=p['hs']))
    o = H.KegelKrempe(name='kkr', h_non_kegelside=p['ho'], h_kegelside=p['hu'], r=p['r'], hts=tuple(hts[::-1] if p.get('turn') else hts), kegel=ke)
    res = []
    right = knuckle(p, getattr(H, 'KEGELKREMPE_SEGMENTS', 3))
    want = {'kkr': right, 'ma': [right[-1], (x + p['D'] / 2., ma.pos_v + p['hm'])], 'ke': [(x + p['d0'] / 2., y), right[0]]}
    if p['ho'] > 0.03 * p['D'] or not p['r']:
        want['under'] = [(x + p['D'] / 2., y + p['hk'] - p['hs']), right[-2]]
    for q in [o, ke] + hts:
        ring = base.chain([(s.i.xy, s.j.xy) for s in q.segments])
        need(ring is not None, 'outline', 'the outline of %s is not one closed ring: %r', q.name, q)
        res.append((q, ring, None if q is o else 2))
        if q.name in want:
            c = want[q.name]
            c = c + [(2 * x - a, b) for a, b in c[::-1]]
            near = lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1]) < 2e-5 * max(1, p['D'])
            need(all(any(near(a, b) for b in c) for a in ring) and all(any(near(a, b) for b in ring) for a in c), 'outline',
                 '%s has the corners %r, should have %r', q.name, ring, c)
    return res


def knuckle(p, n):
    """the right hand corners of the knuckle of a cone, from below: the joint, or the arc that touches the cone and the shell"""
    x, y, R, r = p['x0'], p['y0'] + p['hk'], p['D'] / 2., p['r']
    f = (p['D'] - p['d0']) / 2. / p['hk']
    low, high = (x + R - f * p['hu'], y - p['hu']), (x + R, y + p['ho'])
    if not r:
        return [low, (x + R, y), high]
    al = math.atan(f)
    t = r * math.tan(al / 2)                       # from the joint to where the arc begins
    res = [(x + R - r + r * math.cos(al * (k / n - 1)), y + t + r * math.sin(al * (k / n - 1))) for k in range(n + 1)]
    return ([low] if p['hu'] > t * math.cos(al) else []) + res + ([high] if p['ho'] > t else [])


def run(plan, rec):
    p = plan['part']
    with base.use(rec, plan['env'], 100000000) as w:
        walls = 0
        for o, ring, n in make(p):
            g = o.graph
            if p['kind'] == 'Flachboden':
                ind = [(q.x, q.y) for q in g.indifferent]
                need(not g.internal and not g.external, 'side', 'a plate has markers for an inside or outside')
                need(any(y > p['y0'] for x, y in ind) and any(y < p['y0'] for x, y in ind) and
                     all(abs(x - p['x0']) < p['d'] / 2. for x, y in ind), 'side', 'the markers of the plate are at %r: not above and below', ind)
                w.log('plate', ind)
                rec.nontrivial = True
                continue
            need(not g.indifferent, 'side', '%s has markers without a side', o.name)
            slanted = 0
            for s in g.segments:
                if abs(s.i.y - s.j.y) < 1e-6 * p['u']:
                    continue                        # the ground under a skirt: has no sides
                slanted += 1
                for name, ms, t in (('internal', g.internal, True), ('external', g.external, False)):
                    own = [m for m in ms if m.segment == s]
                    need(own, 'side', 'the wall %r of %s has no %s marker', s, o.name, name)
                    for m in own:
                        need((m.x > p['x0']) == (s.i.x + s.j.x > 2 * p['x0']), 'side', 'the %s marker %r of the wall %r of %s lies beyond '
                             'the axis', name, (m.x, m.y), s, o.name)
                        need(exact.inside([ring], (m.x, m.y)) == t, 'side', 'the %s marker %r of the wall %r of %s lies on the wrong side',
                             name, (m.x, m.y), s, o.name)
                        lo, hi = sorted((s.i.y, s.j.y))
                        need(lo - 0.5 * p['u'] <= m.y <= hi + 0.5 * p['u'], 'side', 'the %s marker %r is far from its wall %r', name,
                             (m.x, m.y), s)
                walls += 1
                w.log('wall', [m.xy for m in g.internal if m.segment == s], [m.xy for m in g.external if m.segment == s])
            for side in (1, -1):
                c = sorted([sorted([s.i.xy, s.j.xy], key=lambda a: a[1]) for s in g.segments
                            if abs(s.i.y - s.j.y) >= 1e-6 * p['u'] and (s.i.x + s.j.x > 2 * p['x0']) == (side > 0)], key=lambda a: a[0][1])
                need(c and all(abs(a[1][0] - b[0][0]) + abs(a[1][1] - b[0][1]) < 1e-5 * max(1, p['u']) for a, b in zip(c, c[1:])) and
                     abs(c[0][0][1] - min(a[1] for a in ring)) < 1e-5 * max(1, p['u']) and
                     abs(c[-1][1][1] - max(a[1] for a in ring)) < 1e-5 * max(1, p['u']), 'walls',
                     'the walls in the graph of %s are %r: they do not reach from its lower to its upper end %r', o.name, c, ring)
            for m in g.internal + g.external:
                need(any(m.segment == s for s in g.segments), 'side', 'a marker of %s belongs to the wall %r, which is none of the part',
                     o.name, m.segment)
            need(n is None and slanted >= 4 or slanted == n, 'walls', '%s has %d walls in its graph, should have %s', o.name, slanted, n)
            if hasattr(o, 'intex_points'):
                fresh(o, ring, w, p)
        rec.nontrivial = rec.nontrivial or walls >= 2
        rec.probe(p['kind'])


def fresh(o, ring, w, p):
    """made again, the markers are on the same sides"""
    for s, m in o.intex_points.items():
        if abs(s.i.y - s.j.y) < 1e-6 * p['u']:
            continue
        for name, t in (('internal', True), ('external', False)):
            need(m[name], 'side', 'made again, there is no %s marker for the wall %r of %s', name, s, o.name)
            for q in m[name]:
                need((q.x > p['x0']) == (s.i.x + s.j.x > 2 * p['x0']), 'side', 'made again, the %s marker %r of the wall %r of %s lies '
                     'beyond the axis', name, q.xy, s, o.name)
                need(exact.inside([ring], q.xy) == t, 'side', 'made again, the %s marker %r of the wall %r of %s lies on the wrong side',
                     name, q.xy, s, o.name)


def shrink(plan):
    p = plan['part']
    for i in range(len(p.get('cuts', []))):
        yield dict(plan, part=dict(p, cuts=p['cuts'][:i] + p['cuts'][i + 1:]))
    for k in ('x0', 'y0'):
        if p[k] and not p.get('cuts'):
            yield dict(plan, part=dict(p, **{k: 0.0}))
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
