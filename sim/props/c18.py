"""Parts are made with the outline that their measures demand."""
import copy
import math
from .. import base, exact, queries
from ..base import need
from ..world import INJECTED, Scheduler
from . import c03
from .c10 import rot

TITLE = 'A part has the outline that its measures demand, however and under whatever circumstances it was made'
RUNS = {'quick': 1500, 'thorough': 120000}
RULE = ('A run makes 1 to 4 parts (shell, cone, skirt, both kinds of heads, plate, room end, cone knuckle with the shells that it shortens) '
        'from random measures, directly or from dictionaries (some of which lack an entry or have one too much), one after the '
        'other, some attempts being cut short by a fault, or by tasks at once; they are copied, moved, turned, mirrored and asked on. '
        'Nontrivial: a making was cut short, refused or interleaved, or a made part was edited; distinct by the event log.')
ASSUMPTIONS = ['after a making was cut short the part and those given to it are made anew', 'cones are not flatter than 1:4',
               'tasks are switched between statements of the code under test, not inside of library calls']
KINDS = ['Mantel', 'Mantel', 'StandZarge', 'Klopperboden', 'Klopperboden', 'Korbbogenboden', 'Korbbogenboden', 'Flachboden', 'RaumEnde',
         'KegelKrempe']
ASK = ['closed', 'valid', 'walls', 'triangles', 'points', 'markers', 'box']


def spec(r):
    p = c03.gen(r, None)['part']
    k = r.choice(KINDS)
    while p['kind'] != (k if k != 'RaumEnde' else 'Flachboden'):
        p = c03.gen(r, None)['part']
    p['kind'] = k
    if 'h1' in p:
        p['h1'] = c03.r4(r.choice([0.02, 0.1, 0.3]) * p['d'])
    p['cuts'] = []
    if r.random() < 0.5:                        # measures that are not round
        for a in ('x0', 'y0', 'h', 'd0', 'hm'):
            if a in p:
                p[a] = round(p[a] * r.uniform(0.9, 1.1) + (r.uniform(-1, 1) * p['u'] if a in ('x0', 'y0') else 0), 4)
    p['dict'] = r.random() < 0.35
    return p


def gen(r, tier):
    n = r.choice([1, 1, 2, 3, 4])
    parts = []
    for _ in range(n):
        p = spec(r)
        while p['kind'] == 'KegelKrempe' and any(q['kind'] == p['kind'] for q in parts):      # these take long
            p = spec(r)
        p['cut'] = [[r.random(), r.choice(['interrupt', 'memory'])] for _ in range(r.choice([0, 0, 0, 1, 2]))]
        p['bad'] = r.choice(['lacks', 'more']) if p['dict'] and r.random() < 0.3 else None
        parts.append(p)
    ops = []
    for _ in range(r.choice([0, 2, 4, 8])):
        k = r.random()
        u = parts[0]['u']
        if k < 0.5:
            op = ['ask', r.choice(ASK), r.random()]
        elif k < 0.65:
            op = ['copy']
        else:
            op = r.choice([['move', round(r.uniform(-2, 2) * u, 5), round(r.uniform(-2, 2) * u, 5)], ['rot0', r.choice([90, 180, 30])],
                           ['mirror', round(r.uniform(-1, 1) * u, 5)]])
        ops.append([r.randrange(n)] + op)
    return {'env': base.env(r, adv=False), 'parts': parts, 'ops': ops, 'tasks': n > 1 and r.random() < 0.4,
            'sched': r.randrange(1 << 30), 'gap': r.choice([2, 10, 60, 400]), 'switches': r.choice([20, 200, 3000])}


def entries(p):
    d = {'name': 'p', 'pos_v': p['y0'], 'pos_h': p['x0']}
    if p['kind'] in ('Mantel', 'StandZarge'):
        d.update(d=tuple(p['d']), h=p['h'])
    else:
        d['d'] = p['d']
        if 'h1' in p:
            d.update(h1=p['h1'], orient=p['orient'])
    return d


def make(p, bad=None):
    """-> {name: part}"""
    import SR_Vessel.SR_hauptteile as H
    if p['kind'] == 'KegelKrempe':
        cls, got = H.KegelKrempe, {}
        y = round(p['y0'] + p['hk'], 4)
        got['ma'] = H.Mantel(name='ma', pos_v=y, pos_h=p['x0'], d=(p['D'], p['D']), h=p['hm'])
        got['ke'] = H.Mantel(name='ke', pos_v=p['y0'], pos_h=p['x0'], d=(p['d0'], p['D']), h=p['hk'])
        hts = [got['ma']]
        if p['under']:
            got['under'] = getattr(H, p['under'])(name='under', pos_v=round(y - p['hs'], 4), pos_h=p['x0'], d=(p['D'], p['D']), h=p['hs'])
            hts.append(got['under'])
        e = {'name': 'p', 'h_oben': p['ho'], 'h_unten': p['hu'], 'r': p['r'], 'hts': hts[::-1] if p['turn'] else hts, 'kegel': got['ke']}
    else:
        cls, got, e = getattr(H, p['kind']), {}, entries(p)
    if not p['dict']:
        if p['kind'] == 'KegelKrempe':
            e['h_non_kegelside'], e['h_kegelside'] = e.pop('h_oben'), e.pop('h_unten')
        got['p'] = cls(**e)
        return got
    if bad == 'lacks':
        e.pop(sorted(e)[int(len(e) * 0.5)])
    elif bad:
        e['something'] = 1
    kept = dict(e)
    got['p'] = cls.from_dict(e)
    need(e == kept, 'dict', 'the dictionary of a %s was changed: %r, was %r', p['kind'], e, kept)
    return got


def truth(p):
    """-> {name: (corners, ends that are no walls) or None for heads}"""
    import SR_Vessel.SR_hauptteile as H
    x, y = p['x0'], p['y0']

    def shell(x, a, y1, b, y2):
        return [(x + a, y1), (x + b, y2), (x - b, y2), (x - a, y1)]
    if p['kind'] in ('Mantel', 'StandZarge'):
        return {'p': (shell(x, p['d'][0] / 2., y, p['d'][1] / 2., y + p['h']), ['top'] + ['bottom'] * (p['kind'] == 'Mantel'))}
    if p['kind'] in ('Flachboden', 'RaumEnde'):
        return {'p': ([(x - p['d'] / 2., y), (x + p['d'] / 2., y)], [])}
    if p['kind'] != 'KegelKrempe':
        return {'p': None}
    k = c03.knuckle(p, getattr(H, 'KEGELKREMPE_SEGMENTS', 3))
    res = {'p': (k + [(2 * x - a, b) for a, b in k[::-1]], ['top', 'bottom']),
           'ma': (shell(x, k[-1][0] - x, k[-1][1], p['D'] / 2., round(y + p['hk'], 4) + p['hm']), ['top', 'bottom']),
           'ke': (shell(x, p['d0'] / 2., y, k[0][0] - x, k[0][1]), ['top', 'bottom'])}
    if p['under'] and (not p['r'] or p['ho'] > 0.03 * p['D']):
        res['under'] = (shell(x, p['D'] / 2., y + p['hk'] - p['hs'], k[-2][0] - x, k[-2][1]), ['top'] + ['bottom'] * (p['under'] == 'Mantel'))
    return res


def near(a, b, tol):
    return abs(a[0] - b[0]) + abs(a[1] - b[1]) < tol


def head(o, p, back, tol, what):
    """the corners of a head lie on its true outline and leave no part of it out"""
    d, h1 = p['d'], p['h1']
    R1, R2 = {'Klopperboden': (1.0 * d, 0.1 * d), 'Korbbogenboden': (0.8 * d, 0.154 * d)}[p['kind']]
    h = math.sqrt((R1 - R2) ** 2 - (d / 2. - R2) ** 2)
    sa = (d / 2. - R2) / (R1 - R2)
    xk, yk = R1 * sa, h1 - h + R1 * math.sqrt(1 - sa * sa)
    segs = [(back(s.i.xy), back(s.j.xy), type(s).__name__) for s in o.segments]
    segs = [((a[0] - p['x0'], (a[1] - p['y0']) * p['orient']), (b[0] - p['x0'], (b[1] - p['y0']) * p['orient']), k) for a, b, k in segs]
    want = [(d / 2., 0), (d / 2., h1), (xk, yk), (-xk, yk), (-d / 2., h1), (-d / 2., 0)]
    for c in want:
        need(any(near(a, c, tol) for s in segs for a in s[:2]), 'outline', 'the %s %s has no corner at %r (its own axes); it is %r', p['kind'], what, c, segs)
    for a, b, kind in segs:
        for px, py in (a, b):
            on = [abs(abs(px) - d / 2.)] if -tol < py < h1 + tol else []
            on += [abs(math.hypot(abs(px) - (d / 2. - R2), py - h1) - R2)] if abs(px) > xk - tol else []
            on += [abs(math.hypot(px, py - (h1 - h)) - R1)] if abs(px) < xk + tol else []
            need(on and min(on) < tol, 'outline', 'the corner %r (its own axes) of the %s %s is not on its true outline', (px, py), p['kind'], what)
        base_line = abs(a[1]) < tol and abs(b[1]) < tol
        need((kind == 'NonWall') == base_line, 'kinds', 'the edge %r of the %s %s is a %s', (a, b), p['kind'], what, kind)
        if not base_line and not (abs(abs(a[0]) - d / 2.) < tol and abs(abs(b[0]) - d / 2.) < tol):
            R = R2 if (abs(a[0]) + abs(b[0])) / 2 > xk else R1
            c = math.hypot(a[0] - b[0], a[1] - b[1])
            need(c * c / (8 * R) < 0.02 * d, 'outline', 'the edge %r of the %s %s cuts its outline off', (a, b), p['kind'], what)


def judge(o, name, p, t, edits, what):
    """the part against its measures; edits: what was done to it since it was made"""
    m = max([1, abs(p['x0']), abs(p['y0']), p['u'] * 8] + [abs(c) for e in edits for c in e[1:] if e[0] != 'rot0'])
    tol = 3e-6 * m

    def there(q):
        for e in edits:
            q = (q[0] + e[1], q[1] + e[2]) if e[0] == 'move' else rot(e[1])(*q) if e[0] == 'rot0' else (2 * e[1] - q[0], q[1])
        return q

    def back(q):
        for e in edits[::-1]:
            q = (q[0] - e[1], q[1] - e[2]) if e[0] == 'move' else rot(-e[1])(*q) if e[0] == 'rot0' else (2 * e[1] - q[0], q[1])
        return q
    segs = [(s.i.xy, s.j.xy) for s in o.segments]
    if p['kind'] in ('Flachboden', 'RaumEnde'):
        a, b = map(there, t[0])
        need(len(segs) == 1 and (near(segs[0][0], a, tol) and near(segs[0][1], b, tol) or near(segs[0][1], a, tol) and near(segs[0][0], b, tol)),
             'outline', 'the %s %s is %r, should be %r', p['kind'], what, segs, (a, b))
        need(type(o.segments[0]).__name__ == 'Wall', 'kinds', 'the %s is no wall', p['kind'])
        return
    need(all(a[1] == b[0] for a, b in zip(segs, segs[1:] + segs[:1])) , 'outline', '%s of the %s %s is not one line around: %r', name, p['kind'], what, segs)
    ring = [a for a, b in segs]
    need(exact.is_simple(ring, 0), 'outline', 'the outline of %s of the %s %s crosses itself: %r', name, p['kind'], what, ring)
    if t is None:
        return head(o, p, back, tol, what)
    want = [there(q) for q in t[0]]
    n = len(want)
    ok = len(ring) == n and any(all(near(ring[(k + s * i) % n], want[i], tol) for i in range(n)) for k in range(n) for s in (1, -1))
    need(ok, 'outline', '%s of the %s %s has the corners %r, should have %r', name, p['kind'], what, ring, want)
    ys = [q[1] for q in t[0]]
    for s in o.segments:
        a, b = back(s.i.xy), back(s.j.xy)
        end = None if (a[0] - p['x0']) * (b[0] - p['x0']) > 0 else 'bottom' if a[1] + b[1] < min(ys) + max(ys) else 'top'
        need((type(s).__name__ == 'Wall') == (end not in t[1]), 'kinds', 'the edge %r of %s of the %s %s is a %s', (a, b), name, p['kind'], what,
             type(s).__name__)


def ask(o, p, q, name):
    if q == 'closed':
        flat = p['kind'] in ('Flachboden', 'RaumEnde')
        need(flat or o.isclosed and o.iscontinuous and not o.isopen, 'asked', '%s of the %s is not closed', name, p['kind'])
    elif q == 'valid':
        if type(o).__name__ != 'StandZarge':        # (its ground counts as a third wall)
            need(o.isvalid, 'asked', '%s of the %s is not valid: %r', name, p['kind'], o)
        need(o.typ == {'StandZarge': 'mantel', 'Mantel': 'mantel', 'Klopperboden': 'boden', 'Korbbogenboden': 'boden', 'Flachboden': 'flachboden',
                       'RaumEnde': 'raumende', 'KegelKrempe': 'kegelkrempe'}[type(o).__name__], 'asked', '%s of the %s is a %s', name, p['kind'], o.typ)
    elif q == 'walls':
        w, n = o.wall_segments, o.nonwall_segments
        need(sorted(map(id, w + n)) == sorted(map(id, o.segments)) and all(type(s).__name__ == 'Wall' for s in w), 'asked',
             'the walls and other edges of %s of the %s are not its edges', name, p['kind'])
    elif q == 'triangles' and len(o.segments) > 2:
        o.triangulate()
        want = exact.area([s.i.xy for s in o.segments])
        got = sum(t.area for t in o.triangles)
        need(abs(got - want) < 1e-5 * max(1, want), 'asked', 'the triangles of %s of the %s cover %r, its area is %r', name, p['kind'], got, want)
    elif q == 'points':
        need(len(o.point_set) == max(2, len(o.segments)), 'asked', '%s of the %s has %d corners and %d edges', name, p['kind'], len(o.point_set), len(o.segments))
    elif q == 'box':
        xs, ys = zip(*[a.xy for s in o.segments for a in s.ij])
        need([list(b) for b in o.bounding_box()] == [[min(xs), max(xs)], [min(ys), max(ys)]], 'asked', 'the box of %s of the %s is %r', name, p['kind'], o.bounding_box())
    elif q == 'markers':
        [o.graph.internal, o.graph.external, o.graph.indifferent]


def attempt(p, w, rec, faults):
    """-> {name: part}, after attempts that fail"""
    import SR_Vessel.SR_hauptteile as H
    if faults:
        for u, kind in p['cut']:
            w.arm_fault(1 + int((1.0 / max(u, 1e-3)) ** 2), kind)
            try:
                make(p)
            except INJECTED as e:
                w.log('cut', p['kind'], type(e).__name__)
                rec.probe('cut')
            w.disarm()
    if p['bad']:
        try:
            make(p, p['bad'])
        except Exception as e:
            if type(e).__name__ == 'Violation':
                raise
            w.log('refused', p['kind'], p['bad'], type(e).__name__)
            rec.probe('refused')
        else:
            need(False, 'dict', 'a %s was made from a dictionary that %s', p['kind'], 'lacks an entry' if p['bad'] == 'lacks' else 'has one too much')
    got = make(p)
    need(type(got['p']) is getattr(H, p['kind']) and got['p'].name == 'p', 'kinds', 'a %s was to be made, not a %s', p['kind'], type(got['p']).__name__)
    return got


def run(plan, rec):
    parts = plan['parts']
    with base.use(rec, plan['env'], 200000000) as w:
        ts = [truth(p) for p in parts]
        made = [None] * len(parts)
        switched = 0
        if plan['tasks']:
            s = Scheduler(w, plan['sched'], plan['gap'], plan['switches'])

            def task(i):
                made[i] = attempt(parts[i], w, rec, False)
            for i in range(len(parts)):
                s.add('t%d' % i, lambda i=i: task(i))
            s.run()
            for t in s.tasks:
                if t['error'] is not None:
                    raise t['error']
            switched = len(s.trace)
            rec.probe('switches', switched)
        else:
            for i, p in enumerate(parts):
                made[i] = attempt(p, w, rec, True)
        edits = [{n: [] for n in m} for m in made]

        def check(what):
            for i, m in enumerate(made):
                for n, o in sorted(m.items()):
                    if n in ts[i]:
                        judge(o, n, parts[i], ts[i][n], edits[i][n], what)
        for m in made:
            for n, o in sorted(m.items()):
                w.log('made', n, [queries.seg(s) for s in o.segments])
        check('as made')
        edited = False
        for i, op in [(x[0], x[1:]) for x in plan['ops']]:
            if i >= len(made):
                continue
            n = sorted(made[i])[0 if op[0] != 'ask' else int(op[2] * len(made[i]))]
            o = made[i][n]
            if op[0] == 'ask':
                if op[1] in ('closed', 'walls', 'points', 'box', 'triangles') or not edits[i][n]:
                    ask(o, parts[i], op[1], n)
                    rec.probe('q_' + op[1])
            elif op[0] == 'copy':
                made[i] = copy.deepcopy(made[i])
            else:
                edits[i][n].append(op)
                edited = True
                if op[0] == 'move':
                    o.move(x0=op[1], y0=op[2])
                elif op[0] == 'rot0':
                    o.rotate_about_origin(phi=op[1])
                else:
                    o.mirror_vertical(x0=op[1])
            w.log(i, op)
            check('after %s' % op[0])
    rec.nontrivial = edited or switched > 3 or any(p['bad'] or p['cut'] for p in parts)
    for p in parts:
        rec.probe(p['kind'])


def shrink(plan):
    ps, ops = plan['parts'], plan['ops']
    if plan['tasks']:
        yield dict(plan, tasks=False)
    for i in range(len(ps)):
        if len(ps) > 1:
            yield dict(plan, parts=ps[:i] + ps[i + 1:], ops=[o for o in ops if o[0] < i] + [[o[0] - 1] + o[1:] for o in ops if o[0] > i])
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, p in enumerate(ps):
        for k in range(len(p['cut'])):
            yield dict(plan, parts=ps[:i] + [dict(p, cut=p['cut'][:k] + p['cut'][k + 1:])] + ps[i + 1:])
        if p['bad']:
            yield dict(plan, parts=ps[:i] + [dict(p, bad=None)] + ps[i + 1:])
    for n in (0, 2, 10, 50):
        if n < plan['switches']:
            yield dict(plan, switches=n)
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
