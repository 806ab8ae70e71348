"""How two triangles or polygons lie to each other is told truly, both ways round, under any draws and orders."""
import itertools
from .. import base, exact, queries
from ..base import need
from ..world import INJECTED

TITLE = 'How two polygons lie to each other is told truly, both ways round, whatever is drawn'
RUNS = {'quick': 4000, 'thorough': 300000}
RULE = ('A run is two triangles or two polygons (apart, crossing, one in the other, neighbours with a common edge or corner, the same '
        'in another order) and 3 to 12 questions about how they lie to each other, some cut short by a fault, between which both are '
        'moved, turned or mirrored together or one is taken away and brought back. Nontrivial: two different relations were asked; '
        'distinct by the event log.')
ASSUMPTIONS = ['corners of one are corners of the other or keep 2 % of the size away from its edges',
               'whether a triangle with a corner in common with another is enclosed by it is not judged']
HOW = ['near', 'near', 'near', 'edge', 'edge', 'corner', 'in', 'same', 'far', 'parts', 'parts', 'part_whole']
TRI = ['overlap', 'overlap', 'touch', 'touch', 'disjunct', 'disjunct', 'congruent', 'enclosed']


def generic(a, b, margin):
    """the corners of each are corners of the other or away from its edges"""
    for x, y in ((a, b), (b, a)):
        for p in x:
            if p not in y and exact.dist_rings(p, [y]) < margin:
                return False
    return True


def r5(p):
    return round(p[0], 5) + 0.0, round(p[1], 5) + 0.0


def cut(r, ring):
    """the two polygons into which a chord between corners divides the ring, or None"""
    n = len(ring)
    d = exact.size([ring])
    for _ in range(20):
        i, j = sorted(r.sample(range(n), 2))
        if j - i < 2 or i == 0 and j == n - 1:
            continue
        a, b = ring[i:j + 1], ring[j:] + ring[:i + 1]
        mid = ((ring[i][0] + ring[j][0]) / 2, (ring[i][1] + ring[j][1]) / 2)
        if exact.inside([ring], mid) and all(exact.is_simple(x, 0.015 * d) for x in (a, b)):
            return a, b
    return None


def pair(r, tri):
    while True:
        how = r.choice(HOW)
        if tri and how in ('parts', 'part_whole'):
            continue
        n = 3 if tri else r.choice([3, 4, 5, 6, 7, 8])
        a = exact.ring(r, kinds=['star', 'grid'] if tri else None, n=n)
        d = exact.size([a])
        b = None
        if how == 'same':
            b = list(a)
        elif how in ('near', 'far', 'in'):
            s = d * (r.choice([0.3, 0.6, 1.0]) if how == 'near' else r.choice([0.05, 0.15]) if how == 'in' else 1.0)
            b = exact.ring(r, kinds=['star', 'grid'] if tri else ['star', 'grid', 'box', 'convex'], n=3 if tri else r.choice([3, 4, 5]),
                           scale=s, offset=False)
            xs, ys = [p[0] for p in a], [p[1] for p in a]
            if how == 'near':
                k = r.choice(a)
                ox, oy = k[0] + r.uniform(-.4, .4) * d, k[1] + r.uniform(-.4, .4) * d
            elif how == 'far':
                ox, oy = max(xs) + r.choice([1, 1.5, 4]) * d, r.choice(ys)
            else:
                ox, oy = next((p for p in exact.points(r, [a], 12, 0.02 * d) if exact.inside([a], p)), a[0])
            b = [(x + ox, y + oy) for x, y in b]
        elif how == 'edge' and tri:
            k = r.randrange(3)
            p, q = a[k], a[k - 1]
            b = [p, q, (p[0] + r.uniform(-1, 1) * d, p[1] + r.uniform(-1, 1) * d)]
        elif how == 'edge':                     # mirrored at an edge
            k = r.randrange(len(a))
            (px, py), (qx, qy) = a[k], a[k - 1]
            if exact.is_simple(a, 0.02 * d):
                ux, uy = qx - px, qy - py
                m = ux * ux + uy * uy

                def mir(x, y):
                    t = ((x - px) * ux + (y - py) * uy) / m
                    return 2 * (px + t * ux) - x, 2 * (py + t * uy) - y
                b = [c if c in (a[k], a[k - 1]) else mir(*c) for c in a]
        elif how == 'corner':
            k = r.choice(a)
            b = exact.ring(r, kinds=['star', 'grid'], n=3, scale=d * r.choice([0.4, 1.0]), offset=False)
            b = [k] + [(k[0] + x - b[0][0], k[1] + y - b[0][1]) for x, y in b[1:]]
        else:
            c = cut(r, a)
            if c:
                b = c[1]
                if how == 'parts':
                    a = c[0]
        if b is None:
            continue
        b = [p if p in a else r5(p) for p in map(tuple, b)]
        if generic(a, b, 0.02 * d) and exact.is_simple(b, 0.012 * max(exact.size([b]), 0.1 * d)):
            return how, a, b


def order(r, ring):
    k = r.randrange(len(ring))
    ring = ring[k:] + ring[:k]
    return ring[::-1] if r.random() < 0.5 else ring


def gen(r, tier):
    tri = r.random() < 0.65
    how, a, b = pair(r, tri)
    a, b = order(r, a), order(r, b)
    if r.random() < 0.5:
        a, b = b, a
    ops = []
    d = exact.size([a, b])
    for _ in range(r.choice([3, 5, 8, 12])):
        if r.random() < 0.75:
            op = ['ask', r.choice(TRI) if tri else 'disjunct', r.randrange(2)]
            if r.random() < 0.2:
                op += [r.random(), r.choice(['interrupt', 'memory'])]
        else:
            op = r.choice([['move', round(r.uniform(-2, 2) * d, 5), round(r.uniform(-2, 2) * d, 5)], ['rot', r.choice([90, 180, 30, 7.5])],
                           ['mirror', round(r.uniform(-1, 1) * d, 5)], ['away'], ['order'], ['force']])
        ops.append(op)
    return {'env': base.env(r, adv=False), 'tri': tri, 'how': how, 'a': a, 'b': b, 'ops': ops}


def crossing(a, b):
    """do edges of the rings cross properly"""
    for p, q in exact.edges([exact.fx(x) for x in a]):
        for s, t in exact.edges([exact.fx(x) for x in b]):
            o = [exact.orient(p, q, s), exact.orient(p, q, t), exact.orient(s, t, p), exact.orient(s, t, q)]
            if o[0] * o[1] < 0 and o[2] * o[3] < 0:
                return True
    return False


def overlapping(a, b):
    """have the two an area in common (generic position)"""
    if set(a) == set(b) or crossing(a, b):
        return True
    # no edges cross: one is inside the other or they are apart, as are points of it that are in general position
    for x, y in ((a, b), (b, a)):
        for p in x:
            if p not in y and exact.inside([y], p):
                return True
    for x, y in ((a, b), (b, a)):            # all corners in common or outside: look at points inside of one
        d = exact.size([x])
        for p, q, s in itertools.combinations(x, 3):
            m = ((p[0] + q[0] + s[0]) / 3, (p[1] + q[1] + s[1]) / 3)
            if exact.dist_rings(m, [x]) > 1e-4 * d and exact.dist_rings(m, [y]) > 1e-4 * d and exact.inside([x], m) and exact.inside([y], m):
                return True
    return False


def truth(a, b, tri):
    same = set(a) == set(b) and len(a) == len(b)
    over = overlapping(a, b)
    ea = {frozenset(e) for e in exact.edges(a)}
    common = len(ea & {frozenset(e) for e in exact.edges(b)})
    t = {'congruent': same, 'overlap': None if same else over, 'touch': common == 1,
         'disjunct': not over and not (tri and common == 1)}
    if tri:
        a2 = exact.tri_overlap_area2(a, b)
        assert (a2 > 0) == over, (a, b)
        free = not set(a) & set(b)
        t['enclosed'] = [free and all(exact.inside([a], p) for p in b) if free else None,
                         free and all(exact.inside([b], p) for p in a) if free else None]
    return t


AWAY = {'congruent': False, 'overlap': False, 'touch': False, 'disjunct': True, 'enclosed': [False, False]}


def run(plan, rec):
    from geometry.SR_polygon import Triangle
    a, b = ([tuple(p) for p in plan[k]] for k in 'ab')
    t = truth(a, b, plan['tri'])
    asked = set()
    with base.use(rec, plan['env'], 100000000) as w:
        o, x = (Triangle(base.segments(c)) if plan['tri'] else base.polygon(c) for c in (a, b))
        d = exact.size([a, b])
        gone = False
        for i, op in enumerate(plan['ops']):
            k = op[0]
            if k == 'ask':
                before = [base.shape(o), base.shape(x)]
                p, q = (o, x) if op[2] == 0 else (x, o)
                if len(op) > 3:
                    w.arm_fault(1 + int((1.0 / max(op[3], 1e-3)) ** 2), op[4])
                    try:
                        getattr(p, op[1])(q)
                    except INJECTED as e:
                        w.log('cut', op[1], type(e).__name__)
                        rec.probe('cut')
                    w.disarm()
                got = bool(getattr(p, op[1])(q))
                w.log(op, got)
                want = (AWAY if gone else t)[op[1]]
                if isinstance(want, list):
                    want = want[op[2]]
                need(before == [base.shape(o), base.shape(x)], 'changed', 'step %d: to ask %s changes the polygons', i, op[1])
                if want is None:
                    continue
                need(got == want, 'relation', 'step %d: %s of %s and %s (%s%s) is %s', i, op[1], 'AB'[op[2]], 'BA'[op[2]], plan['how'],
                     ', taken away' if gone else '', got)
                asked.add((op[1], want))
                rec.probe('%s_%s' % (op[1], want))
            elif k == 'away':
                gone = not gone
                x.move(x0=(8 if gone else -8) * d, y0=0)
            elif not (gone and k in ('rot', 'mirror')):     # (the way back would be another one)
                for p in (o, x):
                    if k == 'move':
                        p.move(x0=op[1], y0=op[2])
                    elif k == 'rot':
                        p.rotate_about_origin(phi=op[1])
                    elif k == 'mirror':
                        p.mirror_vertical(x0=op[1])
                    elif k == 'order':
                        p.order()
                    elif k == 'force' and not plan['tri']:
                        p.triangulate(force=True)
                w.log(op)
    rec.nontrivial = len({q for q, _ in asked}) >= (2 if plan['tri'] else 1)
    rec.probe('how_' + plan['how'])


def shrink(plan):
    ops = plan['ops']
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op[0] == 'ask' and len(op) > 3:
            yield dict(plan, ops=ops[:i] + [op[:3]] + ops[i + 1:])
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
