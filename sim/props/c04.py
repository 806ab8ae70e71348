"""The area is the true one and the triangles tile the polygon, whatever the library, the draws and the orders are."""
from .. import base, exact
from ..base import need

TITLE = 'The area is exact and the triangles tile the polygon whatever is left open'
RUNS = {'quick': 5000, 'thorough': 200000}
RULE = ('A run is one simple polygon (segments in ring order or as a soup of segments in any order and direction), triangulated up '
        'to four times with the triangulation library or by ear clipping, under random draws, set orders, and orders and '
        'rotations of the triangles the library returns. Nontrivial: at least two triangulations were judged; distinct by the '
        'event log.')
ASSUMPTIONS = ['corners are at least 2 % of the size of the polygon from other edges',
               'ear clipping may report that it failed, but then must leave no triangles']


def gen(r, tier):
    ring = exact.ring(r, n=r.choice([3, 4, 4, 5, 6, 7, 8, 9, 10, 12, 16]), margin=r.choice([0.02, 0.02, 0.01]))
    if r.random() < 0.25:              # corners on straight edges
        k = r.randrange(len(ring))
        a, b = ring[k - 1], ring[k]
        t = r.choice([0.5, 0.25])
        c = (round(a[0] + t * (b[0] - a[0]), 6), round(a[1] + t * (b[1] - a[1]), 6))
        if exact.orient(exact.fx(a), exact.fx(b), exact.fx(c)) == 0:
            ring.insert(k, c)
    segs = [[k, r.random() < 0.5] for k in range(len(ring))]
    r.shuffle(segs)
    ear = len(ring) <= 9
    ops = [r.choice(['triangle', 'triangle', 'area', 'area', 'detail', 'again'] + ['ear'] * (2 if ear else 0)) for _ in range(r.choice([1, 2, 4]))]
    how = r.choice(['ring', 'ring', 'soup'])
    return {'env': base.env(r, adv=False), 'ring': ring, 'segs': segs, 'how': how, 'ops': ops}


def build(plan):
    from geometry.SR_polygon import PolygonLine
    ring = [tuple(p) for p in plan['ring']]
    if plan['how'] == 'ring':
        return base.polygon(ring)
    s = base.segments(ring)
    return PolygonLine([s[k].line_reversed if rev else s[k] for k, rev in plan['segs']])


def judge(ring, ts, what, d):
    """the triangles tile the ring"""
    tol = 1e-6 * d + 3e-8
    xs = []
    for t in ts:
        ps = [p.xy for p in t.point_set]
        need(len(ps) == 3, 'tiles', '%s: a triangle has %d corners', what, len(ps))
        for p in ps:
            need(any(abs(p[0] - c[0]) <= tol and abs(p[1] - c[1]) <= tol for c in ring), 'tiles',
                 '%s: %r is a corner of a triangle but none of the polygon', what, p)
        xs.append(ps)
        need(exact.inside([ring], tuple(sum(c) / 3 for c in zip(*ps))), 'tiles', '%s: the triangle %r lies outside', what, ps)
    total = sum(exact.area(x) for x in xs)
    need(base.close(total, exact.area(ring), 1e-7, 1e-7), 'tiles', '%s: the triangles cover %.9g of %.9g', what, total, exact.area(ring))
    for i in range(len(xs)):
        for j in range(i):
            o = float(exact.tri_overlap_area2(xs[i], xs[j]))
            need(o <= 1e-7 * d * d, 'tiles', '%s: the triangles %r and %r overlap', what, xs[i], xs[j])
    own = sum(t.area for t in ts)
    need(base.close(own, exact.area(ring), 1e-6, 1e-7), 'tiles', '%s: the triangles give %.9g as their areas, the polygon has %.9g',
         what, own, exact.area(ring))


def run(plan, rec):
    ring = [tuple(p) for p in plan['ring']]
    d = exact.size([ring])
    true = exact.area(ring)
    done = 0
    with base.use(rec, plan['env'], 60000000) as w:
        o = build(plan)
        before = base.shape(o)
        for i, op in enumerate(plan['ops']):
            if op in ('area', 'detail'):
                got = [o.area] if op == 'area' else list(o.detailled_area.values())
                w.log(op, got)
                need(len(got) > 0, 'area', 'no area')
                for g in got:
                    base.number(g, 'area', 'the area')
                    need(base.close(g, true, 1e-6, 1e-7), 'area', 'the area is %.9g, should be %.9g', g, true)
                o.triangulate()             # does nothing unless there are none, as after ear clipping gave up
                judge(ring, list(o.triangles), op, d)
                done += 1
                continue
            if op == 'ear':
                res = o.triangulate(algorithm='ear clipping', force=True)
                ts = list(o.triangles)
                rec.probe('ear_clipping')
                if not ts:
                    rec.probe('ear_clipping_gave_up')
                    continue
            else:
                o.triangulate(algorithm='triangle', force=True) if op == 'triangle' else o.triangulate()
                ts = list(o.triangles)
            w.log(op, len(ts))
            judge(ring, ts, op, d)
            done += 1
        need(base.shape(o) == before, 'changed', 'to triangulate a polygon changes it')
    rec.nontrivial = done >= 2


def shrink(plan):
    ops = plan['ops']
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    if plan['how'] != 'ring':
        yield dict(plan, how='ring')
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
