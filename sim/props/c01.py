"""Where a point lies does not depend on which rays were drawn."""
from .. import base, exact
from ..base import need

TITLE = 'Where a point lies never depends on which probing rays happen to be drawn'
RUNS = {'quick': 9000, 'thorough': 300000}
RULE = ('A run is one polygon (one ring, or a ring with rings in it; segments in any order and direction) and up to 12 points off '
        'its boundary, with one seed for ray draws, grazing rays through corners and set orders. Nontrivial: at least one '
        'point inside and one outside were answered; distinct by the event log.')
ASSUMPTIONS = ['points nearer to the boundary than 0.2 % of the size of the polygon are not judged',
               'of the rays drawn for one answer never two in a row pass through a corner by more than chance']


def gen(r, tier):
    rings = [exact.ring(r)]
    d = exact.size(rings)
    if r.random() < 0.3:                   # rings inside of the ring
        for _ in range(60):
            h = exact.ring(r, kinds=['box', 'convex', 'grid'], n=r.choice([3, 4, 5]), scale=d * r.choice([0.05, 0.1, 0.2]), offset=False)
            cx, cy = exact.points(r, rings, 1, 0.01 * d)[0]
            h = [(round(x + cx, 5), round(y + cy, 5)) for x, y in h]
            if all(exact.rings_apart(h, q, 0.01 * d) for q in rings) and exact.inside(rings[:1], h[0]):
                rings.append(h)
                if len(rings) >= 3 or r.random() < 0.5:
                    break
    pts = exact.points(r, rings, r.choice([3, 6, 12]), 0.002 * d)
    segs = [[ring, k, r.random() < 0.5] for ring in range(len(rings)) for k in range(len(rings[ring]))]
    how = r.choice(['ring', 'ring', 'soup', 'triangle']) if len(rings) == 1 else 'soup'
    if how == 'triangle' and len(rings[0]) != 3:
        how = 'soup'
    if how == 'soup':
        r.shuffle(segs)
    return {'env': base.env(r), 'rings': rings, 'points': pts, 'how': how, 'segs': segs}


def build(plan):
    from geometry.SR_polygon import PolygonLine, Triangle
    rings = [[tuple(p) for p in ring] for ring in plan['rings']]
    if plan['how'] == 'ring':
        return base.polygon(rings[0])
    if plan['how'] == 'triangle':
        return Triangle(base.segments(rings[0]))
    segs = [base.segments(ring) for ring in rings]
    res = []
    for a, b, rev in plan['segs']:
        s = segs[a][b]
        res.append(s.line_reversed if rev else s)
    return PolygonLine(res)


def run(plan, rec):
    from geometry.SR_point import Point
    rings = [[tuple(p) for p in ring] for ring in plan['rings']]
    corners = [p for ring in rings for p in ring]
    with base.use(rec, plan['env'], 3000000) as w:
        poly = build(plan)
        before = base.shape(poly)
        seen = set()
        for p in plan['points']:
            p = tuple(p)
            truth = exact.inside(rings, p)
            seen.add(truth)
            for name in ('is_internal_point', 'is_external_point'):
                w.adv_ctx = (p, corners)
                w._adv_i = 0
                w.draws = 0
                w.draw_limit = 6 * (60 + 3 * plan['env'].get('adv_max', 0))
                got = getattr(poly, name)(p=Point(p))
                w.adv_ctx = None
                w.log(name, p, got)
                want = truth if name == 'is_internal_point' else not truth
                need(got is True or got is False or got in (0, 1), 'answer', '%s(%r) answers %r', name, p, got)
                need(bool(got) == want, 'wrong-side', '%s of point %r is %r; it is %s', name, p, got,
                     'enclosed' if truth else 'not enclosed')
        w.draw_limit = None
        need(base.shape(poly) == before, 'changed', 'asking for the position of points changed the polygon')
        rec.nontrivial = len(seen) == 2
        rec.probe('ring_with_rings', len(rings) > 1)


def shrink(plan):
    for i in range(len(plan['points'])):
        if len(plan['points']) > 1:
            yield dict(plan, points=[plan['points'][i]])
    for i in range(len(plan['points'])):
        yield dict(plan, points=plan['points'][:i] + plan['points'][i + 1:])
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
