"""Segments that arrive in any order and direction are put into one chain, or refused."""
import math
from .. import base, exact
from ..base import need
from ..world import INJECTED, Random, Scheduler

TITLE = 'A ring is restored from segments in any order and direction; what is none is refused'
RUNS = {'quick': 9000, 'thorough': 400000}
RULE = ('A run is a set of segments (one ring, an open line, a ring with a tail or a chord, two rings apart or joined in a corner) that arrives '
        'in random order and directions, is walked by one or several tasks at a time, and is ordered, both cut short by up to four '
        'faults and then done again. Nontrivial: a fault struck, or tasks were switched, or it was no ring; distinct by the event log.')
ASSUMPTIONS = ['corners keep 1 to 2 % of the size away from other edges', 'no segment arrives twice',
               'faults strike between statements of the code under test, not inside of library calls']


def gen(r, tier):
    t = r.random()
    n = r.choice([3, 4, 5, 6, 7, 8, 10])
    if t < 0.01:
        n = r.choice([120, 240, 249, 250, 251, 280])
        ring = circle(r, n)
    else:
        ring = exact.ring(r, n=n)
    kind = 'ring' if t < 0.6 else r.choice(['open', 'tail', 'chord', 'two', 'eight'])
    edges = [[list(a), list(b)] for a, b in exact.edges(ring)]
    d = exact.size([ring])
    if kind == 'open':
        k = r.randrange(len(edges))
        edges = edges[k:] + edges[:k]
        edges = edges[1:] if r.random() < 0.7 or len(edges) < 5 else edges[1:-2]
    elif kind == 'tail':
        p = list(r.choice(ring))
        q = [round(p[0] + r.uniform(2, 3) * d, 4), round(p[1] + r.uniform(-3, 3) * d, 4)]
        edges.append([p, q])
        if r.random() < 0.4:
            edges.append([q, [round(q[0] + r.uniform(1, 2) * d, 4), q[1]]])
    elif kind == 'chord':
        k = r.randrange(len(ring))
        p, q = ring[k], ring[(k + 2) % len(ring)] if len(ring) > 3 else ring[k - 1]
        m = [round((p[0] + q[0]) / 2 + 3.1 * d, 4), round((p[1] + q[1]) / 2 + 2.2 * d, 4)]
        edges += [[list(p), m], [m, list(q)]]
    elif kind in ('two', 'eight'):
        o = exact.ring(r, n=r.choice([3, 4, 5]), offset=False)
        k = r.randrange(len(ring))
        i = r.randrange(len(o))
        e = exact.size([o])
        far = (4 * (d + e), 3 * (d + e)) if kind == 'two' else (0, 0)
        if kind == 'two' or len(ring) > 0:
            mx = max(p[0] for p in ring)
            if kind == 'eight':        # joined in the corner furthest to the right
                k = max(range(len(ring)), key=lambda j: ring[j])
                i = min(range(len(o)), key=lambda j: o[j])
            o = [[round(x - o[i][0] + ring[k][0] + far[0], 4), round(y - o[i][1] + ring[k][1] + far[1], 4)] for x, y in o]
            if kind == 'eight':
                o[i] = list(ring[k])
        edges += [[list(a), list(b)] for a, b in exact.edges(o)]
    edges = [e if r.random() < 0.5 else e[::-1] for e in edges]
    if r.random() < 0.85:
        r.shuffle(edges)
    big = len(edges) > 40
    cuts = [[r.random(), r.choice(['interrupt', 'memory'])] for _ in range(r.choice([0, 1, 2, 4]))]
    return {'env': base.env(r, adv=False), 'kind': kind, 'edges': edges, 'cuts': cuts,
            'walk_cuts': [] if big else [[r.random(), r.choice(['interrupt', 'memory'])] for _ in range(r.choice([0, 0, 1, 2]))],
            'walkers': 0 if big else r.choice([1, 1, 2, 3]), 'sched': r.randrange(1 << 30), 'gap': r.choice([2, 20, 200, 2000]),
            'share': r.random() < 0.5}


def circle(r, n):
    x, y, d = round(r.uniform(-50, 50), 2), round(r.uniform(-50, 50), 2), r.choice([1.0, 30.0])
    return [(round(x + d * math.cos(2 * math.pi * i / n), 4), round(y + d * math.sin(2 * math.pi * i / n), 4)) for i in range(n)]


def make(plan):
    from geometry.SR_line import LineSegment
    from geometry.SR_point import Point
    pts = {}

    def p(c):
        c = tuple(c)
        if not plan['share']:
            return Point(c)
        if c not in pts:
            pts[c] = Point(c)
        return pts[c]
    return [LineSegment(p(a), p(b)) for a, b in plan['edges']]


def und(segs):
    return sorted(tuple(sorted((base.rnd(s.i.xy), base.rnd(s.j.xy)))) for s in segs)


def dirs(segs):
    return [(s.i.xy, s.j.xy) for s in segs]


def run(plan, rec):
    from geometry.SR_polygon import PolygonLine, walk_segments
    segs = make(plan)
    given = und(segs)
    kind = plan['kind']
    cost = {}
    with base.World(plan['env'], 10 ** 9) as w:
        PolygonLine(make(plan)).order()
        cost['order'] = w.n
        n0 = w.n
        if plan['walkers']:
            walk_segments(segments=make(plan))
        cost['walk'] = w.n - n0
    struck = 0
    with base.use(rec, plan['env'], 400000000) as w:
        before = dirs(segs)
        for frac, fault in plan['walk_cuts']:
            w.arm_fault(1 + int(frac * cost['walk']), fault)
            try:
                walked(plan, walk_segments(segments=segs), given)
            except INJECTED:
                struck += 1
            w.disarm()
            need(dirs(segs) == before, 'changed', 'walking that was cut short has changed the segments: %r, were %r', dirs(segs), before)
        if plan['walkers'] == 1:
            walked(plan, walk_segments(segments=segs), given)
        elif plan['walkers']:
            s = Scheduler(w, plan['sched'], plan['gap'])
            for i in range(plan['walkers']):
                s.add('w%d' % i, lambda: walk_segments(segments=segs))
            s.run()
            for t in s.tasks:
                if t['error'] is not None:
                    raise t['error']
                walked(plan, t['result'], given)
            rec.probe('switches', len(s.trace))
        need(dirs(segs) == before, 'changed', 'walking has changed the segments: %r, were %r', dirs(segs), before)
        o = PolygonLine(segs)
        for frac, fault in plan['cuts']:
            w.arm_fault(1 + int(frac * cost['order']), fault)
            try:
                ordered(plan, o, o.order(), given)
            except INJECTED:
                struck += 1
            w.disarm()
            need(und(o.segments) == given, 'lost', 'ordering that was cut short leaves the segments %r; given: %r', und(o.segments), given)
        ordered(plan, o, o.order(), given)
        a = dirs(o.segments)
        w.log('ordered', a)
        if kind == 'ring':
            need(o.order() is True and dirs(o.segments) == a, 'again', 'ordered again, the chain is %r instead of %r', dirs(o.segments), a)
            s, seen = o.segments[0], 0
            while seen <= len(given):
                s, seen = o.next_segment(s), seen + 1
                if s is o.segments[0]:
                    break
            need(seen == len(given), 'next', 'from segment to segment, it takes %d steps around %d segments', seen, len(given))
            p = PolygonLine(make(plan))            # a different history, the same chain up to its direction
            p.order()
            b = dirs(p.segments)
            back = [(j, i) for i, j in b[::-1]]
            need(a == b or sorted(a) == sorted(back), 'differs', 'the chain is %r after interruptions, without them it is %r', a, b)
    rec.nontrivial = struck > 0 or kind != 'ring' or plan['walkers'] > 1
    rec.probe('kind_' + kind)
    rec.probe('struck', struck)


def ordered(plan, o, answer, given):
    need(und(o.segments) == given, 'lost', 'ordering (%s) leaves the segments %r; given: %r', answer, und(o.segments), given)
    if plan['kind'] != 'ring':
        need(answer is False, 'accepted', 'ordering accepts what is no ring (%s) and answers %r', plan['kind'], answer)
        return
    need(answer is True, 'refused', 'ordering refuses a ring: %r', answer)
    d = dirs(o.segments)
    for (a, b), (c, e) in zip(d, d[1:] + d[:1]):
        need(b == c, 'chain', 'ordered, the segments are no chain: %r is followed by %r', (a, b), (c, e))
    far = [math.hypot(*a) for a, b in d]
    need(far[0] <= min(far) + 1e-7 * max(1.0, max(far)), 'start', 'ordered, the chain starts at %r, the corner next to the origin is %r', d[0][0],
         d[far.index(min(far))][0])


def walked(plan, answer, given):
    if plan['kind'] in ('open', 'chord'):
        need(answer is False, 'found', 'walking finds a ring in %s: %r', plan['kind'], answer)
    if plan['kind'] == 'ring':
        need(answer is not False, 'missed', 'walking does not find the ring of %r', given)
    if answer is False:
        return
    u = und(answer.segments)
    need(len(set(u)) == len(u) and set(u) <= set(given), 'invented', 'walking finds %r in %r', u, given)
    need(plan['kind'] != 'ring' or u == given, 'missed', 'walking finds only %r in %r', u, given)
    d = dirs(answer.segments)
    need(len(d) > 2 and all(b == c for (a, b), (c, e) in zip(d, d[1:] + d[:1])), 'chain', 'what walking finds is no closed chain: %r', d)


def shrink(plan):
    for k in ('cuts', 'walk_cuts'):
        for i in range(len(plan[k])):
            yield dict(plan, **{k: plan[k][:i] + plan[k][i + 1:]})
    if plan['walkers'] > 1:
        yield dict(plan, walkers=plan['walkers'] - 1)
    if plan['walkers']:
        yield dict(plan, walkers=0)
    if plan['share']:
        yield dict(plan, share=False)
    e = plan['edges']
    if e != sorted(e):
        yield dict(plan, edges=sorted(e))
    for v in base.shrink_env(plan['env']):
        yield dict(plan, env=v)
