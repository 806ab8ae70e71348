"""Whatever has been done to a polygon, and asked in between, it answers for the shape it has now."""
import math
from .. import base, exact, queries
from ..base import need
from ..world import INJECTED

TITLE = 'After any history of edits and questions a polygon answers for its present shape'
RUNS = {'quick': 12000, 'thorough': 1000000}
RULE = ('A run is one line or polygon and a history of 3 to 16 edits (move, rotate, mirror, append, close, copy, order, purge) and '
        'questions (some cut short by a fault), against a model that has only the list of corners. Nontrivial: at least one '
        'edit came between two questions; distinct by the event log.')
ASSUMPTIONS = ['only simple polygons', 'points asked about keep 0.6 % of the size of the polygon away from its boundary',
               'edits themselves are not cut short']
QUESTIONS = ['area', 'area', 'area', 'tiles', 'tiles', 'inside', 'inside', 'inside', 'outside', 'box', 'points', 'closed', 'ends', 'shape',
             'convex', 'length', 'valid', 'disjunct', 'detail', 'triangle', 'walk', 'equal', 'hull', 'neighbours', 'at', 'next', 'gaps',
             'middle', 'turns', 'loose', 'unlike', 'shuffled', 'straight', 'straight', 'simpler']


def gen(r, tier):
    ring = exact.ring(r, n=r.choice([3, 4, 4, 5, 6, 7, 8]))
    if r.random() < 0.15:                 # corners in the middle of edges
        ring = [q for a, b in exact.edges(ring) for q in ([a, ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)] if r.random() < 0.4 else [a])]
    k = len(ring)
    begin = r.choice([k, k, k, k, 2, max(2, k - 1)])
    todo, ops = k - begin, []
    closed = False
    start = r.choice(['close', 'close', 'open', 'shared']) if begin == k else 'open'
    if start in ('close', 'shared'):
        closed = True
    for _ in range(r.choice([3, 5, 8, 12, 16])):
        t = r.random()
        if t < 0.5:
            q = r.choice(QUESTIONS)
            op = ['ask', q, r.random(), r.random()]
            if r.random() < 0.2:
                op += [r.random(), r.choice(['interrupt', 'memory'])]
        elif t < 0.72 or closed and t < 0.9:
            d = exact.size([ring])
            what = r.choice(['move', 'move', 'rot0', 'rotxy', 'mirror'])
            op = {'move': lambda: ['move', r.choice([0, 1, -3, r.uniform(-2, 2)]) * d, r.choice([0, 2, r.uniform(-1, 1)]) * d],
                  'rot0': lambda: ['rot0', r.choice([90, 180, -90, 30, r.uniform(-180, 180)])],
                  'rotxy': lambda: ['rotxy', r.uniform(-1, 1) * d, r.uniform(-1, 1) * d, r.choice([90, 180, 45, r.uniform(-180, 180)])],
                  'mirror': lambda: ['mirror', r.choice([0, r.uniform(-1, 1) * d])]}[what]()
            op = [op[0]] + [round(x, 6) for x in op[1:]]
        elif not closed and todo:
            op = [r.choice(['end', 'end', 'begin'])]
            todo -= 1
        elif not closed and r.random() < 0.8:
            op = [r.choice(['close', 'close', 'close_point', 'closed_copy'])]
            closed = True
        else:
            op = [r.choice(['purge', 'deepcopy', 'closed_copy', 'order'] if closed else ['purge', 'deepcopy'])]
        ops.append(op)
    return {'env': base.env(r, adv=False), 'ring': ring, 'begin': begin, 'start': start, 'ops': ops}


class Model:
    def __init__(self, ring, begin, closed):
        self.all = [tuple(p) for p in ring]         # all corners there will ever be, moved along
        self.lo, self.hi = 0, begin                 # the ones in use: lo..hi-1 (cyclic)
        self.closed = closed
        self.d = exact.size([self.all])

    @property
    def pts(self):
        n = len(self.all)
        return [self.all[i % n] for i in range(self.lo, self.hi)]

    def edges(self):
        p = self.pts
        e = list(zip(p, p[1:]))
        if self.closed:
            e.append((p[-1], p[0]))
        return e

    def map(self, f):
        self.all = [f(*p) for p in self.all]

    def tol(self):
        return 1e-6 * self.d + 3e-8 * max(1.0, max(abs(c) for p in self.all for c in p))


def rot(phi):
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    return lambda x, y: (x * c - y * s, x * s + y * c)


def edit(o, m, op):
    """-> the object to go on with"""
    import copy
    from geometry.SR_point import Point
    k = op[0]
    if k == 'move':
        o.move(x0=op[1], y0=op[2])
        m.map(lambda x, y: (x + op[1], y + op[2]))
    elif k == 'rot0':
        o.rotate_about_origin(phi=op[1])
        m.map(rot(op[1]))
    elif k == 'rotxy':
        x0, y0 = m.pts[0][0] + op[1], m.pts[0][1] + op[2]
        o.rotate_about_xy(x0=x0, y0=y0, phi=op[3])
        f = rot(op[3])
        m.map(lambda x, y: tuple(a + b for a, b in zip(f(x - x0, y - y0), (x0, y0))))
    elif k == 'mirror':
        x0 = m.pts[0][0] + op[1]
        o.mirror_vertical(x0=x0)
        m.map(lambda x, y: (2 * x0 - x, y))
    elif k == 'end' and m.hi - m.lo < len(m.all):
        o.append_point_at_end(p=Point(m.all[m.hi % len(m.all)]))
        m.hi += 1
    elif k == 'begin' and m.hi - m.lo < len(m.all):
        o.append_point_at_beginning(p=Point(m.all[(m.lo - 1) % len(m.all)]))
        m.lo -= 1
    elif k == 'close' and m.hi - m.lo >= 3:
        o.close()
        m.closed = True
    elif k == 'close_point' and m.hi - m.lo >= 3 and not m.closed:
        o.append_point_at_end(p=Point(o.first_point.xy))
        m.closed = True
    elif k == 'closed_copy' and m.hi - m.lo >= 3:
        o = o.closed_copy()
        m.closed = True
    elif k == 'purge':
        o.purge()
    elif k == 'deepcopy':
        o = copy.deepcopy(o)
    elif k == 'order' and m.closed:
        need(o.order() is True, 'order', 'order() of a closed polygon fails')
        adopt(o, m)
    return o


def adopt(o, m):
    """order() may turn the polygon round and begins at the corner nearest to the origin"""
    got = [s.i.xy for s in o.segments]
    want = m.pts
    n = len(want)
    for cand in (want, want[::-1]):
        for i in range(n):
            c = cand[i:] + cand[:i]
            if len(got) == n and all(close(a, b, m.tol()) for a, b in zip(got, c)):
                dist = [math.hypot(*p) for p in c]
                need(dist[0] <= min(dist) + 2 * m.tol(), 'order', 'order() begins at %r, which is not nearest to the origin', got[0])
                m.all, m.lo, m.hi = c, 0, n
                return
    need(False, 'order', 'order() gives the corners %r, should be those of %r', got, want)


def close(a, b, tol):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def ask(o, m, q, u, v):
    from geometry.SR_point import Point
    from geometry.SR_polygon import convex_hull, remove_collinear_points, remove_outlier_segments, walk_segments
    pts, tol = m.pts, m.tol()
    ring = [tuple(p) for p in pts]
    if q == 'closed':
        return [o.isclosed, o.isopen, o.iscontinuous], [m.closed, not m.closed, True]
    if q == 'box':
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        return o.bounding_box(), ((min(xs), max(xs)), (min(ys), max(ys)))
    if q == 'points':
        return like(pts, [p.xy for p in o.point_set]), pts
    if q == 'ends':
        return [o.first_point.xy, o.last_point.xy], [pts[0], pts[0] if m.closed else pts[-1]]
    if q == 'shape':
        return [s.i.xy + s.j.xy for s in o.segments], [a + b for a, b in m.edges()]
    if q == 'length':
        return sum(s.norm for s in o.segments), sum(math.hypot(a[0] - b[0], a[1] - b[1]) for a, b in m.edges())
    if q == 'valid':
        return o.isvalid, True
    if q == 'equal':
        p = base.polygon(ring) if m.closed else None
        if p is None:
            return True, True
        same = base.polygon([s.i.xy for s in o.segments])
        return [o == p, o.loose_equal(same), o.loose_subset(same), p == o, same == o], [True] * 5
    if q == 'hull':
        if m.hi - m.lo < len(m.all):
            return None, None
        want = hull(ring, 1e-5 * m.d ** 2)
        if want is None:
            return None, None
        got = convex_hull([p.xy for p in o.point_set])
        need(got.isclosed, 'answer', 'the convex hull is not closed')
        return like(want, [s.i.xy for s in got.segments]), want
    n = len(pts)
    if q in ('neighbours', 'at'):
        k = int(u * n)
        before = [pts[k - 1]] if k or m.closed else []
        after = [pts[(k + 1) % n]] if k < n - 1 or m.closed else []
        if q == 'neighbours':
            return like(before + after, [p.xy for p in o.neighbour(p=Point(pts[k]))]), before + after
        want = [[(pts[k], c) for c in after], [(c, pts[k]) for c in before]]
        got = [[(s.i.xy, s.j.xy) for s in o.find_segment_by_point(Point(pts[k]), whichend=e)] for e in ('start', 'end')]
        both = o.find_segment_by_point(Point(pts[k]), whichend='both')
        return got + [len(both)], want + [len(before + after)]
    if q == 'gaps':
        return [len(o.discontinuity), len(o.crossing_lines)], [0, 0]
    if q == 'middle':
        return o.midpoint.xy, centre(pts)
    if q == 'turns':
        e = m.edges()
        v = [(b[0] - a[0], b[1] - a[1]) for a, b in e]
        want = [x[0] * y[1] - x[1] * y[0] for x, y in zip(v, v[1:] + v[:1])]
        got = list(o.cps)
        need(len(got) == len(want), 'answer', '%d turns for %d corners', len(got), len(want))
        return max(abs(x - y) for x, y in zip(got, want)) <= 8 * m.tol() * m.d, True
    if q == 'loose':
        ends = [] if m.closed else [pts[0], pts[-1]]
        want = [a + b for a, b in m.edges() if a not in ends and b not in ends]
        return [s.i.xy + s.j.xy for s in remove_outlier_segments(o.segments)], want
    if q in ('unlike', 'shuffled'):
        from geometry.SR_polygon import PolygonLine
        from geometry.SR_line import LineSegment
        now = [(s.i.xy, s.j.xy) for s in o.segments]
        if q == 'unlike':                   # one corner is somewhere else
            c = now[int(u * len(now))][0]
            d = c[0] + 0.3 * m.d, c[1] + (0.2 + v) * m.d
            now = [tuple(d if math.hypot(x[0] - c[0], x[1] - c[1]) < 1e-6 * m.d else x for x in e) for e in now]
        else:
            k = int(u * len(now))
            now = [e[::-1] if (i * 7 + k) % 3 else e for i, e in enumerate(now)]
            now = now[k:] + now[:k]
            now = now[::2] + now[1::2]
        p = PolygonLine([LineSegment(Point(x), Point(y)) for x, y in now])
        return [o.loose_equal(p), p.loose_equal(o), o.loose_subset(p)] + ([o == p, p == o, not (o != p)] if q == 'unlike' else []), \
            [q == 'shuffled'] * (3 if q == 'shuffled' else 6)
    if not m.closed:
        return None, None
    if q in ('area', 'detail'):
        if q == 'detail':
            got = list(o.detailled_area.values())
            need(len(got) >= 1, 'answer', 'no area at all')
            return got, [exact.area(ring)] * len(got)
        return o.area, exact.area(ring)
    if q == 'next':
        return [o.next_segment(s).i.xy for s in o.segments] + [o.next_segment(o.segments[-1]) is o.segments[0]], pts[1:] + pts[:1] + [True]
    if q in ('straight', 'simpler'):
        c = [abs(exact.orient(ring[i - 1], ring[i], ring[(i + 1) % n])) / m.d ** 2 for i in range(n)]
        if any(1e-6 < x < 1e-4 for x in c):
            return None, None
        mids = [p for p, x in zip(ring, c) if x < 1e-5]
        if q == 'simpler':
            want = [p for p in ring if p not in mids]
            got = remove_collinear_points(o)
            need(got.isclosed and len(got.segments) == len(want), 'answer', 'without the corners on straight edges there are %d segments%s',
                 len(got.segments), '' if got.isclosed else ', not closed')
            return like(want, [s.i.xy for s in got.segments]), want
        sides = [ring[i] for i in range(n) if ring[i] not in mids and (ring[i - 1] in mids or ring[(i + 1) % n] in mids)]
        a, b, cnt = o.collinear_points
        return [like(mids, [p.xy for p in a]), like(sides, [p.xy for p in b]), like(sides, [p.xy for p in cnt])], [mids, sides, sides]
    if q == 'triangle':
        return bool(o.is_triangle), len(ring) == 3
    if q in ('inside', 'outside'):
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        d = max(max(xs) - min(xs), max(ys) - min(ys))
        p = (min(xs) + (1.2 * u - 0.1) * d, min(ys) + (1.2 * v - 0.1) * d)
        if exact.dist_rings(p, [ring]) < 0.006 * d:
            return None, None
        t = exact.inside([ring], p)
        if q == 'inside':
            return bool(o.is_internal_point(p=Point(p))), t
        return bool(o.is_external_point(p=Point(p))), not t
    if q == 'tiles':
        o.triangulate()
        ts = list(o.triangles)
        need(len(ts) == len(ring) - 2, 'tiles', '%d triangles, a polygon of %d corners takes %d', len(ts), len(ring), len(ring) - 2)
        for t in ts:
            need(all(any(close(p.xy, c, tol) for c in ring) for p in t.point_set), 'tiles', 'the triangle %r has corners that are none '
                 'of the polygon', t)
            mid = t.midpoint.xy
            need(exact.inside([ring], mid), 'tiles', 'the middle of the triangle %r is not inside', t)
        return sum(t.area for t in ts), exact.area(ring)
    if q == 'convex':
        c = [exact.orient(ring[i - 2], ring[i - 1], ring[i]) for i in range(len(ring))]
        if min(abs(x) for x in c) < 1e-5 * m.d ** 2:
            return None, None
        return bool(o.isconvex), all(x > 0 for x in c) or all(x < 0 for x in c)
    if q == 'disjunct':
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        w, h = max(xs) - min(xs), max(ys) - min(ys)
        far = [(max(xs) + w, min(ys)), (max(xs) + 2 * w, min(ys)), (max(xs) + 2 * w, max(ys) + h)]
        over = [(min(xs) - w, min(ys) - h), (max(xs) + w, min(ys) - 1.1 * h), (max(xs) + 1.2 * w, max(ys) + h), (min(xs) - w, max(ys) + 1.3 * h)]
        return [bool(o.disjunct(base.polygon(far))), bool(o.disjunct(base.polygon(over)))], [True, False]
    if q == 'walk':
        p = walk_segments(segments=o.segments)
        need(p is not False, 'walk', 'a closed polygon cannot be walked around')
        return base.shape(p), base.shape(o)
    raise AssertionError(q)


def centre(ring):
    return sum(p[0] for p in ring) / len(ring), sum(p[1] for p in ring) / len(ring)


def hull(ring, eps):
    """the corners of the convex hull, or None if it depends on rounding"""
    res = []
    for i, p in enumerate(ring):
        # p is a corner of the hull if it is outside of all triangles of others and on none of their edges
        others = ring[:i] + ring[i + 1:]
        ang = sorted(math.atan2(q[1] - p[1], q[0] - p[0]) for q in others)
        gap = max(b - a for a, b in zip(ang, ang[1:] + [ang[0] + 2 * math.pi]))
        if abs(gap - math.pi) < 1e-4:
            return None
        if gap > math.pi:
            res.append(p)
    return res


def like(want, got):
    """the points got, in the order of those wanted that they are nearest to"""
    got, out = list(got), []
    for c in want:
        if got:
            out.append(got.pop(min(range(len(got)), key=lambda i: math.hypot(got[i][0] - c[0], got[i][1] - c[1]))))
    return out + got


def matches(got, want, m):
    if isinstance(want, bool) or isinstance(got, bool):
        return got is want
    if isinstance(want, float):
        if not isinstance(got, (int, float)):
            return False
        return abs(got - want) <= 1e-6 * abs(want) + 4 * m.tol()
    if isinstance(want, (list, tuple)):
        return len(got) == len(want) and all(matches(a, b, m) for a, b in zip(got, want))
    return got == want


def run(plan, rec):
    with base.use(rec, plan['env'], 400000000) as w:
        play(plan, w, rec)


def play(plan, w, rec):
    from geometry.SR_polygon import polygon_from_nodes, PolygonLine
    ring = [tuple(p) for p in plan['ring']]
    closed = plan['start'] in ('close', 'shared')
    asked = edited = mixed = 0
    m = Model(ring, plan['begin'], closed)
    if plan['start'] == 'shared':           # segments that do not share points
        o = PolygonLine(base.segments(ring))
    else:
        o = polygon_from_nodes(m.pts)
        if closed:
            o.close()
    for i, op in enumerate(plan['ops']):
        if op[0] != 'ask':
            o = edit(o, m, op)
            edited += 1
            w.log(op)
            continue
        q = op[1]
        if len(op) > 4:
            n0 = w.n
            w.arm_fault(1 + int((1.0 / max(op[4], 1e-3)) ** 2), op[5])
            try:
                ask(o, m, q, op[2], op[3])
            except INJECTED as e:
                w.log('cut', q, type(e).__name__, w.n - n0)
                rec.probe('cut')
            w.disarm()
        got, want = ask(o, m, q, op[2], op[3])
        w.log(q, queries.plain(got))
        if got is None:
            continue
        need(matches(got, want, m), 'stale', 'step %d: %s is %s; for the present shape it is %s', i, q, queries.brief(got),
             queries.brief(want))
        rec.probe('q_' + q)
        mixed += bool(asked and edited)
        asked += 1
    rec.nontrivial = rec.nontrivial or mixed > 0


def shrink(plan):
    ops = plan['ops']
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if len(op) > 4 and op[0] == 'ask':
            yield dict(plan, ops=ops[:i] + [op[:4]] + ops[i + 1:])
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
