"""The graph of a group is that of the present segments of its lines."""
import copy
import math
from .. import base, exact, queries
from ..base import need
from ..world import INJECTED, Scheduler, Violation
from .c10 import rot

TITLE = 'The graph of a group of lines is that of their present segments, whatever was asked or done before'
RUNS = {'quick': 3000, 'thorough': 200000}
RULE = ('A run is a group of 2 to 7 lines (a ring cut at corners, possibly with chords, a loose tail, a second ring, in any order and '
        'direction) and 3 to 14 questions about its points, numbers, neighbours, validity and segments, some cut short by a fault, '
        'between which lines are moved, turned, added or taken out; or two tasks ask it at once. Nontrivial: an edit or a fault or '
        'a switch came between two questions; distinct by the event log.')
ASSUMPTIONS = ['the lines do not cross each other and meet in common end points only', 'edits are not cut short',
               'tasks are switched between statements of the code under test, not inside of library calls']
QUESTIONS = ['numbers', 'numbers', 'adjacency', 'adjacency', 'numbered', 'numbered', 'graph', 'valid', 'valid', 'valid', 'segments',
             'between', 'find', 'degree']


def gen(r, tier):
    ring = exact.ring(r, n=r.choice([3, 4, 5, 6, 7, 8, 10]))
    d = exact.size([ring])
    n = len(ring)
    cuts = sorted(r.sample(range(n), r.randrange(2, min(n, 4) + 1)))
    lines = []
    for p, q in zip(cuts, cuts[1:] + [cuts[0] + n]):
        lines.append([list(ring[k % n]) for k in range(p, q + 1)])
    chords = []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        i, j = sorted(r.sample(range(n), 2))
        if j - i < 2 or i == 0 and j == n - 1:
            continue
        a, b = ring[i], ring[j]
        ok = exact.inside([ring], ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
        ok = ok and all(exact.dist_seg(p, a, b) > 0.01 * d for p in ring if p not in (a, b))
        ok = ok and all(exact.seg_dist(a, b, p, q) > 0.01 * d or {p, q} & {a, b} for p, q in exact.edges(ring))
        ok = ok and all({a, b} & {c, e} or exact.seg_dist(a, b, c, e) > 0.01 * d for c, e in chords) and {a, b} not in [set(c) for c in chords]
        if ok:
            chords.append((a, b))
            lines.append([list(a), list(b)] if r.random() < 0.5 else [list(a), [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2], list(b)])
    xs = [p[0] for p in ring]
    if r.random() < 0.25:                  # a loose end
        k = max(ring)
        lines.append([list(k), [round(k[0] + 0.7 * d, 5), k[1]]])
    if r.random() < 0.25:                  # a corner in which many lines meet
        k, n = min(ring), r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])
        low = min(p[1] for p in ring) - d
        foot = [[round(k[0] - (j + 0.5) * d, 5), round(low - 0.1 * d * j, 5)] for j in range(n)]
        lines += [[list(k), f] for f in foot]
        if n > 1:                          # joined below, so that there are no loose ends
            lines += [[a, b] for a, b in zip(foot, foot[1:])] if r.random() < 0.5 else [foot]
            if n > 2:
                lines.append([foot[0], [foot[0][0], round(low - 2 * d, 5)], foot[-1]])
    if r.random() < 0.25:                  # another ring
        ox = round(max(xs) + 2 * d, 5)
        lines.append([[ox, 0.0], [ox + d, 0.0], [ox, round(d, 5)], [ox, 0.0]])
    lines = [x[::-1] if r.random() < 0.5 else x for x in lines]
    r.shuffle(lines)
    out = r.randrange(len(lines)) if r.random() < 0.3 and len(lines) > 2 else None     # this one comes later
    ops = []
    for _ in range(r.choice([3, 6, 10, 14])):
        if r.random() < 0.7:
            op = ['ask', r.choice(QUESTIONS), r.random()]
            if r.random() < 0.2:
                op += [r.random(), r.choice(['interrupt', 'memory'])]
        else:
            op = r.choice([['move', r.random(), round(r.uniform(-1, 1) * d, 5), round(r.uniform(-1, 1) * d, 5)], ['all', round(r.uniform(-2, 2) * d, 5)],
                           ['rot', r.choice([90, 30, -45])], ['swap', r.random()], ['bend', r.random(), r.random(), round(r.uniform(.02, .1) * d, 5)], ['copy'], ['append', r.random()]])
        ops.append(op)
    return {'env': base.env(r, adv=False), 'lines': lines, 'later': out, 'ops': ops, 'tasks': r.choice([0, 0, 0, 2, 3]),
            'sched': r.randrange(1 << 30), 'gap': r.choice([2, 10, 60, 400]), 'switches': r.choice([20, 200, 3000])}


class Lines:
    """the lines as lists of corners"""

    def __init__(self, lines):
        self.lines = [[tuple(p) for p in x] for x in lines]

    def edges(self, ls=None):
        return [(base.rnd(a), base.rnd(b)) for x in (self.lines if ls is None else ls) for a, b in zip(x, x[1:])]

    def points(self):
        return sorted({p for e in self.edges() for p in e})

    def neighbours(self):
        res = {p: [] for p in self.points()}
        for a, b in self.edges():
            res[a].append(b)
            res[b].append(a)
        return {k: sorted(v) for k, v in res.items()}

    def valid(self):
        deg = [len(v) for v in self.neighbours().values()]
        return not ([x for x in deg if x < 2 or x > 3] or deg.count(2) < 3 or deg.count(3) % 2)

    def clear(self):
        """no two different points that could be taken for the same, no crossing lines (after single lines were moved)"""
        ps = self.points()
        return all(math.hypot(a[0] - b[0], a[1] - b[1]) > 1e-4 for i, a in enumerate(ps) for b in ps[:i])


def simple(l):
    """the line does not come near itself"""
    es = list(zip(l, l[1:]))
    tol = 0.005 * exact.size([l])
    for i, (a, b) in enumerate(es):
        for p, q in es[:i]:
            if {a, b} & {p, q}:
                c, (e, f) = ({a, b} & {p, q}).pop(), sorted({a, b} ^ {p, q}) if len({a, b} ^ {p, q}) == 2 else (a, b)
                if exact.dist_seg(e, c, f) < tol or exact.dist_seg(f, c, e) < tol:
                    return False
            elif exact.seg_dist(a, b, p, q) < tol:
                return False
    return all(math.hypot(a[0] - b[0], a[1] - b[1]) > tol for a, b in es)


def ask(g, m, q, u):
    """-> got, wanted"""
    key = lambda p: base.rnd(p.xy)
    ps = m.points()
    if q == 'numbers':
        d = g.points_numbered
        return [sorted(key(p) for p in d), sorted(d.values())], [ps, list(range(len(ps)))]
    if q == 'adjacency':
        d = g.as_adjacency_list()
        return {key(p): sorted(map(key, v)) for p, v in d.items()}, m.neighbours()
    if q == 'numbered':
        d = g.as_adjacency_list(as_numbered=True)
        no = {key(p): n for p, n in g.points_numbered.items()}
        return {k: sorted(v) for k, v in d.items()}, {no.get(k): sorted(no.get(p) for p in v) for k, v in m.neighbours().items()}
    if q == 'degree':
        al = g.as_adjacency_list()
        p = sorted(al, key=key)[int(u * len(al))]
        return g.node_degree(al, p), len(m.neighbours()[key(p)])
    if q == 'graph':
        return sorted(tuple(sorted((key(s.i), key(s.j)))) for s in g.representative_graph.segments), sorted(tuple(sorted(e)) for e in m.edges())
    if q == 'segments':
        return [(key(s.i), key(s.j)) for s in g.all_segments], m.edges()
    if q == 'valid':
        return bool(g.isvalid), m.valid()
    if q == 'between':
        from geometry.SR_point import Point
        some = ps[:max(1, int(u * len(ps)))]
        got = g.segments_from_points([Point(next(c for x in m.lines for c in x if base.rnd(c) == p)) for p in some])
        return [[base.rnd(s.i.xy) for s in x.segments] for x in got], \
               [[base.rnd(a) for a in x[:-1]] for x in m.lines if any(a in some and b in some for a, b in m.edges([x]))]
    if q == 'find':
        k = int(u * len(m.lines))
        return g.polygon_from_repr(copy.deepcopy(g.polygons[k])) is g.polygons[k], True
    raise AssertionError(q)


def make(lines):
    from geometry.SR_polygon import polygon_from_nodes
    from geometry.SR_polygon_group import PolygonGroup
    return PolygonGroup([polygon_from_nodes([tuple(p) for p in x]) for x in lines])


def judge(g, m, op, i, w, rec, faults=True):
    q = op[1]
    if faults and len(op) > 3:
        w.arm_fault(1 + int((1.0 / max(op[3], 1e-3)) ** 2), op[4])
        try:
            ask(g, m, q, op[2])
        except INJECTED as e:
            w.log('cut', q, type(e).__name__)
            rec.probe('cut')
        w.disarm()
    got, want = ask(g, m, q, op[2])
    w.log(q, queries.plain(got))
    need(got == want, 'graph', 'step %d: %s is %s; it should be %s', i, q, queries.brief(got), queries.brief(want))
    rec.probe('q_' + q)
    if q == 'valid':
        rec.probe('valid_%s' % want)


def state(g):
    return [[queries.seg(s) for s in p.segments] for p in g.polygons]


def run(plan, rec):
    from geometry.SR_polygon import polygon_from_nodes
    lines = plan['lines']
    with base.use(rec, plan['env'], 100000000) as w:
        now = [x for k, x in enumerate(lines) if k != plan['later']]
        g, m = make(now), Lines(now)
        asked = mixed = 0
        changed = False
        for i, op in enumerate(plan['ops']):
            k = op[0]
            if k == 'ask':
                if not m.clear():
                    continue
                before = state(g)
                judge(g, m, op, i, w, rec)
                need(state(g) == before, 'changed', 'step %d: to ask %s changes the lines', i, op[1])
                mixed += bool(asked and (changed or len(op) > 3))
                asked += 1
                continue
            changed = True
            if k == 'move':
                j = int(op[1] * len(m.lines))
                g.polygons[j].move(x0=op[2], y0=op[3])
                m.lines[j] = [(x + op[2], y + op[3]) for x, y in m.lines[j]]
            elif k == 'all':
                for p in g.polygons:
                    p.move(x0=op[1], y0=0)
                m.lines = [[(x + op[1], y) for x, y in l] for l in m.lines]
            elif k == 'rot':
                for p in g.polygons:
                    p.rotate_about_origin(phi=op[1])
                f = rot(op[1])
                m.lines = [[f(*p) for p in l] for l in m.lines]
            elif k == 'swap':                  # the same line, made anew
                j = int(op[1] * len(m.lines))
                g.polygons[j] = polygon_from_nodes(m.lines[j])
            elif k == 'bend':                  # another line between the same ends
                j = int(op[1] * len(m.lines))
                l, b = m.lines[j], int(op[2] * (len(m.lines[j]) - 1))
                if len(l) > 3 and l[0] != l[-1] and op[2] < 0.5:
                    l = l[:b + 1] + l[b + 2:] if b + 2 < len(l) else l[:b] + l[b + 1:]
                else:
                    l = l[:b + 1] + [((l[b][0] + l[b + 1][0]) / 2 + op[3], (l[b][1] + l[b + 1][1]) / 2)] + l[b + 1:]
                if not simple(l):
                    continue
                g.polygons[j] = polygon_from_nodes(l)
                m.lines[j] = l
            elif k == 'copy':
                g = copy.deepcopy(g)
            elif k == 'append' and plan['later'] is not None and len(m.lines) < len(lines):
                x = [tuple(p) for p in lines[plan['later']]]
                g.polygons.append(polygon_from_nodes(x))
                m.lines.append(x)
            # what the points are now: as the code has rounded them (the model keeps to within its own rounding)
            for p, l in zip(g.polygons, range(len(m.lines))):
                got = [s.i.xy for s in p.segments] + [p.segments[-1].j.xy]
                tol = 1e-5 + 1e-7 * max(abs(c) for q in m.lines[l] for c in q)
                need(len(got) == len(m.lines[l]) and all(abs(a[0] - b[0]) + abs(a[1] - b[1]) < tol for a, b in zip(got, m.lines[l])),
                     'edit', 'step %d: after %s a line is %s; it should be %s', i, op, queries.brief(got), queries.brief(m.lines[l]))
                m.lines[l] = got
            w.log(op)
        switched = 0
        if plan['tasks'] and m.clear():
            s = Scheduler(w, plan['sched'], plan['gap'], plan['switches'])
            qs = [op for op in plan['ops'] if op[0] == 'ask'] or [['ask', 'valid', 0.5]]

            def task(t):
                for i, op in enumerate(qs[t:] + qs[:t]):
                    judge(g, m, op, i, w, rec, False)
            before = state(g)
            for t in range(plan['tasks']):
                s.add('t%d' % t, lambda t=t: task(t))
            s.run()
            for t in s.tasks:
                if t['error'] is not None:
                    raise t['error']
            need(state(g) == before, 'changed', 'to be asked by several tasks changes the lines')
            switched = len(s.trace)
            rec.probe('switches', switched)
    rec.nontrivial = mixed > 0 or switched > 3


def shrink(plan):
    ops = plan['ops']
    if plan['tasks']:
        yield dict(plan, tasks=0)
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op[0] == 'ask' and len(op) > 3:
            yield dict(plan, ops=ops[:i] + [op[:3]] + ops[i + 1:])
    for i in range(len(plan['lines'])):
        if len(plan['lines']) > 2 and plan['later'] is None:
            yield dict(plan, lines=plan['lines'][:i] + plan['lines'][i + 1:])
    for n in (0, 2, 10, 50):
        if n < plan['switches']:
            yield dict(plan, switches=n)
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
