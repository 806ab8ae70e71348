"""A copy and its original go their own ways."""
import copy
from .. import base, exact, queries, subjects, vessels
from ..base import need
from ..world import INJECTED, Random, Scheduler, Violation
from . import c10
from .c02 import pick

TITLE = 'A copy and its original do not influence each other, whatever is done to them'
RUNS = {'quick': 2200, 'thorough': 400000}
RULE = ('A run is a polygon with a history of edits and questions, copies of it and of its copies taken in between (deep and closed copies, the '
        'result of a walk, copies of triangles), which are edited and asked on (by turns, or by tasks switched at random statements), each judged by '
        'its own model; or a vessel and a copy of it of which one is cut. Nontrivial: something was edited while another object '
        'descending from the same original was judged later; distinct by the event log.')
ASSUMPTIONS = ['only simple polygons', 'points asked about keep 0.6 % of the size of the polygon away from its boundary', 'edits are not cut short']
HOW = ['deepcopy', 'deepcopy', 'closed_copy', 'closed_copy', 'walk', 'triangle', 'nodes']


def op(r, d, closed=True):
    if r.random() < 0.5:
        o = ['ask', r.choice(c10.QUESTIONS), r.random(), r.random()]
        return o + [r.random(), r.choice(['interrupt', 'memory'])] if r.random() < 0.1 else o
    what = r.choice(['move', 'move', 'rot0', 'rotxy', 'mirror'] + (['order', 'purge'] if closed else ['purge', 'end', 'begin', 'close']))
    a = {'move': lambda: [r.choice([0, 1, -3, r.uniform(-2, 2)]) * d, r.choice([0, 2, r.uniform(-1, 1)]) * d],
         'rot0': lambda: [r.choice([90, 180, -90, 30, r.uniform(-180, 180)])],
         'rotxy': lambda: [r.uniform(-1, 1) * d, r.uniform(-1, 1) * d, r.choice([90, 180, 45, r.uniform(-180, 180)])],
         'mirror': lambda: [r.choice([0, r.uniform(-1, 1) * d])]}.get(what, lambda: [])()
    return [what] + [round(x, 6) for x in a]


def gen(r, tier):
    if r.random() < 0.03:
        spec = vessels.gen(r, pick(r, [('simple', 8), ('rooms', 4), ('skirt', 4), ('reend', 3)]))
        return {'env': base.env(r, adv=False), 'vessel': spec, 'ops': [[r.randrange(2), r.choice(['ask', 'cut', 'cut', 'move']), r.randrange(10), r.random()]
                                                                     for _ in range(r.choice([2, 4, 6]))], 'when': r.random() < 0.5}
    ring = exact.ring(r, n=r.choice([3, 4, 4, 5, 6, 7, 8]))
    d = exact.size([ring])
    ops = []
    n = 1
    begin = len(ring) if r.random() < 0.35 else None        # a line that is still open
    if begin:
        if r.random() < 0.5:                                # any part of a convex ring can be closed
            ring = exact.ring(r, kinds=['convex'], n=r.choice([4, 5, 6]))
            d = exact.size([ring])
            begin = r.choice([2, len(ring) - 1])
        ops.append([0, 'fork', 'closed_copy', 0])
        n += 1
        ops += [[r.randrange(2)] + op(r, d, False) for _ in range(r.choice([1, 2, 3]))]
    for _ in range(r.choice([3, 6, 10, 14])):
        if n < 4 and r.random() < 0.3:
            ops.append([r.randrange(n), 'fork', r.choice(HOW), r.randrange(100)])
            n += 1
        else:
            ops.append([r.randrange(n)] + op(r, d, not begin))
    par = None
    if n > 1 and r.random() < 0.5:
        par = {'ops': [[op(r, d, not begin) for _ in range(r.choice([1, 2, 4]))] for _ in range(n)], 'sched': r.randrange(1 << 30),
               'gap': r.choice([2, 10, 60, 400])}
    return {'env': base.env(r, adv=False), 'ring': ring, 'shared': r.random() < 0.5, 'begin': begin, 'ops': ops, 'par': par}


def fork(o, m, how, k):
    from geometry.SR_polygon import walk_segments, polygon_from_nodes
    n = c10.Model(m.all, len(m.pts), m.closed)
    n.all = n.all[m.lo:] + n.all[:m.lo] if m.lo else n.all
    n.d = m.d
    if how == 'closed_copy' and len(m.pts) >= 3:
        n.closed = True
        return o.closed_copy(), n
    if not m.closed:
        how = 'deepcopy'
    if how == 'deepcopy':
        return copy.deepcopy(o), n
    if how == 'nodes':
        p = polygon_from_nodes([s.i.xy for s in o.segments])
        p.close()
        return p, n
    if how == 'walk':
        p = walk_segments(segments=o.segments)
        need(p is not False, 'walk', 'a closed polygon cannot be walked around')
        c10.adopt(p, n)
        return p, n
    o.triangulate()
    ts = sorted(o.triangles, key=lambda t: sorted(p.xy for p in t.point_set))
    need(ts, 'triangles', 'there are no triangles')
    t = ts[k % len(ts)]
    n = c10.Model([s.i.xy for s in t.segments], 3, True)
    n.d = m.d
    return copy.deepcopy(t), n


def step(i, o, m, op, w, rec):
    """an edit or a question, judged by the model"""
    if op[0] in ('end', 'begin') and m.closed:
        return
    if op[0] != 'ask':
        o2 = c10.edit(o, m, op)
        w.log(i, op)
        need(o2 is o, 'edit', 'internal')
        return
    q = op[1]
    if hasattr(o, 'congruent') and q in ('equal', 'disjunct', 'tiles', 'detail'):      # triangles have their own idea of these
        q = 'area'
    if len(op) > 4:
        w.arm_fault(1 + int((1.0 / max(op[4], 1e-3)) ** 2), op[5])
        try:
            c10.ask(o, m, q, op[2], op[3])
        except INJECTED as e:
            w.log('cut', q, type(e).__name__)
            rec.probe('cut')
        w.disarm()
    got, want = c10.ask(o, m, q, op[2], op[3])
    w.log(i, q, queries.plain(got))
    if got is not None:
        need(c10.matches(got, want, m), 'copy', 'of number %d, %s is %s; by its own history it is %s', i, q, queries.brief(got), queries.brief(want))


def run(plan, rec):
    if 'vessel' in plan:
        return vessel(plan, rec)
    from geometry.SR_polygon import PolygonLine, polygon_from_nodes
    ring = [tuple(p) for p in plan['ring']]
    with base.use(rec, plan['env'], 400000000) as w:
        if plan['begin']:
            o = polygon_from_nodes(ring[:plan['begin']])
        else:
            o = PolygonLine(base.segments(ring)) if plan['shared'] else base.polygon(ring)
        objs = [(o, c10.Model(ring, plan['begin'] or len(ring), not plan['begin']))]
        edited = set()
        for op in plan['ops']:
            i, op = op[0], op[1:]
            if i >= len(objs):                 # (a minimised plan)
                continue
            if op[0] == 'fork':
                objs.append(fork(objs[i][0], objs[i][1], op[1], op[2]))
                w.log('fork', op)
                rec.probe('fork_' + op[1])
                continue
            if op[0] != 'ask':
                edited.add(i)
            step(i, objs[i][0], objs[i][1], op, w, rec)
        if plan['par']:
            s = Scheduler(w, plan['par']['sched'], plan['par']['gap'])
            for i, ops in enumerate(plan['par']['ops'][:len(objs)]):
                s.add('t%d' % i, lambda i=i, ops=ops: [step(i, objs[i][0], objs[i][1], op[:4] if op[0] == 'ask' else op, w, rec) for op in ops])
                if any(op[0] != 'ask' for op in ops):
                    edited.add(i)
            s.run()
            rec.probe('switches', len(s.trace))
            for t in s.tasks:
                if t['error'] is not None:
                    raise t['error']
        for i, (o, m) in enumerate(objs):
            for q in ('shape', 'closed', 'area', 'points'):
                step(i, o, m, ['ask', q, 0, 0], w, rec)
    rec.nontrivial = len(objs) > 1 and bool(edited)


def report(b):
    return queries.plain(queries.ALL['raum_intex'](b, None, None))


def vessel(plan, rec):
    spec = plan['vessel']
    with base.use(rec, plan['env'], 2000000000) as w:
        b = vessels.build(spec)
        if plan['when']:
            report(b)
        both = [b, copy.deepcopy(b)]
        want = [subjects.state(x) for x in both]
        need(want[0] == want[1], 'copy', 'the copy of the vessel differs')
        touched = [False, False]
        moved = [set(), set()]                # a part that was moved keeps the place of its graph (known), and is not cut any more
        for who, what, k, u in plan['ops']:
            x = both[who]
            p = x.polygons[k % len(x.polygons)]
            if what == 'cut':
                (_, _), (lo, hi) = p.graph.bounding_box()
                if hi - lo > 1e-3 and p.typ != 'raumende' and p.name not in moved[who]:
                    w.log('cut', who, p.name, p.split(v=round(lo + (0.1 + 0.8 * u) * (hi - lo), 4)))
                    touched[who] = rec.nontrivial = True
            elif what == 'move':
                p.move(x0=round(u, 3), y0=1.0)
                moved[who].add(p.name)
                touched[who] = rec.nontrivial = True
            elif not touched[who]:
                bad = vessels.compare(spec, x.raum_intex(), [q.name for q in x.raume])
                need(bad is None, 'copy', 'number %d, to which nothing was done: %s', who, bad)
            if touched[who]:
                want[who] = subjects.state(x)
            for i in (0, 1):
                need(subjects.state(both[i]) == want[i], 'copy', '%s %s of number %d has changed number %d', what, p.name, who, i)
        for i in (0, 1):
            if not touched[i]:
                bad = vessels.compare(spec, both[i].raum_intex(), [q.name for q in both[i].raume])
                need(bad is None, 'copy', 'number %d, to which nothing was done: %s', i, bad)
        w.log('touched', touched)
        rec.probe('vessels')


def shrink(plan):
    ops = plan['ops']
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    if plan.get('par'):
        yield dict(plan, par=None)
        for i, t in enumerate(plan['par']['ops']):
            for j in range(len(t)):
                yield dict(plan, par=dict(plan['par'], ops=plan['par']['ops'][:i] + [t[:j] + t[j + 1:]] + plan['par']['ops'][i + 1:]))
    if plan.get('shared'):
        yield dict(plan, shared=False)
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
