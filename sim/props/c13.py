"""Drawing shows what is there and changes nothing, whatever the device does."""
import json
from .. import base, exact, queries, subjects, vessels
from ..base import need
from ..world import INJECTED, Scheduler
from .c02 import pick

TITLE = 'Drawing shows the shape and its rooms, changes nothing, and survives a failing device'
PLOTTING = True
RUNS = {'quick': 1200, 'thorough': 60000}
RULE = ('A run is one polygon, triangle, group or vessel that is drawn 1 to 3 times, each time cut short up to twice by a failure of the plotting '
        'device, an interrupt, lack of memory or (vessels, triangulations) a failure of the triangulation library, and then drawn again; '
        'possibly while another task asks it. Nontrivial: a fault struck or tasks were switched; distinct by the event log.')
ASSUMPTIONS = ['the device is a stand-in for matplotlib that records what is drawn', 'rooms are judged whose walls do not cross']
REAL = 'geometry/* and SR_Vessel/* as in the working tree, the triangle C library, copy.deepcopy'
STUB = 'matplotlib (records and fails), console, clock, random source'
FAMS = [('simple', 12), ('rooms', 8), ('skirt', 6), ('double', 1), ('reend', 8), ('jacket', 2), ('twins', 4), ('krempe', 3), ('resep', 4)]


def gen(r, tier):
    t = r.random()
    if t < 0.16:
        s = {'kind': 'vessel', 'spec': vessels.gen(r, pick(r, FAMS))}
    else:
        s = subjects.gen(r, 0)
        if r.random() < 0.2:
            s['kind'] = 'group'
    draws, cuts = [], []
    for _ in range(1 if s['kind'] == 'vessel' else r.choice([1, 1, 2, 3])):
        draws.append(draw(r, s))
        cuts.append([] if r.random() < 0.2 else
                    [[r.choice([r.random(), r.random(), 0.0, 0.999]), r.choice(['device', 'device', 'memory_device', 'interrupt', 'memory', 'backend'])]
                     for _ in range(r.choice([1, 1, 2]))])
    qs = [] if s['kind'] == 'group' else [subjects.query(r, s) for _ in range(r.choice([1, 2, 3]))]
    par = None
    if qs and r.random() < 0.3:
        par = {'sched': r.randrange(1 << 30), 'gap': r.choice([3, 30, 300, 3000]), 'switches': r.choice([20, 300])}
    return {'env': base.env(r, adv=False), 'seed0': r.randrange(1 << 30), 'subject': s, 'draws': draws, 'cuts': cuts, 'queries': qs, 'par': par}


def draw(r, s):
    if s['kind'] == 'vessel':
        t = r.random()
        return ['rooms', r.random() < 0.7] if t < 0.8 else ['parts'] if t < 0.95 else ['graphical']
    if s['kind'] == 'group':
        return ['group']
    what = r.choice(['plot', 'plot', 'plot', 'triangulation'] if s['kind'] == 'polygon' and 'open' not in s else ['plot'])
    if what == 'triangulation':
        return [what, r.random() < 0.5]
    return [what, {'show': r.random() < 0.6, 'segments': r.random() < 0.85, 'points': r.random() < 0.7, 'also': r.random() < 0.4,
                   'annotate': r.random() < 0.5, 'title': r.choice([None, 'x'])}]


def make(s):
    o, x = subjects.make(dict(s, kind='polygon') if s['kind'] == 'group' else s)
    if s['kind'] == 'group':
        from geometry.SR_polygon_group import PolygonGroup
        return PolygonGroup([o, x]), None
    return o, x


def perform(o, x, d):
    if d[0] == 'rooms':
        o.plot(cycles=d[1])
    elif d[0] == 'parts':
        from geometry.SR_polygon_group import PolygonGroup
        PolygonGroup.plot(o, cycles=False)
    elif d[0] == 'graphical':
        o.graphical_testing()
    elif d[0] == 'group':
        o.plot(cycles=False)
    elif d[0] == 'triangulation':
        o.plot_triangulation(show=d[1])
    else:
        k = d[1]
        o.plot(segments=k['segments'], points=k['points'], show=k['show'], also_plot=(x,) if k['also'] else (), annotate=k['annotate'],
               title=k['title'])


def ul(a, b):
    return tuple(sorted((base.rnd(a), base.rnd(b))))


def und(segs):
    return {ul(s.i.xy, s.j.xy) for s in segs}


def rings(segs):
    """the rings that the segments form, or None"""
    todo, res = sorted(set(segs)), []
    if len(todo) != len(segs):
        return None
    while todo:
        comp, pts = [todo.pop()], set()
        pts.update(comp[0])
        more = True
        while more:
            m = [e for e in todo if e[0] in pts or e[1] in pts]
            more = bool(m)
            for e in m:
                comp.append(e)
                pts.update(e)
                todo.remove(e)
        c = base.chain(comp)
        if c is None:
            return None
        res.append(c)
    es = [e for c in res for e in exact.edges(c)]
    for i, (a, b) in enumerate(es):
        for c, d in es[:i]:
            if not {a, b} & {c, d} and exact.seg_dist(a, b, c, d) < 1e-5:
                return None
    return res


def judge(o, x, d, drawn, rec):
    """what was drawn is what there is"""
    lines, dots, rooms, shown = set(), [], [], 0
    for c in drawn:
        if c[0] == 'line':
            ps = list(zip(c[1], c[2]))
            need(len(c[1]) == len(c[2]) and ps, 'drawn', 'a line is drawn through %r, %r', c[1], c[2])
            if len(ps) == 1:
                dots.append(base.rnd(ps[0]))
            for a, b in zip(ps, ps[1:]):
                lines.add(ul(a, b))
        elif c[0] == 'patches':
            rooms.append(c[1])
        elif c[0] == 'show':
            shown += 1
    if d[0] == 'plot':
        k = d[1]
        objs = [o] + ([x] if k['also'] else [])
        want = set().union(*[und(q.segments) for q in objs]) if k['segments'] else und(x.segments) if k['also'] else set()
        need(lines == want, 'drawn', 'drawn are the lines %r, there are %r', sorted(lines), sorted(want))
        pts = [q for q in ([o] if k['points'] else []) + ([x] if k['also'] else [])]
        need(set(dots) == {base.rnd(p.xy) for q in pts for p in q.point_set}, 'drawn', 'drawn are the points %r', sorted(set(dots)))
        need(shown == (1 if k['show'] else 0), 'shown', 'shown %d times', shown)
        need(('title', k['title']) in drawn or k['title'] is None, 'drawn', 'the title is missing')
    elif d[0] in ('group', 'parts'):
        want = set().union(*[und(q.segments) for q in o.polygons])
        need(lines == want, 'drawn', 'drawn are the lines %r, there are %r', sorted(lines - want), sorted(want - lines))
        need(shown == 1, 'shown', 'shown %d times', shown)
    elif d[0] == 'triangulation':
        want = und(o.segments)
        for t in o.triangles:
            want |= und(t.segments)
        need(want and lines == want, 'drawn', 'drawn are the lines %r, there are %r', sorted(lines), sorted(want))
        need(shown == (1 if d[1] else 0), 'shown', 'shown %d times', shown)
    elif d[0] == 'graphical':
        ap = o.raume[0].as_polygon
        rs = rings([ul(s.i.xy, s.j.xy) for s in ap.segments])
        need(shown == 1, 'shown', 'shown %d times', shown)
        need(lines == und(ap.segments), 'drawn', 'drawn are the lines %r, there are %r', sorted(lines), ap)
    else:
        need(len(rooms) == len(o.raume), 'rooms', '%d rooms are drawn, there are %d', len(rooms), len(o.raume))
        need(shown == 1, 'shown', 'shown %d times', shown)
        for r, ts in zip(o.raume, rooms):
            segs = [ul(s.i.xy, s.j.xy) for s in r.as_polygon.segments]
            need(not d[1] or set(segs) <= lines, 'drawn', 'not all walls of %s are drawn', r.name)
            rs = rings(segs)
            if rs is None:
                rec.probe('rooms_not_judged')
                continue
            rec.probe('rooms_judged')
            size = exact.size(rs)
            tol = 1e-6 * size + 3e-8
            corners = [p for q in rs for p in q]
            for t in ts:
                c = tuple(sum(v) / len(t) for v in zip(*t))
                need(len(t) == 3 and exact.inside(rs, c), 'rooms', 'the triangle %r is drawn in the colour of %s but lies outside of it', t, r.name)
                need(all(any(abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol for q in corners) for p in t), 'rooms',
                     'a corner of the triangle %r is none of %s', t, r.name)
            es = sorted((exact.area(q) for q in rs), reverse=True)
            true = es[0] - sum(es[1:]) if len(rs) == 1 or all(exact.inside([max(rs, key=exact.area)], q[0]) for q in
                                                             sorted(rs, key=exact.area)[:-1]) else sum(es)
            got = sum(exact.area(t) for t in ts)
            need(base.close(got, true, 1e-5, 1e-6), 'rooms', '%.9g of the area is drawn in the colour of %s, its walls enclose %.9g', got, r.name, true)


def run(plan, rec):
    s = plan['subject']
    fresh = subjects.fresh_answers(s, plan['queries'], plan['env'], plan['seed0']) if plan['queries'] else {}
    cost = []
    for d in plan['draws']:
        with base.World(plan['env'], 10 ** 9) as w:
            o, x = make(s)
            n0, d0, b0 = w.n, w.dev_calls, w.back_calls
            perform(o, x, d)
            cost.append((w.n - n0, w.dev_calls - d0, w.back_calls - b0))
    struck = 0
    with base.use(rec, plan['env'], 2000000000) as w:
        o, x = make(s)
        before, xbefore = subjects.state(o) if s['kind'] != 'group' else None, x and subjects.state(x)

        def unchanged(when):
            if before is not None:
                need(subjects.state(o) == before, 'changed', '%s has changed the object', when)
            need(not x or subjects.state(x) == xbefore, 'changed', '%s has changed the other object', when)

        def draws():
            nonlocal struck
            for d, cuts, (steps, calls, backs) in zip(plan['draws'], plan['cuts'], cost):
                for frac, kind in cuts:
                    if plan['par'] and kind in ('interrupt', 'memory', 'backend'):
                        kind = 'device'         # the others would strike anybody
                    if kind in ('device', 'memory_device'):
                        w.dev_fail = {w.dev_calls + 1 + int(frac * calls): kind.split('_')[0]}
                    elif kind == 'backend':
                        if not backs:
                            continue
                        w.back_fail = {w.back_calls + 1 + int(frac * backs): kind}
                    else:
                        w.arm_fault(1 + int(frac * steps), kind)
                    try:
                        perform(o, x, d)
                    except INJECTED as e:
                        struck += 1
                        w.log('cut', d, type(e).__name__)
                    w.disarm()
                    w.dev_fail, w.back_fail = {}, {}
                    unchanged('drawing that was cut short')
                n = len(w.drawn)
                perform(o, x, d)
                w.log('drawn', len(w.drawn) - n, sum(1 for c in w.drawn[n:] if c[0] == 'line'))
                judge(o, x, d, w.drawn[n:], rec)
                unchanged('drawing')

        def asks():
            for q in plan['queries']:
                a = queries.ask(o, x, q)
                w.log(q, a)
                want = fresh[json.dumps(q)][0]
                need(queries.same(a, want), 'answer', '%s of what is drawn is answered %s; of what is not: %s', q, queries.brief(a), queries.brief(want))
        if plan['par']:
            p = plan['par']
            sc = Scheduler(w, p['sched'], p['gap'], p['switches'])
            sc.add('draw', draws)
            sc.add('ask', asks)
            sc.run()
            for t in sc.tasks:
                if t['error'] is not None:
                    raise t['error']
            rec.nontrivial = len(sc.trace) > 10
            rec.probe('switches', len(sc.trace))
        else:
            draws()
        asks()
    rec.nontrivial = rec.nontrivial or struck > 0
    rec.probe('kind_' + s['kind'])
    rec.probe('struck', struck)


def shrink(plan):
    for i in range(len(plan['draws'])):
        if len(plan['draws']) > 1:
            yield dict(plan, draws=plan['draws'][:i] + plan['draws'][i + 1:], cuts=plan['cuts'][:i] + plan['cuts'][i + 1:])
    cs = plan['cuts']
    for i in range(len(cs)):
        for k in range(len(cs[i])):
            yield dict(plan, cuts=cs[:i] + [cs[i][:k] + cs[i][k + 1:]] + cs[i + 1:])
    qs = plan['queries']
    for i in range(len(qs)):
        if len(qs) > 1 or not plan['par']:
            yield dict(plan, queries=qs[:i] + qs[i + 1:])
    if plan['par']:
        yield dict(plan, par=None)
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
