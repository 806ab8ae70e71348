"""A failing triangulation library or console makes a question fail, never lie."""
import json
from .. import base, queries, subjects, vessels
from ..base import need
from ..world import INJECTED
from .c02 import pick

TITLE = 'A failing triangulation library or console makes questions fail, never lie'
RUNS = {'quick': 1000, 'thorough': 60000}
RULE = ('A run is one polygon, triangle or vessel and 1 to 5 questions (or the making of the vessel), during which calls of the '
        'triangulation library fail (error or lack of memory) or console output fails; every question is then asked again with the '
        'faults gone. Nontrivial: at least one failure took place; distinct by the event log.')
ASSUMPTIONS = ['the library fails by raising, not by answering wrongly']
REAL = 'geometry/* and SR_Vessel/* as in the working tree, the triangle C library where it is not made to fail, copy.deepcopy'
LAZY = ['area', 'area', 'triangles', 'retriangulate', 'detailled_area', 'is_triangle', 'other_disjunct']


def gen(r, tier):
    s = subjects.gen(r, 0.25)
    s.pop('open', None)                  # the library cannot be asked about these
    qs, cuts = [], []
    for _ in range(r.choice([1, 2, 3, 5])):
        q = [r.choice(LAZY), None] if s['kind'] == 'polygon' and 'open' not in s and r.random() < 0.7 else subjects.query(r, s)
        if s['kind'] == 'vessel' and r.random() < 0.6:
            q = [r.choice(['raum_intex', 'valid', 'cycles', 'overlaps', 'in_cycles']), None]
        qs.append(q)
        cuts.append([] if r.random() < 0.15 else [[r.choice([r.random(), 0.0, 0.999]), r.choice(['backend', 'backend', 'memory', 'console'])]
                                                  for _ in range(r.choice([1, 1, 2, 3]))])
    p = {'env': base.env(r, adv=False), 'seed0': r.randrange(1 << 30), 'subject': s, 'queries': qs, 'cuts': cuts}
    if s['kind'] == 'vessel' and r.random() < 0.6:
        p.update(making=[[r.random(), r.choice(['backend', 'memory', 'console'])] for _ in range(r.choice([1, 2]))], queries=[], cuts=[])
    return p


def arm(w, frac, kind, calls, prints):
    w.back_fail, w.out_fail = {}, {}
    if kind == 'console':
        w.out_fail = {w.out_calls + 1 + int(frac * prints): 1}
    else:
        w.back_fail = {w.back_calls + 1 + int(frac * calls): kind}


def clear(w):
    w.back_fail, w.out_fail = {}, {}


def run(plan, rec):
    s = plan['subject']
    if plan.get('making'):
        return making(plan, rec)
    fresh = subjects.fresh_answers(s, plan['queries'], plan['env'], plan['seed0'])
    struck = 0
    with base.use(rec, plan['env'], 2000000000) as w:
        o, x = subjects.make(s)
        before = subjects.state(o)
        for i, (q, cuts) in enumerate(zip(plan['queries'], plan['cuts'])):
            want, _, calls, prints, _ = fresh[json.dumps(q)]
            for frac, kind in cuts:
                arm(w, frac, kind, calls, prints)
                try:
                    a = queries.ask(o, x, q)
                except INJECTED as e:
                    a = None
                    struck += 1
                    w.log('failed', q, type(e).__name__)
                    rec.probe('failed_' + q[0])
                clear(w)
                if a is not None:
                    need(queries.same(a, want), 'lie', 'question %d (%s) under a failing %s is answered %s instead of failing; right is %s', i, q,
                         kind, queries.brief(a), queries.brief(want))
                need(subjects.state(o) == before, 'changed', 'question %d (%s), which failed, has changed the object', i, q)
            a = queries.ask(o, x, q)
            w.log(q, a)
            need(queries.same(a, want), 'trace', 'question %d (%s) is answered %s after it or an earlier one failed (%s); an untouched object '
                 'answers %s', i, q, queries.brief(a), cuts, queries.brief(want))
    rec.nontrivial = struck > 0
    rec.probe('kind_' + s['kind'])


def making(plan, rec):
    spec = plan['subject']['spec']
    with base.World(plan['env'], 10 ** 9) as w:
        vessels.build(spec).raum_intex()
        calls, prints = w.back_calls, w.out_calls
    with base.use(rec, plan['env'], 2000000000) as w:
        parts = vessels.build_parts(spec)
        for frac, kind in plan['making']:
            arm(w, frac, kind, calls, prints)
            try:
                b = vessels.build(spec, parts)
                x = b.raum_intex()
            except INJECTED as e:
                w.log('failed', type(e).__name__)
                rec.nontrivial = True
                rec.probe('failed_making')
                continue
            finally:
                clear(w)
            bad = vessels.compare(spec, x, [q.name for q in b.raume])
            need(bad is None, 'lie', 'made and asked under a failing %s, the vessel answers wrongly instead of failing: %s', kind, bad)
        b = vessels.build(spec, parts)
        x = b.raum_intex()
        w.log('intex', sorted((k, sorted((a, sorted(s)) for a, s in v.items())) for k, v in x.items()))
        bad = vessels.compare(spec, x, [q.name for q in b.raume])
        need(bad is None, 'trace', 'made again after a failure of the library: %s', bad)


def shrink(plan):
    qs, cs = plan['queries'], plan['cuts']
    for i in range(len(qs)):
        if len(qs) > 1:
            yield dict(plan, queries=qs[:i] + qs[i + 1:], cuts=cs[:i] + cs[i + 1:])
    for i in range(len(cs)):
        for k in range(len(cs[i])):
            yield dict(plan, cuts=cs[:i] + [cs[i][:k] + cs[i][k + 1:]] + cs[i + 1:])
    m = plan.get('making') or []
    for i in range(len(m)):
        if len(m) > 1:
            yield dict(plan, making=m[:i] + m[i + 1:])
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
