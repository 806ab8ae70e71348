"""Questions only observe: whatever has been asked before, the answer is the one a fresh object gives."""
import json
from .. import base, queries, subjects
from ..base import need

TITLE = 'Questions only observe: answers do not depend on what was asked before'
RUNS = {'quick': 500, 'thorough': 60000}
RULE = ('A run is one polygon, triangle or vessel and a history of 3 to 14 questions to it, each answer compared with that of a '
        'fresh object that is asked only this, under other draws and orders. Nontrivial: at least three different questions; '
        'distinct by the event log.')
ASSUMPTIONS = ['points asked about keep 0.4 % of the size of the polygon away from its boundary',
               'an error counts as an answer: it has to be the same error']


def gen(r, tier):
    s = subjects.gen(r)
    n = r.choice([3, 5, 8, 14]) if s['kind'] != 'vessel' else r.choice([3, 5, 8])
    qs = [subjects.query(r, s) for _ in range(n)]
    for _ in range(r.choice([0, 1, 3])):
        qs.insert(r.randrange(len(qs) + 1), r.choice(qs))
    return {'env': base.env(r, adv=False), 'seed0': r.randrange(1 << 30), 'subject': s, 'queries': qs}


def run(plan, rec):
    s = plan['subject']
    fresh = subjects.fresh_answers(s, plan['queries'], plan['env'], plan['seed0'])
    with base.use(rec, plan['env'], 2000000000) as w:
        o, x = subjects.make(s)
        before, xbefore = subjects.state(o), x and subjects.state(x)
        for i, q in enumerate(plan['queries']):
            a = queries.ask(o, x, q)
            w.log(q, a)
            want = fresh[json.dumps(q)][0]
            need(queries.same(a, want), 'history', 'question %d (%s) is answered %s; a fresh object answers %s', i, q,
                 queries.brief(a), queries.brief(want))
            rec.probe('q_' + q[0])
            if a[0] != 'ok':
                rec.probe('q_answered_by_error')
        need(subjects.state(o) == before, 'changed', 'being asked has changed the object')
        need(not x or subjects.state(x) == xbefore, 'changed', 'being asked has changed the other object')
        if s['kind'] == 'vessel':
            apart(o, plan, w)
        rec.nontrivial = len({q[0] for q in plan['queries']}) >= 3
        rec.probe('kind_' + s['kind'])


def apart(b, plan, w):
    """the parts do not share points: to move one does not move another"""
    ps = b.polygons
    p = ps[plan['env']['seed'] % len(ps)]
    before = {q.name: [queries.seg(s) for s in q.segments] for q in ps if q is not p}
    p.move(x0=0.5, y0=0.25)
    for q in ps:
        if q is not p:
            need([queries.seg(s) for s in q.segments] == before[q.name], 'tied', 'to move %s changes %s', p.name, q.name)


def shrink(plan):
    qs = plan['queries']
    for i in range(len(qs)):
        if len(qs) > 1:
            yield dict(plan, queries=qs[:i] + qs[i + 1:])
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
