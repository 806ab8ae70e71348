"""Several may ask the same object at the same time."""
import json
from .. import base, queries, subjects
from ..base import need
from ..world import Scheduler, Violation
from .c05 import lazy

TITLE = 'Tasks that ask the same object at the same time get the answers they get alone'
RUNS = {'quick': 700, 'thorough': 40000}
RULE = ('A run is one polygon, triangle or vessel and 2 to 4 tasks that ask it 1 to 4 questions each, switched at random statements. '
        'Every answer has to be the one an untouched object gives. Nontrivial: at least ten switches took place between tasks; '
        'distinct by the event log (it has the schedule).')
ASSUMPTIONS = ['tasks are switched between statements of the code under test, not inside of library calls',
               'points asked about keep 0.4 % of the size of the polygon away from its boundary', 'nobody edits the object meanwhile']


def gen(r, tier):
    s = subjects.gen(r, 0.15)
    tasks = [[subjects.query(r, s) if r.random() < 0.5 else lazy(r, s) for _ in range(r.choice([1, 2, 4]))] for _ in range(r.choice([2, 2, 3, 4]))]
    return {'env': base.env(r, adv=False), 'seed0': r.randrange(1 << 30), 'subject': s, 'tasks': tasks, 'sched': r.randrange(1 << 30),
            'gap': r.choice([2, 10, 60, 400, 3000]), 'switches': r.choice([20, 200, 3000])}


def run(plan, rec):
    fresh = subjects.fresh_answers(plan['subject'], [q for t in plan['tasks'] for q in t], plan['env'], plan['seed0'])
    with base.use(rec, plan['env'], 2000000000) as w:
        o, x = subjects.make(plan['subject'])
        before, xbefore = subjects.state(o), x and subjects.state(x)
        s = Scheduler(w, plan['sched'], plan['gap'], plan['switches'])
        for i, t in enumerate(plan['tasks']):
            s.add('t%d' % i, lambda t=t, i=i: ask(o, x, t, w, fresh, i))
        s.run()
        for t in s.tasks:
            if t['error'] is not None:
                raise t['error']
        need(subjects.state(o) == before, 'changed', 'being asked by several has changed the object')
        need(not x or subjects.state(x) == xbefore, 'changed', 'being asked by several has changed the other object')
        for t in plan['tasks']:                # and afterwards
            a = queries.ask(o, x, t[0])
            need(queries.same(a, fresh[json.dumps(t[0])][0]), 'after', 'afterwards, %s is answered %s; an untouched object answers %s', t[0],
                 queries.brief(a), queries.brief(fresh[json.dumps(t[0])][0]))
        rec.nontrivial = len([1 for a, b in zip(s.trace, s.trace[1:]) if a[0] != b[0]]) >= 10
        rec.probe('switches', len(s.trace))
        rec.probe('kind_' + plan['subject']['kind'])


def ask(o, x, qs, w, fresh, i):
    for k, q in enumerate(qs):
        a = queries.ask(o, x, q)
        w.log(i, q, a)
        want = fresh[json.dumps(q)][0]
        need(queries.same(a, want), 'race', 'task %d, question %d (%s): the answer is %s; an untouched object answers %s', i, k, q,
             queries.brief(a), queries.brief(want))


def shrink(plan):
    ts = plan['tasks']
    for i in range(len(ts)):
        if len(ts) > 1:
            yield dict(plan, tasks=ts[:i] + ts[i + 1:])
    for i, t in enumerate(ts):
        for j in range(len(t)):
            if len(t) > 1:
                yield dict(plan, tasks=ts[:i] + [t[:j] + t[j + 1:]] + ts[i + 1:])
    for n in (0, 1, 2, 5, 20, 100):
        if n < plan['switches']:
            yield dict(plan, switches=n)
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
