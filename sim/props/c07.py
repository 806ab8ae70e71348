"""Objects that have nothing to do with each other do not influence each other, however their use is interleaved."""
import json
from .. import base, exact, queries, subjects, vessels
from ..base import need
from ..world import Scheduler, Violation
from . import c10

TITLE = 'Independent objects do not influence each other however their use is interleaved'
RUNS = {'quick': 1200, 'thorough': 50000}
RULE = ('A run is 2 to 4 tasks that are switched at random statements: each makes its own polygon or vessel and asks it, or makes a '
        'polygon and edits and asks it by turns. Every task has to see what it would see alone. Nontrivial: at least ten switches '
        'took place between tasks; distinct by the event log (it has the schedule).')
ASSUMPTIONS = ['tasks are switched between statements of the code under test, not inside of library calls',
               'points asked about keep 0.4 % of the size of the polygon away from its boundary']


def gen(r, tier):
    tasks = []
    n = r.choice([2, 2, 3, 4])
    for i in range(n):
        t = r.random()
        if t < 0.45:
            p = c10.gen(r, tier)
            p['ops'] = [op[:4] if op[0] == 'ask' else op for op in p['ops']]
            p.pop('env')
            tasks.append(['edit', p])
        elif t < 0.9 or n > 3:
            s = subjects.gen(r, 0)
            tasks.append(['ask', {'subject': s, 'queries': [subjects.query(r, s) for _ in range(r.choice([1, 3, 5]))]}])
        else:
            tasks.append(['vessel', vessels.gen(r, r.choice(['simple', 'rooms', 'skirt', 'twins', 'reend']))])
    if r.random() < 0.25:                 # the same things twice
        tasks[-1] = tasks[0]
    return {'env': base.env(r, adv=False), 'seed0': r.randrange(1 << 30), 'tasks': tasks, 'sched': r.randrange(1 << 30),
            'gap': r.choice([3, 15, 60, 400, 3000]), 'switches': r.choice([20, 200, 5000])}


def run(plan, rec):
    fresh = []
    for kind, t in plan['tasks']:
        fresh.append(subjects.fresh_answers(t['subject'], t['queries'], plan['env'], plan['seed0']) if kind == 'ask' else None)
    with base.use(rec, plan['env'], 2000000000) as w:
        s = Scheduler(w, plan['sched'], plan['gap'], plan['switches'])
        for i, (kind, t) in enumerate(plan['tasks']):
            s.add('t%d' % i, {'edit': lambda t=t: edit(t, w, rec), 'vessel': lambda t=t: vessel(t, w),
                              'ask': lambda t=t, i=i: ask(t, w, fresh[i])}[kind])
        s.run()
        for i, t in enumerate(s.tasks):
            if t['error'] is not None:
                e = t['error']
                if isinstance(e, Violation):
                    raise Violation(e.kind, 'task %d (%s) of %d: %s' % (i, plan['tasks'][i][0], len(s.tasks), e.detail))
                raise e
        rec.nontrivial = len([1 for a, b in zip(s.trace, s.trace[1:]) if a[0] != b[0]]) >= 10
        rec.probe('switches', len(s.trace))
        rec.probe('tasks', len(s.tasks))


def edit(t, w, rec):
    c10.play(t, w, rec)


def ask(t, w, fresh):
    o, x = subjects.make(t['subject'])
    before = subjects.state(o)
    for i, q in enumerate(t['queries']):
        a = queries.ask(o, x, q)
        w.log(q, a)
        want = fresh[json.dumps(q)][0]
        need(queries.same(a, want), 'influence', 'question %d (%s) is answered %s; alone, it is answered %s', i, q, queries.brief(a),
             queries.brief(want))
    need(subjects.state(o) == before, 'influence', 'the object has changed')


def vessel(spec, w):
    b = vessels.build(spec)
    x = b.raum_intex()
    w.log('intex', sorted((k, sorted((a, sorted(s)) for a, s in v.items())) for k, v in x.items()))
    bad = vessels.compare(spec, x, [q.name for q in b.raume])
    need(bad is None, 'influence', '%s', bad)


def shrink(plan):
    ts = plan['tasks']
    for i in range(len(ts)):
        if len(ts) > 1:
            yield dict(plan, tasks=ts[:i] + ts[i + 1:])
    for i, (k, t) in enumerate(ts):
        key = {'edit': 'ops', 'ask': 'queries'}.get(k)
        for j in range(len(t[key]) if key else 0):
            if len(t[key]) > 1:
                yield dict(plan, tasks=ts[:i] + [[k, dict(t, **{key: t[key][:j] + t[key][j + 1:]})]] + ts[i + 1:])
    for n in (0, 1, 2, 5, 20, 100):
        if n < plan['switches']:
            yield dict(plan, switches=n)
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
