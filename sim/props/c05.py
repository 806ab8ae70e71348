"""A question that is cut short leaves no trace: asked again it is answered as if nothing had happened."""
import json
from .. import base, queries, subjects
from ..base import need
from ..world import INJECTED

TITLE = 'A question cut short at any point leaves nothing behind'
RUNS = {'quick': 1800, 'thorough': 60000}
RULE = ('A run is one polygon, triangle or vessel and 1 to 6 questions; each may be cut short up to three times, by an interrupt '
        'or by lack of memory, at a random statement of its execution, and is then asked again; answers are compared with those '
        'of an untouched object. Nontrivial: at least one question was cut short; distinct by the event log (it has the '
        'statement at which each fault struck).')
ASSUMPTIONS = ['faults strike between statements of the code under test, not inside of library calls',
               'points asked about keep 0.4 % of the size of the polygon away from its boundary']


def gen(r, tier):
    s = subjects.gen(r, 0.15)
    qs, cuts = [], []
    for _ in range(r.choice([1, 2, 4, 6])):
        qs.append(subjects.query(r, s) if r.random() < 0.6 else lazy(r, s))
        cuts.append([] if r.random() < 0.2 else
                    [[r.choice([r.random(), r.random(), 1 - r.random() ** 3 * 0.2]), r.choice(['interrupt', 'memory'])] + ([r.random()] if r.random() < 0.5 else [])
                     for _ in range(r.choice([1, 1, 2, 3]))])
    return {'env': base.env(r, adv=False), 'seed0': r.randrange(1 << 30), 'subject': s, 'queries': qs, 'cuts': cuts}


def lazy(r, s):
    """questions whose answer is kept"""
    if s['kind'] == 'vessel':
        return [r.choice(['raum_intex', 'in_cycles', 'cycles', 'valid', 'numbered']), None]
    if 'open' in s:
        return subjects.query(r, s)
    if s['kind'] == 'triangle':
        return [r.choice(['tri_overlap', 'tri_angles', 'is_triangle', 'other_disjunct']), None]
    return [r.choice(['area', 'area', 'triangles', 'triangles', 'retriangulate', 'detailled_area', 'is_triangle', 'other_disjunct',
                      'walk', 'nocoll', 'ordered_copy']), None]


def run(plan, rec):
    s = plan['subject']
    fresh = subjects.fresh_answers(s, plan['queries'], plan['env'], plan['seed0'], sites=s['kind'] != 'vessel')
    struck = 0
    with base.use(rec, plan['env'], 2000000000) as w:
        o, x = subjects.make(s)
        before, xbefore = subjects.state(o), x and subjects.state(x)
        for i, (q, cuts) in enumerate(zip(plan['queries'], plan['cuts'])):
            want, steps, _, _, sites = fresh[json.dumps(q)]
            for frac, kind, *site in cuts:
                if site and sites:         # at a certain statement, rare ones being as likely as others
                    k, n = sites[min(int(frac * len(sites)), len(sites) - 1)]
                    w.arm_site(k, 1 + int(site[0] ** 2 * n), kind)
                else:
                    w.arm_fault(1 + int(frac * steps), kind)
                try:
                    a = queries.ask(o, x, q)
                except INJECTED as e:
                    a = None
                    struck += 1
                    w.log('cut', q, type(e).__name__)
                    rec.probe('cut_' + q[0])
                w.disarm()
                if a is not None:          # it was done before the fault struck, or it coped with it
                    w.log('uncut', q, a)
                    need(queries.same(a, want), 'cut-answer', 'question %d (%s), on which a fault was to strike, is answered %s; '
                         'an untouched object answers %s', i, q, queries.brief(a), queries.brief(want))
                need(subjects.state(o) == before, 'cut-changed', 'question %d (%s), cut short, has changed the object', i, q)
            a = queries.ask(o, x, q)
            w.log(q, a)
            need(queries.same(a, want), 'trace', 'question %d (%s), after it or an earlier one was cut short, is answered %s; an '
                 'untouched object answers %s', i, q, queries.brief(a), queries.brief(want))
        need(subjects.state(o) == before, 'cut-changed', 'questions cut short have changed the object')
        need(not x or subjects.state(x) == xbefore, 'cut-changed', 'questions cut short have changed the other object')
    rec.nontrivial = struck > 0
    rec.probe('kind_' + s['kind'])


def shrink(plan):
    qs, cs = plan['queries'], plan['cuts']
    for i in range(len(qs)):
        if len(qs) > 1:
            yield dict(plan, queries=qs[:i] + qs[i + 1:], cuts=cs[:i] + cs[i + 1:])
    for i in range(len(cs)):
        for k in range(len(cs[i])):
            yield dict(plan, cuts=cs[:i] + [cs[i][:k] + cs[i][k + 1:]] + cs[i + 1:])
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
