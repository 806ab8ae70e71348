"""Parts may be used for any number of vessels, one after the other, at the same time, and after the making was cut short."""
import contextlib
from .. import base, subjects, vessels
from ..base import need
from ..world import INJECTED, Scheduler, Violation
from .c02 import pick, check_outlines

TITLE = 'Making a vessel from parts can be cut short, repeated and done at the same time'
RUNS = {'quick': 1100, 'thorough': 15000}
RULE = ('A run is the parts of one random vessel from which vessels are made (listed in random orders) and asked: several in turn, the '
        'making and asking cut short up to four times by an interrupt, lack of memory or a failure of the triangulation library, or by '
        'two or three tasks switched at random statements. Every vessel, the earlier ones included, has to report what is right by '
        'construction. Nontrivial: a fault struck, or tasks were switched, or two vessels were judged; distinct by the event log.')
ASSUMPTIONS = ['vessels that a raumende cuts are not made by several tasks at once, and the cutting of one part is not cut short in the '
               'middle (only before and after it): to cut is an edit',
               'parts are not edited between vessels, except by being cut at heights']
PLAIN = [('simple', 12), ('rooms', 10), ('skirt', 6), ('double', 3), ('reend', 4), ('twins', 4), ('krempe', 4), ('coneskirt', 2),
         ('doubleskirt', 2), ('pair', 2)]
CUT = [('jacket', 4), ('resep', 6)]
CUTS = [('jacket', 7), ('resep', 4)]


def gen(r, tier):
    mode = r.choice(['cut', 'cut', 'turn', 'tasks'])
    spec = vessels.gen(r, pick(r, PLAIN + {'turn': CUT, 'cut': CUTS}.get(mode, [])))
    orders = []
    for _ in range(r.choice([2, 2, 3]) if mode != 'cut' else 1):
        o = list(spec['order'])
        r.shuffle(o)
        orders.append(o)
    p = {'env': base.env(r, adv=False), 'spec': spec, 'mode': mode, 'orders': orders}
    if mode == 'cut':
        p['cuts'] = [[r.choice([r.random(), r.random(), r.random() ** 4]), r.choice(['interrupt', 'interrupt', 'memory', 'backend'])]
                     for _ in range(r.choice([1, 2, 4]))]
        if spec['family'] in ('jacket', 'resep'):       # around the cutting of a part
            p['cuts'] = [[r.randrange(2 * len(spec['parts'])), r.choice(['split-interrupt', 'split-memory'])] if r.random() < 0.6 else c
                         for c in p['cuts']]
    elif mode == 'tasks':
        p.update(sched=r.randrange(1 << 30), gap=r.choice([10, 100, 1000, 10000]), switches=r.choice([20, 200, 3000]))
    else:
        shells = [i for i, (c, kw) in enumerate(spec['parts']) if c in ('Mantel', 'StandZarge')]
        if r.random() < 0.4 and spec['family'] in ('simple', 'rooms', 'twins', 'skirt', 'double'):
            p['split'] = [r.choice(shells), round(r.uniform(0.1, 0.9), 3)]
        p['asks'] = [[r.randrange(len(orders)) for _ in range(r.choice([1, 2, 3]))] for _ in orders]
    return p


def make(spec, parts, order):
    return vessels.build(dict(spec, order=order), parts)


def judge(spec, b, when, w):
    x = b.raum_intex()
    w.log('intex', sorted((k, sorted((a, sorted(s)) for a, s in q.items())) for k, q in x.items()))
    bad = vessels.compare(spec, x, [q.name for q in b.raume])
    need(bad is None, 'vessel', '%s: %s', when, bad)
    check_outlines(spec, b)


def state(parts):
    class All:
        polygons = parts
    return subjects.state(All)


@contextlib.contextmanager
def whole(w):
    """the cutting of a part is not cut short"""
    import SR_Vessel.SR_hauptteile as H
    real = H.Hauptteil.split
    w.splits = None

    def split(*a, **k):
        n = w.splits
        if n is not None:
            w.splits = None if n[0] < 2 else (n[0] - 2, n[1])
            if n[0] == 0:
                w.arm_fault(1, n[1])
                w.event_now()
        w.hold += 1
        try:
            return real(*a, **k)
        finally:
            w.hold -= 1
            if n is not None and n[0] == 1:
                w.arm_fault(1, n[1])
    H.Hauptteil.split = split
    try:
        yield
    finally:
        H.Hauptteil.split = real


def run(plan, rec):
    spec, mode = plan['spec'], plan['mode']
    if mode == 'cut':
        with base.World(plan['env'], 10 ** 9) as w:
            ps = vessels.build_parts(spec)
            n0, b0 = w.n, w.back_calls
            b = make(spec, ps, plan['orders'][0])
            b.raum_intex()
            steps, backs = w.n - n0, w.back_calls - b0
    with base.use(rec, plan['env'], 4000000000) as w, whole(w):
        parts = vessels.build_parts(spec)
        before = state(parts)
        cutting = any(c == 'RaumEnde' for c, _ in spec['parts'])

        def same(when):
            if not cutting and not plan.get('split'):
                need(state(parts) == before, 'parts', '%s has changed the parts', when)
        if mode == 'cut':
            for frac, kind in plan['cuts']:
                if kind == 'backend':
                    w.back_fail = {w.back_calls + 1 + int(frac * backs): kind}
                elif kind.startswith('split-'):
                    w.splits = (frac, kind[6:])
                else:
                    w.arm_fault(1 + int(frac * steps), kind)
                b = None
                try:
                    b = make(spec, parts, plan['orders'][0])
                    judge(spec, b, 'made in spite of a fault', w)
                except INJECTED as e:
                    w.log('cut', type(e).__name__)
                    rec.probe('cut_asking' if b else 'cut_making')
                    rec.nontrivial = True
                w.disarm()
                w.splits = None
                w.back_fail = {}
                same('making a vessel that was cut short')
                if b is not None:
                    judge(spec, b, 'asked again after the asking was cut short', w)
            b = make(spec, parts, plan['orders'][0])
            judge(spec, b, 'made again after it was cut short', w)
        elif mode == 'turn':
            made = []
            for k, o in enumerate(plan['orders']):
                made.append(make(spec, parts, o))
                for i in plan['asks'][k]:
                    if i < len(made):
                        judge(spec, made[i], 'the vessel number %d of %d made from the same parts' % (i, len(made)), w)
                if k == 0 and plan.get('split'):
                    i, u = plan['split']
                    kw = spec['parts'][i][1]
                    need(parts[i].split(v=kw['pos_v'] + u * kw['h']) is True, 'split', '%s of the vessel cannot be cut', kw['name'])
                    made = []           # the first one is of uncut parts
            rec.nontrivial = True
        else:
            s = Scheduler(w, plan['sched'], plan['gap'], plan['switches'])
            for i, o in enumerate(plan['orders']):
                s.add('t%d' % i, lambda o=o, i=i: judge(spec, make(spec, parts, o), 'made by task %d from the parts others use, too' % i, w))
            s.run()
            for t in s.tasks:
                if t['error'] is not None:
                    raise t['error']
            rec.nontrivial = len(s.trace) > 10
            rec.probe('switches', len(s.trace))
        same('making vessels')
    rec.probe('mode_' + mode)


def shrink(plan):
    for k in ('cuts', 'orders'):
        for i in range(len(plan.get(k, []))):
            if len(plan[k]) > 1 or k == 'cuts':
                n = dict(plan, **{k: plan[k][:i] + plan[k][i + 1:]})
                if k == 'orders' and 'asks' in n:
                    n['asks'] = [[j for j in a if j < len(n['orders'])] for a in n['asks'][:len(n['orders'])]]
                yield n
    if plan.get('split'):
        yield dict(plan, split=None)
    for n in (0, 1, 2, 5, 20, 100):
        if n < plan.get('switches', 0):
            yield dict(plan, switches=n)
    o = list(range(len(plan['spec']['parts'])))
    if plan['orders'][0] != o:
        yield dict(plan, orders=[o] + plan['orders'][1:])
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
