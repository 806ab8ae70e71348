"""Rooms of a vessel, and which side of every part they lie on, come out right whatever is left open."""
from .. import base, exact, vessels
from ..base import need

TITLE = 'Vessel analysis finds the true rooms and sides under every draw and order'
RUNS = {'quick': 900, 'thorough': 14000}
RULE = ('A run is one random vessel of a family (plain, divided, on a skirt, in a jacket, double walled, ended or divided by a '
        'raumende, side by side, with cone knuckle, several within another, most of them also on a skirt), its parts in a random '
        'order, with one seed for draws, set orders and orders of the triangulation backend. Nontrivial: more than two parts were classified; distinct by the event log.')
ASSUMPTIONS = ['vessels are generated together with their rooms; other shapes of vessels are not covered']
WEIGHTS = [('simple', 10), ('rooms', 18), ('skirt', 10), ('double', 10), ('reend', 6), ('jacket', 10), ('double2', 12),
           ('skirt2', 10), ('twins', 4), ('resep', 6), ('krempe', 4), ('knuckle', 1), ('jacket2', 2), ('doubleskirt', 10),
           ('pair', 7), ('pile', 7), ('lower', 4), ('four', 3), ('twinrooms', 4), ('coneskirt', 7), ('jacketskirt', 1)]


def pick(r, weights=WEIGHTS):
    t = r.random() * sum(w for _, w in weights)
    for f, w in weights:
        t -= w
        if t < 0:
            return f
    return weights[0][0]


def gen(r, tier):
    return {'env': base.env(r, adv=False), 'spec': vessels.gen(r, pick(r)), 'again': r.choice([0, 0, 0, 0, 1, 2])}


def check_outlines(spec, b):
    """the loops that were found are the outlines of the rooms"""
    m = spec['model']
    cyc = list(b.graph.cycles.values())
    need(len(cyc) == len(m['rooms']), 'rooms', '%d loops were found; by construction there are %d rooms', len(cyc), len(m['rooms']))
    got = sorted(ring_area(c) for c in cyc)
    if m['vague']:
        return
    want = sorted(exact.area(v['outline']) for v in m['rooms'].values())
    for g, v in zip(got, want):
        need(base.close(g, v, 1e-6), 'outline', 'loops enclose the areas %s; by construction %s', fmt(got), fmt(want))


def check_walls(spec, b, found):
    """the walls of a room are the parts that have it on some side, and those at its outline are outer walls"""
    m = spec['model']
    for q in b.raume:
        k = [k for k, n in found.items() if n == q.name][0]
        outer, inner = ({h.name for h in x} for x in (q.aussere_wandung, q.innere_wandung))
        need({h.name for h in q.ganze_wandung} == outer | inner, 'walls', 'the walls of a room are not its outer and inner ones')
        ends = {h.name for h in b.polygons if h.typ == 'raumende'}
        want = {p for p, s in m['sides'].items() if any(k in t for t in s)}
        need((outer | inner) - ends == want - ends, 'walls', 'the walls of room %s are %s; they should be %s', k, sorted(outer | inner), sorted(want))
        if not m['vague']:
            v = m['rooms'][k]
            out = {h.name for h in b.polygons if along(h, [v['outline']])}
            need(outer == out, 'walls', 'the outer walls of room %s are %s; they should be %s', k, sorted(outer), sorted(out))
            ins = {h.name for h in b.polygons if along(h, v['holes'])}
            need(inner == ins, 'walls', 'the inner walls of room %s are %s; they should be %s', k, sorted(inner), sorted(ins))


def along(h, rings):
    mids = [((s.i.x + s.j.x) / 2, (s.i.y + s.j.y) / 2) for s in h.graph.segments]
    return any(exact.dist_seg(p, a, c) < 1e-3 * exact.size([ring]) for ring in rings for p in mids for a, c in exact.edges(ring))


def fmt(a):
    return '[%s]' % ', '.join('%.6g' % x for x in a)


def ring_area(c):
    """area enclosed by a ring of segments (their direction is left open: loops share segments)"""
    ring = base.chain([(s.i.xy, s.j.xy) for s in c.segments])
    need(ring is not None, 'outline', 'the outline of a room is not one closed ring: %r', c)
    return exact.area(ring)


def run(plan, rec):
    spec = plan['spec']
    with base.use(rec, plan['env'], 300000000) as w:
        b = vessels.build(spec)
        x = b.raum_intex()
        names = [q.name for q in b.raume]
        w.log('intex', sorted((k, sorted((a, sorted(s)) for a, s in v.items())) for k, v in x.items()))
        found = {}
        bad = vessels.compare(spec, x, names, found)
        need(bad is None, 'sides', '%s', bad)
        check_outlines(spec, b)
        check_walls(spec, b, found)
        if plan['again']:
            first = {k: {a: set(s) for a, s in v.items()} for k, v in x.items()}
            for v in x.values():                # the report belongs to whom it was given
                for s in v.values():
                    s.clear()
            new = {q.name: 'room %d' % i if plan['again'] > 1 else q.name for i, q in enumerate(b.raume)}
            for q in b.raume:
                q.set_name(new[q.name])
            y = b.raum_intex()
            first = {k: {a: {new[n] for n in s} for a, s in v.items()} for k, v in first.items()}
            need(first == y, 'repeat', 'asked again, the vessel answers differently%s', ' (rooms have got other names)' if plan['again'] > 1 else '')
            check_walls(spec, b, {k: new[n] for k, n in found.items()})
        rec.nontrivial = len(x) > 2
        rec.probe('family_' + spec['family'])


def shrink(plan):
    for n in range(int(plan['again'])):
        yield dict(plan, again=n)
    o = list(range(len(plan['spec']['parts'])))
    if plan['spec']['order'] != o:
        yield dict(plan, spec=dict(plan['spec'], order=o))
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
