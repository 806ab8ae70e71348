"""Cutting shells at heights changes their division, nothing else."""
from .. import base, exact, vessels
from ..base import need
from .c02 import pick, check_outlines

TITLE = 'Cutting shells leaves geometry, wall types and the analysis of the vessel intact'
RUNS = {'quick': 300, 'thorough': 12000}
RULE = ('A run is one random vessel whose shells, skirts and other parts are cut up to five times at random heights: inside, at ends, at '
        'earlier cuts, outside; before (and partly after) the vessel is made. Nontrivial: at least one cut took place and one did '
        'not; distinct by the event log.')
ASSUMPTIONS = ['cuts keep 2 % of the height of a shell away from its ends and from each other unless they coincide',
               'the shells of cone knuckles and of vessels with a ring-formed raumende are not cut']
FAMS = [('simple', 10), ('rooms', 8), ('skirt', 8), ('double', 5), ('reend', 4), ('skirt2', 3), ('twins', 4)]


def gen(r, tier):
    spec = vessels.gen(r, pick(r, FAMS))
    cuts = []
    shells = [i for i, (c, kw) in enumerate(spec['parts']) if c in ('Mantel', 'StandZarge')]
    used = {}
    for _ in range(r.choice([1, 2, 2, 3])):
        i = r.choice(shells) if r.random() < 0.85 else r.randrange(len(spec['parts']))
        c, kw = spec['parts'][i]
        lo, h = kw['pos_v'], kw.get('h', kw.get('d') if not isinstance(kw.get('d'), list) else 1)
        t = r.random()
        if t < 0.6 or not used.get(i):
            v = round(lo + h * r.uniform(0.03, 0.97), 4)
            if any(abs(v - x) < 0.02 * h for x in used.get(i, [])) or not (lo + 0.02 * h < v < lo + 0.98 * h):
                continue
            if i in shells:
                used.setdefault(i, []).append(v)
        elif t < 0.8:
            v = r.choice(used[i])
        else:
            v = r.choice([lo, lo + h, lo - h, lo + 1.5 * h])
        cuts.append([i, v])
    return {'env': base.env(r, adv=False), 'spec': spec, 'cuts': cuts, 'ask': r.random() < 0.25}


def coverage(segs):
    """undirected segments as lines: [(corner points along each maximal straight line)]"""
    return sorted(tuple(sorted((base.rnd(s.i.xy), base.rnd(s.j.xy)))) for s in segs)


def merged(ring):
    """the ring without corners that lie on straight edges"""
    d = exact.size([ring])
    n = len(ring)
    return [ring[i] for i in range(n) if exact.dist_seg(ring[i], ring[i - 1], ring[(i + 1) % n]) > 1e-6 * d]


def snapshot(p):
    return [(type(s).__name__, s.i.xy, s.j.xy) for s in p.segments]


def same_ring(a, b, tol):
    return len(a) == len(b) and all(min(abs(x - u) + abs(y - v) for u, v in b) < tol for x, y in a)


def run(plan, rec):
    spec = plan['spec']
    done = refused = 0
    with base.use(rec, plan['env'], 600000000) as w:
        parts = vessels.build_parts(spec)
        first = [snapshot(p) for p in parts]
        state = {}
        for i, v in plan['cuts']:
            p = parts[i]
            cls, kw = spec['parts'][i]
            before, walls = snapshot(p), len(p.graph.segments)
            got = p.split(v=v)
            w.log('cut', p.name, v, got)
            shell = cls in ('Mantel', 'StandZarge')
            want = shell and kw['pos_v'] + 1e-4 * kw['h'] < v < kw['pos_v'] + (1 - 1e-4) * kw['h'] and v not in state.get(i, [])
            need(bool(got) == want, 'answer', 'to cut %s at %r answers %r; the heights of %s are %r', p.name, v, got, p.name,
                 [kw['pos_v'], kw.get('h'), state.get(i)])
            others(parts, first, state, i, spec)
            if not want:
                refused += 1
                need(snapshot(p) == before, 'changed', 'to cut %s at %r, which is no cut, changes it', p.name, v)
                continue
            done += 1
            state.setdefault(i, []).append(v)
            check_part(p, kw, state[i], cls)
        b = vessels.build(spec, parts)
        x = b.raum_intex()
        w.log('intex', sorted((k, sorted((a, sorted(s)) for a, s in q.items())) for k, q in x.items()))
        bad = vessels.compare(spec, x, [q.name for q in b.raume])
        need(bad is None, 'sides', 'with cuts %r: %s', plan['cuts'], bad)
        check_outlines(spec, b)
        for i, vs in state.items():
            check_part(parts[i], spec['parts'][i][1], vs, spec['parts'][i][0])
    rec.nontrivial = done > 0
    rec.probe('cuts', done)
    rec.probe('refused', refused)


def others(parts, first, state, i, spec):
    for j, p in enumerate(parts):
        if j != i and j not in state and 'KegelKrempe' not in [c for c, _ in spec['parts']]:
            need(snapshot(p) == first[j], 'changed', 'to cut %s changes %s', parts[i].name, p.name)


def check_part(p, kw, vs, cls):
    x, y, h = kw['pos_h'], kw['pos_v'], kw['h']
    a, b = kw['d'][0] / 2., kw['d'][1] / 2.
    d = max(a, b, h)
    outline = [(x + a, y), (x + b, y + h), (x - b, y + h), (x - a, y)]
    ring = base.chain([(s.i.xy, s.j.xy) for s in p.segments])
    need(ring is not None, 'outline', 'cut at %r, %s is no closed ring any more: %r', vs, p.name, p)
    need(same_ring(merged(ring), outline, 1e-6 * d + 1e-7), 'outline', 'cut at %r, %s has the outline %r', vs, p.name, merged(ring))
    walls = 2 * (len(vs) + 1)
    for s in p.segments:
        level = abs(s.i.y - s.j.y) < 1e-6 * d
        wall = not level or (cls == 'StandZarge' and abs(s.i.y - y) < 1e-6 * d)
        need(type(s).__name__ == ('Wall' if wall else 'NonWall'), 'type', 'cut at %r, %s of %s is a %s', vs, s, p.name, type(s).__name__)
    up = [s for s in p.wall_segments if abs(s.i.y - s.j.y) > 1e-6 * d]
    need(len(up) == walls, 'walls', 'cut at %r, %s has %d walls, should have %d', vs, p.name, len(up), walls)
    for lo, hi in zip([y] + sorted(vs), sorted(vs) + [y + h]):
        n = [s for s in up if abs(min(s.i.y, s.j.y) - lo) < 1e-6 * d + 1e-7 and abs(max(s.i.y, s.j.y) - hi) < 1e-6 * d + 1e-7]
        need(len(n) == 2, 'walls', 'cut at %r, %s has %d walls from %r to %r', vs, p.name, len(n), lo, hi)
    need(coverage(p.graph.segments) == coverage(p.wall_segments), 'graph', 'cut at %r, the graph of %s is not that of its walls', vs, p.name)
    for s in up:
        for ms, t in ((p.graph.internal, True), (p.graph.external, False)):
            own = [m for m in ms if m.segment == s]
            need(own and all(exact.inside([outline], (m.x, m.y)) == t for m in own), 'markers', 'cut at %r, the markers of %s of %s are at %r',
                 vs, s, p.name, [(m.x, m.y) for m in own])


def shrink(plan):
    for i in range(len(plan['cuts'])):
        yield dict(plan, cuts=plan['cuts'][:i] + plan['cuts'][i + 1:])
    o = list(range(len(plan['spec']['parts'])))
    if plan['spec']['order'] != o:
        yield dict(plan, spec=dict(plan['spec'], order=o))
    for e in base.shrink_env(plan['env']):
        yield dict(plan, env=e)
