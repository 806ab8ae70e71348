"""The objects that questions are asked of: polygons, triangles, vessels; made from a JSON plan."""
from . import base, exact, vessels
from .props.c02 import pick

FAST = [('simple', 12), ('rooms', 8), ('skirt', 6), ('double', 6), ('reend', 6), ('jacket', 3), ('twins', 4), ('krempe', 4), ('resep', 3), ('coneskirt', 2),
        ('doubleskirt', 2), ('pair', 2)]


def gen(r, vessel_p=0.25):
    t = r.random()
    if t < vessel_p:
        return {'kind': 'vessel', 'spec': vessels.gen(r, pick(r, FAST))}
    if t < vessel_p + 0.12:
        a = exact.ring(r, kinds=['star', 'grid'], n=3)
        return {'kind': 'triangle', 'ring': a, 'other': other(r, a, 3)}
    a = exact.ring(r, n=r.choice([3, 4, 4, 5, 6, 7, 8]))
    s = {'kind': 'polygon', 'ring': a, 'other': other(r, a, r.choice([3, 4, 5]))}
    if r.random() < 0.3:                 # corners in the middle of edges
        s['ring'] = mids(r, a)
    t = r.random()
    if t < 0.3:                          # the segments in any order and direction
        s['soup'] = [[i, r.randrange(2)] for i in r.sample(range(len(s['ring'])), len(s['ring']))]
    elif t < 0.5:                       # a line that is not closed
        s['open'] = r.randrange(len(s['ring']))
    return s


def mids(r, a):
    out = []
    for p, q in exact.edges(a):
        out.append(p)
        if r.random() < 0.4:
            out.append(((p[0] + q[0]) / 2, (p[1] + q[1]) / 2))
    return out


OPEN = ['isclosed', 'isopen', 'iscontinuous', 'isvalid', 'box', 'midpoint', 'point_set', 'all_points', 'crossing_lines', 'discontinuity',
        'copy', 'copy', 'copy', 'ordered_copy', 'ordered_copy', 'neighbour', 'find', 'cps', 'repr', 'hull', 'cross', 'outlier', 'ends',
        'other_equal', 'walk']            # what can be asked of a line that is not closed
SOUP = ['ordered_copy', 'nocoll', 'copy', 'walk', 'isclosed', 'iscontinuous', 'area', 'triangles', 'ends']


def other(r, a, n):
    """a polygon somewhere near a"""
    d = exact.size([a])
    if r.random() < 0.15:
        return list(a)
    b = exact.ring(r, kinds=['star', 'grid', 'convex'], n=n, scale=d * r.choice([0.2, 0.5, 1.0]), offset=False)
    k = a[r.randrange(len(a))]
    ox, oy = k[0] + r.uniform(-.7, .7) * d, k[1] + r.uniform(-.7, .7) * d
    return [(round(x + ox, 5), round(y + oy, 5)) for x, y in b]


def make(s):
    """-> (object, another one)"""
    if s['kind'] == 'vessel':
        return vessels.build(s['spec']), None
    if s['kind'] == 'triangle':
        from geometry.SR_polygon import Triangle
        return Triangle(base.segments(s['ring'])), Triangle(base.segments(s['other']))
    x = base.polygon(s['other'])
    if not ('soup' in s or 'open' in s):
        return base.polygon(s['ring']), x
    from geometry.SR_polygon import PolygonLine
    segs = base.segments(s['ring'])
    if 'open' in s:
        k = s['open']
        return PolygonLine(segs[k + 1:] + segs[:k]), x
    for i, flip in s['soup']:
        if flip:
            segs[i].reverse()
    return PolygonLine([segs[i] for i, flip in s['soup']]), x


def query(r, s, other=True):
    from . import queries
    if s['kind'] == 'vessel':
        return queries.vessel_query(r)
    if 'open' in s or 'soup' in s and r.random() < 0.5:
        n = r.choice(OPEN if 'open' in s else SOUP)
        return [n, r.randrange(20) if n in queries.INT_ARG else None]
    return queries.poly_query(r, [s['ring']], s['kind'] == 'triangle', other)


def state(o):
    """what nobody may change by asking: the directed segments, in their order, of the object or of the parts"""
    from . import queries
    if hasattr(o, 'polygons'):
        return [[p.name, [queries.seg(s) for s in p.segments], [queries.seg(s) for s in p.graph.segments],
                 queries._markers(p)] for p in o.polygons]
    return [queries.seg(s) for s in o.segments]


def fresh_answers(s, qs, env, other, max_steps=10 ** 9, sites=False):
    """the answer to each question, asked as the first and only one of a fresh object; with the steps it took and its calls
    of the triangulation library and the console, and, if asked for, the statements it came to and how often.

    The object is made under env (which loop gets which number is left open, but is settled when a vessel is made);
    after that other choices are taken."""
    from . import queries
    import json
    res = {}
    for q in qs:
        k = json.dumps(q)
        if k in res:
            continue
        with base.World(env, max_steps) as w:
            o, x = make(s)
            w.reseed(other)
            n0, b0, c0 = w.n, w.back_calls, w.out_calls
            if sites:
                w.watch()
            a = queries.ask(o, x, q)
            res[k] = (a, w.n - n0, w.back_calls - b0, w.out_calls - c0, sorted(w.watch(False).items()) if sites else None)
    return res
