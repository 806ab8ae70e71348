"""Questions a user can ask of polygons and vessels, with answers in a form that can be compared.

An answer never depends on object identity, on the order of unordered collections, or (within 1e-7) on the order
in which numbers were summed up.
"""
from . import base, exact
from .world import INJECTED, Violation


def pt(p):
    return ['P', p.x, p.y]


def seg(s):
    return ['S', s.i.x, s.i.y, s.j.x, s.j.y]


def useg(s):
    a, b = sorted([(s.i.x, s.i.y), (s.j.x, s.j.y)])
    return ['U', a[0], a[1], b[0], b[1]]


def tri_xy(t):
    return sorted([p.x, p.y] for p in t.point_set)


def bag(xs):
    return sorted(xs, key=repr)


# ---- polygons ------------------------------------------------------------------------------------------------------

def _area(o, x, a):
    return o.area


def _triangles(o, x, a):
    o.triangulate()
    return bag(tri_xy(t) for t in o.triangles)


def _retriangulate(o, x, a):
    o.triangulate(force=True)
    return bag(tri_xy(t) for t in o.triangles)


def _detail(o, x, a):
    return bag(o.detailled_area.items())


def _coll(o, x, a):
    m, s, c = o.collinear_points
    return [bag(pt(p) for p in m), bag(pt(p) for p in s), bag([pt(p), n] for p, n in c.items())]


def _point(o, a):
    ps = o.point_set
    return ps[a % len(ps)]


def _segment(o, a):
    return o.segments[a % len(o.segments)]


def _inside(o, x, a):
    from geometry.SR_point import Point
    return bool(o.is_internal_point(p=Point(tuple(a))))


def _outside(o, x, a):
    from geometry.SR_point import Point
    return bool(o.is_external_point(p=Point(tuple(a))))


def _copy_equal(o, x, a):
    c = o.closed_copy()
    return [o == c, hash(o) == hash(c), o != c, o.loose_equal(c), o.loose_subset(c), c is o, [seg(s) for s in c.segments]]


def _hull(o, x, a):
    from geometry.SR_polygon import convex_hull
    return [seg(s) for s in convex_hull([p.xy for p in o.point_set]).segments]


def _outlier(o, x, a):
    from geometry.SR_polygon import remove_outlier_segments
    return [seg(s) for s in remove_outlier_segments(o.segments)]


def _nocoll(o, x, a):
    from geometry.SR_polygon import remove_collinear_points
    return bag(useg(s) for s in remove_collinear_points(o).segments)


def _walk(o, x, a):
    from geometry.SR_polygon import walk_segments
    r = walk_segments(segments=o.segments)
    return r if isinstance(r, bool) else bag(useg(s) for s in r.segments)


def _cross(o, x, a):
    from geometry.SR_polygon import intersecting_lines
    return bag([seg(s), seg(t)] for s, t in intersecting_lines(o.segments))


POLY = {
    'area': _area, 'triangles': _triangles, 'retriangulate': _retriangulate, 'detailled_area': _detail,
    'isclosed': lambda o, x, a: o.isclosed, 'isopen': lambda o, x, a: o.isopen, 'iscontinuous': lambda o, x, a: o.iscontinuous,
    'isvalid': lambda o, x, a: o.isvalid, 'isconvex': lambda o, x, a: o.isconvex,
    'iscw': lambda o, x, a: o.iscw, 'isccw': lambda o, x, a: o.isccw, 'box': lambda o, x, a: o.bounding_box(),
    'midpoint': lambda o, x, a: pt(o.midpoint), 'point_set': lambda o, x, a: [pt(p) for p in o.point_set],
    'all_points': lambda o, x, a: [pt(p) for p in o.all_points],
    'crossing_lines': lambda o, x, a: bag([seg(s), seg(t)] for s, t in o.crossing_lines),
    'discontinuity': lambda o, x, a: [seg(s) for s in o.discontinuity], 'is_triangle': lambda o, x, a: o.is_triangle,
    'collinear_points': _coll, 'inside': _inside, 'outside': _outside, 'copy': _copy_equal,
    'ordered_copy': lambda o, x, a: o.ordered_copy(),
    'neighbour': lambda o, x, a: bag(pt(p) for p in o.neighbour(p=_point(o, a))),
    'find': lambda o, x, a: [[seg(s) for s in o.find_segment_by_point(_point(o, a), whichend=w)] for w in ('start', 'end', 'both')],
    'next': lambda o, x, a: seg(o.next_segment(_segment(o, a))), 'cps': lambda o, x, a: list(o.cps),
    'repr': lambda o, x, a: repr(o), 'hull': _hull, 'walk': _walk, 'cross': _cross, 'outlier': _outlier, 'nocoll': _nocoll,
    'ends': lambda o, x, a: [pt(o.first_point), pt(o.last_point)],
    'other_disjunct': lambda o, x, a: [bool(o.disjunct(x)), bool(x.disjunct(o))],
    'other_equal': lambda o, x, a: [o == x, o.loose_equal(x), o.loose_subset(x)],
}
POLY_SLOW = {'ear'}
POINT_ARG = {'inside', 'outside'}
INT_ARG = {'neighbour', 'find', 'next'}

TRI = {
    'tri_angles': lambda o, x, a: sorted(o.angles), 'tri_quality': lambda o, x, a: o.quality,
    'tri_overlap': lambda o, x, a: [bool(o.overlap(x)), bool(x.overlap(o))],
    'tri_congruent': lambda o, x, a: bool(o.congruent(x)), 'tri_enclosed': lambda o, x, a: bool(o.enclosed(x)),
    'tri_touch': lambda o, x, a: bool(o.touch(x)), 'tri_tell': lambda o, x, a: o.tell_relpos(x),
}


def poly_query(r, rings, tri=False, other=True):
    """a random question (JSON)"""
    names = sorted(POLY) + ['inside'] * 5 + ['area', 'triangles'] * 3
    if tri:
        names = [n for n in names if n not in ('triangles', 'retriangulate', 'detailled_area')] + sorted(TRI)
    n = r.choice([x for x in names if other or not x.startswith('other_')])
    a = None
    if n in POINT_ARG:
        a = list(exact.points(r, rings, 1, 0.004 * exact.size(rings))[0])
    elif n in INT_ARG:
        a = r.randrange(20)
    return [n, a]


# ---- vessels -------------------------------------------------------------------------------------------------------

def _names(hts):
    return sorted(h.name for h in hts)


def _cyc(c):
    return bag(bag(useg(s) for s in p.segments) for p in c.values())


def _cyc_keyed(c):
    return sorted([k, bag(useg(s) for s in p.segments)] for k, p in c.items())


def _group_isvalid(o, x, a):
    return o.isvalid


def _part(o, a):
    return o.polygons[a % len(o.polygons)]


def _markers(p):
    g = p.graph
    return [bag([q.x, q.y, useg(q.segment)] for q in m) for m in (g.internal, g.external, g.indifferent)]


def _fresh_markers(o, x, a):
    p = _part(o, a)
    return bag([useg(s), [[k, bag(pt(q) for q in v)] for k, v in sorted(m.items())]] for s, m in p.intex_points.items())


VESSEL = {
    'raum_intex': lambda o, x, a: sorted([k, sorted([m, sorted(s)] for m, s in v.items())] for k, v in o.raum_intex().items()),
    'cycles': lambda o, x, a: _cyc_keyed(o.cycles), 'graph_cycles': lambda o, x, a: _cyc_keyed(o.graph.cycles),
    'in_cycles': lambda o, x, a: sorted([k, _names(v)] for k, v in o.segments_in_cycles.items()),
    'contained': lambda o, x, a: sorted([k, sorted(v)] for k, v in o.contained_cycles.items()),
    'overlaps': lambda o, x, a: sorted([list(k), _names(v)] for k, v in o.overlaps_in_cycles.items()),
    'overlaps_named': lambda o, x, a: bag([list(k), bag(v)] for k, v in o.overlaps_in_cycles_named.items()),
    'disjunct': lambda o, x, a: sorted([k, len(v)] for k, v in o.disjunct_cycles.items()),
    'all_overlapping': lambda o, x, a: sorted(g.hauptteil.name for g in o.all_overlapping_segments),
    'valid': _group_isvalid, 'rooms': lambda o, x, a: [r.name for r in o.raume],
    'walls': lambda o, x, a: [[_names(r.innere_wandung), _names(r.aussere_wandung), _names(r.ganze_wandung)] for r in o.raume],
    'outlines': lambda o, x, a: [[bag(useg(s) for s in r.as_polygon.segments), bag(useg(s) for s in r.graph_as_polygon().segments)]
                                 for r in o.raume],
    'numbered': lambda o, x, a: sorted([n, pt(p)] for p, n in o.points_numbered.items()),
    'adjacency': lambda o, x, a: sorted([k, v] for k, v in o.as_adjacency_list(as_numbered=True).items()),
    'adjacency_pts': lambda o, x, a: bag([pt(k), bag(pt(p) for p in v)] for k, v in o.as_adjacency_list().items()),
    'repr_graph': lambda o, x, a: bag(useg(s) for s in o.representative_graph.segments),
    'graph_adjacency': lambda o, x, a: sorted([k, v] for k, v in o.graph.as_adjacency_list(as_numbered=True).items()),
    'all_segments': lambda o, x, a: bag(seg(s) for s in o.all_segments),
    'part_valid': lambda o, x, a: _part(o, a).isvalid,
    'part_line_valid': lambda o, x, a: _part(o, a).polygonline.isvalid,
    'part_box': lambda o, x, a: [_part(o, a).bounding_box(), _part(o, a).graph.bounding_box()],
    'part_size': lambda o, x, a: _part(o, a).characteristic_size,
    'part_walls': lambda o, x, a: [[seg(s) for s in _part(o, a).wall_segments], [seg(s) for s in _part(o, a).nonwall_segments]],
    'part_markers': lambda o, x, a: _markers(_part(o, a)),
    'part_fresh_markers': _fresh_markers,
    'part_closed': lambda o, x, a: [_part(o, a).isclosed, _part(o, a).iscontinuous],
}
VESSEL_PART = {n for n in VESSEL if n.startswith('part_')}


def vessel_query(r):
    n = r.choice(sorted(VESSEL) + ['raum_intex'] * 3 + ['cycles', 'part_fresh_markers'])
    return [n, r.randrange(20) if n in VESSEL_PART else None]


ALL = {}
for _d in (POLY, TRI, VESSEL):
    for _k, _f in _d.items():
        assert _k not in ALL or _d is POLY, _k
        ALL[_k] = _f


def ask(o, x, q):
    """the answer to question q about o (x: another object of the same kind); errors are answers, too"""
    try:
        return ['ok', plain(ALL[q[0]](o, x, q[1]))]
    except INJECTED:
        raise
    except Violation:
        raise
    except Exception as e:
        if not base.repo_raised(e):
            raise
        return ['raises', type(e).__name__]


def plain(v):
    """as JSON would give it back"""
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return bag(plain(x) for x in v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, dict):
        return bag([plain(k), plain(x)] for k, x in v.items())
    try:
        return float(v)
    except (TypeError, ValueError):
        return repr(v)


def same(a, b, tol=1e-7):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def brief(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'
