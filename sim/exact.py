"""Exact plane geometry over rationals, used as oracle, and generators of simple polygons.

Nothing here imports the code under test.  A ring is a list of (x, y) floats; floats are taken at face value.
"""
from fractions import Fraction as F
import math


def fx(p):
    return F(p[0]), F(p[1])


def edges(ring):
    return list(zip(ring, ring[1:] + ring[:1]))


def area2(ring):
    """twice the signed area"""
    s = F(0)
    pts = [fx(p) for p in ring]
    for (x1, y1), (x2, y2) in edges(pts):
        s += x1 * y2 - x2 * y1
    return s


def area(ring):
    return float(abs(area2(ring)) / 2)


def inside(rings, p):
    """is p enclosed by an odd number of the rings (p on none of them)"""
    px, py = fx(p)
    c = False
    for ring in rings:
        for (x1, y1), (x2, y2) in edges([fx(q) for q in ring]):
            if (y1 > py) != (y2 > py):
                if px < x1 + (py - y1) * (x2 - x1) / (y2 - y1):
                    c = not c
    return c


def dist_seg(p, a, b):
    (px, py), (ax, ay), (bx, by) = p, a, b
    dx, dy = bx - ax, by - ay
    n = dx * dx + dy * dy
    t = 0.0 if n == 0 else max(0.0, min(1.0, ((px - ax) * dx + (py - ay) * dy) / n))
    return math.hypot(px - ax - t * dx, py - ay - t * dy)


def dist_rings(p, rings):
    return min(dist_seg(p, a, b) for ring in rings for a, b in edges(ring))


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def seg_dist(a, b, c, d):
    """distance of two segments (0 if they cross)"""
    o = [orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)]
    if o[0] * o[1] < 0 and o[2] * o[3] < 0:
        return 0.0
    return min(dist_seg(a, c, d), dist_seg(b, c, d), dist_seg(c, a, b), dist_seg(d, a, b))


def is_simple(ring, margin):
    """no two edges closer than margin (except neighbours), no needle corners, no short edges"""
    e = edges(ring)
    n = len(e)
    for k, (a, b) in enumerate(e):
        if math.hypot(a[0] - b[0], a[1] - b[1]) < 3 * margin:
            return False
        for m in range(k + 1, n):
            c, d = e[m]
            if m == k + 1 or (k == 0 and m == n - 1):
                if n == 3:
                    continue
                p, q, r = (a, b, d) if m == k + 1 else (c, d, b)     # corner at q
                if dist_seg(p, q, r) < margin or dist_seg(r, p, q) < margin:
                    return False
            elif seg_dist(a, b, c, d) < margin:
                return False
    if n == 3:
        return all(dist_seg(ring[i], ring[i - 1], ring[i - 2]) > margin for i in range(3))
    return True


def rings_apart(r1, r2, margin):
    return all(seg_dist(a, b, c, d) > margin for a, b in edges(r1) for c, d in edges(r2))


def tri_overlap_area2(t1, t2):
    """twice the area of the intersection of two triangles (exact; clipping)"""
    def ccw(t):
        t = [fx(p) for p in t]
        return t if orient(*t) > 0 else t[::-1]
    poly, clip = ccw(t1), ccw(t2)
    for i in range(3):
        a, b = clip[i], clip[(i + 1) % 3]
        out = []
        for j in range(len(poly)):
            p, q = poly[j], poly[(j + 1) % len(poly)]
            op, oq = orient(a, b, p), orient(a, b, q)
            if op >= 0:
                out.append(p)
            if (op > 0 and oq < 0) or (op < 0 and oq > 0):
                t = op / (op - oq)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
        poly = out
        if len(poly) < 3:
            return F(0)
    s = F(0)
    for (x1, y1), (x2, y2) in edges(poly):
        s += x1 * y2 - x2 * y1
    return abs(s)


# ---- generators ------------------------------------------------------------------------------------------------

SCALES = [1.0, 1.0, 1.0, 10.0, 0.1, 100.0, 1000.0]


def _star(r, n):
    k = r.random() * 6.28
    return [((0.25 + 0.75 * r.random()) * math.cos(k + 2 * math.pi * i / n),
             (0.25 + 0.75 * r.random()) * math.sin(k + 2 * math.pi * i / n)) for i in range(n)]


def _star2(r, n):
    res, k = [], r.random() * 6.28
    for i in range(n):
        rad = 0.25 + 0.75 * r.random()
        res.append((rad * math.cos(k + 2 * math.pi * i / n), rad * math.sin(k + 2 * math.pi * i / n)))
    return res


def _convex(r, n):
    a, b = r.uniform(0.4, 1), r.uniform(0.4, 1)
    k = r.random()
    return [(a * math.cos(2 * math.pi * (i + k) / n), b * math.sin(2 * math.pi * (i + k) / n)) for i in range(n)]


def _comb(r, n):
    """teeth: many collinear levels and vertical edges"""
    t = max(1, n // 4)
    res = [(0.0, 0.0), (float(2 * t - 1), 0.0)]
    for i in reversed(range(t)):
        h = r.choice([1.0, 2.0, 2.0, 3.0])
        res += [(2.0 * i + 1, h), (2.0 * i, h)]
        if i:
            res += [(2.0 * i, 0.5), (2.0 * i - 1, 0.5)]
    return [(x / (2 * t), y / (2 * t)) for x, y in res]


def _stairs(r, n):
    k = max(2, n // 2 - 1)
    xs, ys = [0.0], [0.0]
    for _ in range(k):
        xs.append(xs[-1] + r.choice([1, 2]))
        ys.append(ys[-1] + r.choice([1, 1, 3]))
    res = [(0.0, 0.0), (xs[-1], 0.0)]
    x = xs[-1]
    for i in range(k, 0, -1):
        res.append((x, ys[k - i + 1]))
        x = xs[i - 1]
        res.append((x, ys[k - i + 1]))
    res.pop()
    res.append((0.0, ys[-1]))
    m = float(max(xs[-1], ys[-1]))
    out = []
    for p in res:
        if not out or out[-1] != p:
            out.append(p)
    return [(a / m, b / m) for a, b in out]


def _grid(r, n):
    """integer coordinates: many vertices on common lines with each other and with probe points"""
    for _ in range(60):
        pts = []
        while len(pts) < n:
            p = (r.randrange(-6, 7), r.randrange(-6, 7))
            if p not in pts:
                pts.append(p)
        cx, cy = sum(p[0] for p in pts) / n + 0.01, sum(p[1] for p in pts) / n + 0.017
        pts.sort(key=lambda p: math.atan2(p[1] - cy, p[0] - cx))
        ring = [(p[0] / 6.0, p[1] / 6.0) for p in pts]
        if is_simple(ring, 0.03):
            return ring
    return _convex(r, n)


def _ell(r, n):
    a, b = r.uniform(0.2, 0.8), r.uniform(0.2, 0.8)
    return [(0.0, 0.0), (1.0, 0.0), (1.0, a), (b, a), (b, 1.0), (0.0, 1.0)]


def _box(r, n):
    a = r.uniform(0.3, 1)
    return [(0.0, 0.0), (1.0, 0.0), (1.0, a), (0.0, a)]


KINDS = {'star': _star2, 'convex': _convex, 'comb': _comb, 'stairs': _stairs, 'grid': _grid, 'ell': _ell, 'box': _box}


def ring(r, kinds=None, n=None, scale=None, offset=True, margin=0.02):
    """a simple polygon; coordinates already rounded as the code rounds them (8 decimals)"""
    for _ in range(200):
        k = r.choice(sorted(kinds or KINDS))
        m = n or r.choice([3, 4, 4, 5, 6, 7, 8, 10, 12])
        pts = KINDS[k](r, m)
        if not is_simple(pts, margin):
            continue
        s = scale or r.choice(SCALES)
        ox = oy = 0.0
        if offset and r.random() < 0.7:
            ox, oy = r.choice([-1, 1]) * r.choice([1, 2.5, 10, 100]) * s, r.choice([-1, 1]) * r.choice([1, 3, 10, 100]) * s
        pts = [(round(round(x, 4) * s + ox, 4 if s >= 1 else 5) + 0.0, round(round(y, 4) * s + oy, 4 if s >= 1 else 5) + 0.0)
               for x, y in pts]
        if not is_simple(pts, margin * s):
            continue
        if r.random() < 0.5:
            pts.reverse()
        i = r.randrange(len(pts))
        return pts[i:] + pts[:i]
    raise AssertionError('no polygon')


def size(rings):
    xs = [p[0] for ring in rings for p in ring]
    ys = [p[1] for ring in rings for p in ring]
    return max(max(xs) - min(xs), max(ys) - min(ys))


def points(r, rings, n, margin):
    """probe points: random ones, ones level with or straight below/left of vertices, near edges, far outside"""
    xs = [p[0] for ring in rings for p in ring]
    ys = [p[1] for ring in rings for p in ring]
    d = size(rings)
    res = []
    for _ in range(40 * n):
        if len(res) >= n:
            break
        k = r.random()
        if k < 0.35:
            p = (r.uniform(min(xs) - 0.3 * d, max(xs) + 0.3 * d), r.uniform(min(ys) - 0.3 * d, max(ys) + 0.3 * d))
        elif k < 0.55:
            p = (r.choice(xs), r.uniform(min(ys) - 0.2 * d, max(ys)))
        elif k < 0.75:
            p = (r.uniform(min(xs) - 0.2 * d, max(xs)), r.choice(ys))
        elif k < 0.95:
            ring = r.choice(rings)
            (a, b) = r.choice(edges(ring))
            t = r.random()
            e = r.choice([-1, 1]) * margin * r.choice([1.5, 3, 10])
            n_ = math.hypot(b[0] - a[0], b[1] - a[1])
            p = (a[0] + t * (b[0] - a[0]) - e * (b[1] - a[1]) / n_, a[1] + t * (b[1] - a[1]) + e * (b[0] - a[0]) / n_)
        else:
            p = (r.choice([-1, 1]) * 50 * d, r.choice([-1, 1]) * 30 * d)
        p = (round(p[0], 6), round(p[1], 6))
        if dist_rings(p, rings) > margin:
            res.append(p)
    return res
