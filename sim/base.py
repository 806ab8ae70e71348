"""What the property modules share."""
import json
import hashlib

from . import world, exact
from .world import World, Violation, StepLimit, Random, INJECTED, Interrupted, OutOfMemory, BackendFailure, DeviceFailure


def env(r, adv=True):
    """a random environment (swarm style: each source of nondeterminism is on in some runs and off in others)"""
    e = {'seed': r.randrange(1 << 30)}
    if r.random() < 0.75:
        e['set_shuffles'] = 1000000
    if r.random() < 0.75:
        e['back_perms'] = 1000
    if adv and r.random() < 0.6:
        e['adv_p'] = r.choice([0.1, 0.3, 0.6])
        e['adv_max'] = r.choice([1, 3, 10, 40])
    elif r.random() < 0.3:
        e['edge_p'] = r.choice([0.02, 0.1])
    return e


def shrink_env(e):
    for k in ('set_shuffles', 'back_perms', 'adv_max', 'edge_p', 'adv_p'):
        if e.get(k):
            n = dict(e)
            del n[k]
            yield n
    for k in ('set_shuffles', 'back_perms', 'adv_max'):
        v = e.get(k, 0)
        if v > 1:
            for w in (1, v // 1000, v // 30, v // 4, v // 2, v - 1):
                if 0 < w < v:
                    n = dict(e)
                    n[k] = w
                    yield n


class Rec:
    """what one run reports about itself"""

    def __init__(self):
        self.stats = {}
        self.nontrivial = False
        self.digest = hashlib.sha256()
        self.steps = 0
        self.sim_s = 0.0
        self.probes = {}

    def add(self, w):
        for k, v in w.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.digest.update(('%s %d %d' % (w.digest(), w.n, w.draws)).encode())
        self.steps += w.n
        self.sim_s += w.now - 1.0e9

    def note(self, *ev):
        self.digest.update(repr(ev).encode())

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n


class _Use:
    def __init__(self, w, rec):
        self.w, self.rec = w, rec

    def __enter__(self):
        return self.w.__enter__()

    def __exit__(self, *a):
        self.w.__exit__(*a)
        self.rec.add(self.w)
        return False


def use(rec, e, max_steps):
    return _Use(World(e, max_steps), rec)


def repo_raised(exc):
    """the exception came out of the code under test (not out of the harness)"""
    from . import loader
    tb = exc.__traceback__
    last = None
    seen = False
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(loader.REPO + '/'):
            seen = True
        tb = tb.tb_next
    return seen


def where(exc):
    from . import loader
    tb = exc.__traceback__
    res = ''
    while tb is not None:
        f = tb.tb_frame.f_code
        if f.co_filename.startswith(loader.REPO + '/'):
            res = '%s in %s' % (f.co_filename[len(loader.REPO) + 1:], f.co_name)
        tb = tb.tb_next
    return res


def need(cond, kind, fmt, *args):
    if not cond:
        raise Violation(kind, fmt % args if args else fmt)


def number(x, kind, what):
    need(isinstance(x, (int, float)) and not isinstance(x, bool) and x == x, kind, '%s is %r, not a number', what, x)
    return x


def close(a, b, rel, floor=0.0):
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), floor)


# ---- observations on the real objects -------------------------------------------------------------------------

def seg_xy(s):
    return tuple(sorted(((s.i.x, s.i.y), (s.j.x, s.j.y))))


def rnd(xy):
    return round(xy[0], 6) + 0.0, round(xy[1], 6) + 0.0


def shape(poly):
    """the multiset of undirected segments"""
    return sorted(tuple(sorted((rnd(s.i.xy), rnd(s.j.xy)))) for s in poly.segments)


def ring_shape(ring):
    return sorted(tuple(sorted((rnd(a), rnd(b)))) for a, b in exact.edges(ring))


def polygon(ring):
    from geometry.SR_polygon import polygon_from_nodes
    p = polygon_from_nodes([tuple(x) for x in ring])
    p.close()
    return p


def segments(ring):
    from geometry.SR_line import LineSegment
    from geometry.SR_point import Point
    return [LineSegment(Point(tuple(a)), Point(tuple(b))) for a, b in exact.edges(ring)]


def jdump(o):
    return json.dumps(o, sort_keys=True)


def chain(segs):
    """the ring that undirected segments form, or None"""
    adj = {}
    for a, b in segs:
        a, b = rnd(a), rnd(b)
        adj.setdefault(a, []).append(b)
        adj.setdefault(b, []).append(a)
    if not segs or any(len(v) != 2 for v in adj.values()):
        return None
    start = min(adj)
    ring, prev, cur = [start], None, start
    while True:
        x, y = adj[cur]
        nxt = y if x == prev else x
        if prev is None:
            nxt = x
        if nxt == start:
            break
        if len(ring) > len(adj):
            return None
        ring.append(nxt)
        prev, cur = cur, nxt
    return ring if len(ring) == len(adj) == len(segs) else None
