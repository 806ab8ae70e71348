"""The simulated environment.

One World object is one simulated execution.  Everything the code under test could meet that is not a
function of its input comes from here: random draws, iteration order of unordered collections, output of
the triangulation backend, wall clock, console, plotting device, who runs next, and which operation is cut
short by a fault.  All choices derive from the integers in ``env`` (a JSON object, part of the replay file);
logging never draws from those streams.
"""
import hashlib
import random as _real_random
import sys

import greenlet

Random = _real_random.Random          # harness-private generator class, never patched


class SimFault(Exception):
    """base of the injected faults that are ordinary errors"""


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class StepLimit(BaseException):
    """the code did not finish within its step budget (bounded liveness)"""


class Interrupted(KeyboardInterrupt):
    """injected Ctrl-C / cancellation"""


class OutOfMemory(MemoryError):
    """injected allocation failure"""


class BackendFailure(RuntimeError):
    """injected failure of the triangulation library"""


class DeviceFailure(OSError):
    """injected failure of the console or the plotting device"""


FAULTS = {'interrupt': Interrupted, 'memory': OutOfMemory, 'backend': BackendFailure, 'device': DeviceFailure}
INJECTED = (Interrupted, OutOfMemory, BackendFailure, DeviceFailure)

CUR = [None]                          # the World in force, if any
INF = 1 << 62


class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n


class World:
    def __init__(self, env=None, max_steps=20000000):
        env = dict(env or {})
        self.env = env
        self.stats = Stats()
        self.log_h = hashlib.sha256()
        self.log_n = 0
        self.log_tail = []
        seed = env.get('seed', 0)
        self.r_draw = Random('draw/%s' % env.get('draw_seed', seed))
        self.r_adv = Random('adv/%s' % env.get('draw_seed', seed))
        self.r_set = Random('set/%s' % env.get('set_seed', seed))
        self.r_back = Random('back/%s' % env.get('back_seed', seed))
        self.set_max = env.get('set_shuffles', 0)      # how many iterations of unordered collections get a random order
        self.back_max = env.get('back_perms', 0)       # how many backend answers get permuted
        self.adv_p = env.get('adv_p', 0.0)             # probability of a degenerate ray
        self.adv_max = env.get('adv_max', 0)
        self.edge_p = env.get('edge_p', 0.0)           # probability that a draw hits the end of its range
        self.adv_ctx = None
        self._adv_i = 0
        self._adv_x = 0.0
        self._adv_last = 0
        # steps
        self.n = 0
        self.max_steps = max_steps
        self.fault_at = INF
        self.fault_kind = None
        self.fault_site = None
        self.fault_nth = 0
        self.seen = None        # {statement: how often it was reached}, while this is recorded
        self.sched = None
        self.next_event = max_steps
        # backend / device faults: index of the call that fails
        self.back_calls = 0
        self.back_fail = {}
        self.dev_calls = 0
        self.dev_fail = {}
        self.drawn = []
        self.out_calls = 0
        self.out_fail = {}
        self.draws = 0
        self.draw_limit = None
        self.now = 1.0e9
        self.atomic = 0         # > 0: tasks are not switched
        self.hold = 0           # > 0: the fault waits

    def reseed(self, seed):
        """from here on other choices"""
        self.r_draw = Random('draw2/%s' % seed)
        self.r_adv = Random('adv2/%s' % seed)
        self.r_set = Random('set2/%s' % seed)
        self.r_back = Random('back2/%s' % seed)

    # -- log ------------------------------------------------------------------------------------------
    def log(self, *ev):
        s = repr(ev)
        self.log_h.update(s.encode())
        self.log_n += 1
        self.log_tail.append(s if len(s) < 300 else s[:300] + '...')
        if len(self.log_tail) > 60:
            del self.log_tail[:20]

    def digest(self):
        return self.log_h.hexdigest()

    # -- steps, faults, scheduling -----------------------------------------------------------------------
    def _rearm(self):
        if self.seen is not None or self.fault_site is not None or self.sched is not None and self.sched.sites:
            self.next_event = 0            # every statement is looked at
            return
        nxt = self.max_steps
        if self.fault_at < nxt:
            nxt = self.fault_at
        if self.sched is not None and self.sched.next_switch < nxt:
            nxt = self.sched.next_switch
        self.next_event = nxt

    def arm_fault(self, after, kind):
        """the fault strikes at the after-th step from now"""
        self.fault_at = self.n + after
        self.fault_kind = kind
        self._rearm()

    def arm_site(self, site, nth, kind):
        """the fault strikes when the statement is reached for the nth time from now"""
        self.fault_site, self.fault_nth, self.fault_kind = site, nth, kind
        self._rearm()

    def watch(self, on=True):
        """-> the statements reached while they were recorded"""
        seen, self.seen = self.seen, {} if on else None
        self._rearm()
        return seen

    def event_now(self):
        """the armed fault strikes here"""
        self.n = self.fault_at
        self.event()

    def disarm(self):
        self.fault_at = INF
        self.fault_kind = self.fault_site = None
        self._rearm()

    def event(self, site=None):
        if site is not None:
            if self.seen is not None:
                self.seen[site] = self.seen.get(site, 0) + 1
            if site == self.fault_site:
                self.fault_nth -= 1
                if self.fault_nth <= 0:
                    self.fault_at = self.n
        if self.n >= self.max_steps:
            self.max_steps = INF      # raise once, so that handlers can run
            self._rearm()
            raise StepLimit('no result after %d steps' % self.n)
        if self.n >= self.fault_at and self.hold:
            self.fault_at = self.n + 20
            self._rearm()
        elif self.n >= self.fault_at:
            kind = self.fault_kind
            self.disarm()
            self.stats.inc('fault_%s' % kind)
            self.log('fault', kind, self.n)
            raise FAULTS[kind]('injected %s' % kind)
        c = self.sched
        if c is not None:
            if self.n >= c.next_switch:
                c.preempt()
            elif c.sites.get(site):
                c.sites[site] -= 1
                c.preempt()

    # -- random draws ----------------------------------------------------------------------------------
    def u01(self):
        self.draws += 1
        self.stats.inc('draws')
        if self.draw_limit is not None and self.draws > self.draw_limit:
            self.draw_limit = None
            raise StepLimit('no result after %d random draws' % self.draws)
        return self.r_draw.random()

    def uniform(self, a, b):
        u = self.u01()
        v = a + (b - a) * u
        ctx = self.adv_ctx
        if ctx is not None:
            self._adv_i += 1
            if self._adv_i & 1:
                self._adv_x = v
            else:
                # a ray that grazes a corner: legal, rare, and what the redundancy in the code is for.
                # Never two in a row, so that redundant probing always contains a generic ray.
                fire = self._adv_last == 0 and self.adv_max > 0 and self.r_adv.random() < self.adv_p
                self._adv_last = 0
                if fire:
                    (px, py), verts = ctx
                    cand = []
                    for vx, vy in verts:
                        if abs(vx - px) > 1e-9:
                            y = py + (self._adv_x - px) * (vy - py) / (vx - px)
                            if min(a, b) <= y <= max(a, b):
                                cand.append(y)
                    if cand:
                        v = cand[self.r_adv.randrange(len(cand))]
                        self._adv_last = 1
                        self.adv_max -= 1
                        self.stats.inc('degenerate_rays')
                        self.log('ray', v)
        elif self.edge_p and self.r_adv.random() < self.edge_p:
            v = a if self.r_adv.random() < 0.5 else b
            self.stats.inc('edge_draws')
        return v

    def below(self, n):
        self.draws += 1
        self.stats.inc('draws')
        if self.draw_limit is not None and self.draws > self.draw_limit:
            self.draw_limit = None
            raise StepLimit('no result after %d random draws' % self.draws)
        return self.r_draw.randrange(n)

    # -- unordered collections --------------------------------------------------------------------------
    def order(self, items):
        if self.set_max > 0 and len(items) > 1:
            self.set_max -= 1
            self.stats.inc('set_orders')
            self.r_set.shuffle(items)
        return items

    # -- use as a context -------------------------------------------------------------------------------
    def __enter__(self):
        self._prev = CUR[0]
        CUR[0] = self
        self._out = sys.stdout
        sys.stdout = Console(self)
        return self

    def __exit__(self, *exc):
        CUR[0] = self._prev
        sys.stdout = self._out
        return False


SITES = [0]        # the number of statements of the code under test


def simpt(site):
    """inserted before every statement of the code under test (see loader)"""
    w = CUR[0]
    if w is not None:
        w.n += 1
        if w.n >= w.next_event:
            w.event(site)


def simatomic(n):
    w = CUR[0]
    if w is not None:
        w.atomic += n


class Console:
    """sys.stdout of the code under test"""
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, w):
        self.w = w

    def write(self, s):
        w = self.w
        w.out_calls += 1
        if w.out_calls in w.out_fail:
            w.stats.inc('fault_console')
            w.log('fault', 'console', w.out_calls)
            raise DeviceFailure('injected console failure')
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class _M(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or type(o) is set


class SimSet(set, metaclass=_M):
    """a set whose iteration order is a decision of the simulator (the language leaves it open)"""

    def __iter__(self):
        items = list(set.__iter__(self))
        w = CUR[0]
        if w is not None and w.set_max > 0:
            items = w.order(items)
        return iter(items)

    def pop(self):
        w = CUR[0]
        if w is not None and w.set_max > 0 and len(self):
            items = w.order(list(set.__iter__(self)))
            set.discard(self, items[0])
            return items[0]
        return set.pop(self)

    def _wrap(name):
        op = getattr(set, name)

        def f(self, *a):
            r = op(self, *a)
            return SimSet(r) if type(r) is set else r
        f.__name__ = name
        return f

    for _n in ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__', 'union',
               'intersection', 'difference', 'symmetric_difference', 'copy'):
        locals()[_n] = _wrap(_n)
    del _n, _wrap

    def __repr__(self):
        return '{%s}' % ', '.join(repr(x) for x in set.__iter__(self)) if len(self) else 'set()'


# ---------------------------------------------------------------------------------------------------------
# cooperative tasks
# ---------------------------------------------------------------------------------------------------------

class Scheduler:
    """Runs tasks as greenlets, one at a time; which one runs next is a seeded decision taken at sim points."""

    def __init__(self, world, seed, mean_gap=50, max_switches=100000, sites=None):
        """sites: switch also when a task comes to certain statements, this part of all (None: the seed says)"""
        self.w = world
        self.r = Random('sched/%s' % seed)
        if sites is None:
            sites = self.r.choice([0, 0, 0.02, 0.1, 0.3])
        self.mean = mean_gap
        self.left = max_switches
        self.sites = {i: 3 for i in range(SITES[0]) if self.r.random() < sites} if sites else {}
        self.tasks = []
        self.current = None
        self.next_switch = INF
        self.trace = []
        self.hub = None

    def add(self, name, fn):
        t = {'name': name, 'fn': fn, 'done': False, 'result': None, 'error': None}

        def body():
            try:
                t['result'] = fn()
            except BaseException as e:    # reported to the harness, not swallowed
                t['error'] = e
            t['done'] = True
        t['g'] = greenlet.greenlet(body)
        self.tasks.append(t)
        return t

    def _draw_gap(self):
        if self.left <= 0:
            self.next_switch = INF
            self.sites = {}
        else:
            self.next_switch = self.w.n + 1 + int(self.r.expovariate(1.0 / self.mean))
        self.w._rearm()

    def preempt(self):
        if self.w.atomic or greenlet.getcurrent() is self.hub:
            self._draw_gap()
            return
        self.left -= 1
        self.w.stats.inc('preemptions')
        self.hub.switch()

    def run(self):
        self.hub = greenlet.getcurrent()
        self.w.sched = self
        try:
            while True:
                live = [t for t in self.tasks if not t['done']]
                if not live:
                    break
                t = live[self.r.randrange(len(live))] if len(live) > 1 else live[0]
                self.trace.append((self.tasks.index(t), self.w.n))
                self._draw_gap()
                self.current = t
                t['g'].switch()
        finally:
            self.w.sched = None
            self.next_switch = INF
            self.w._rearm()
        h = hashlib.sha256(repr(self.trace).encode()).hexdigest()[:16]
        self.w.log('schedule', h)
        return h
