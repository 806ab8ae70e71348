"""Loads the packages of the code under test from the working tree, instrumented at load time.

No file of the repository is changed.  The syntax tree of each module gets
 - a call of simpt(its number) before every statement of every function: a point where the simulator may inject a fault
   or run another task;
 - `set`, set displays and set comprehensions replaced by SimSet, whose iteration order the simulator decides.
Then the module-level seams (random, time, the triangulation backend, the plotting device) are bound to the
simulated environment.
"""
import ast
import importlib
import importlib.abc
import importlib.util
import os
import sys

from . import world
from .world import CUR

REPO = os.environ.get('SIM_REPO', '/repo')
PACKAGES = ('geometry', 'SR_Vessel')


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.points = 0

    def _block(self, stmts, docstring=False):
        out = []
        for i, s in enumerate(stmts):
            keep = (docstring and i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
                    and isinstance(s.value.value, str)) or isinstance(s, (ast.Global, ast.Nonlocal))
            if not keep:
                call = ast.Expr(ast.Call(ast.Name('__simpt__', ast.Load()), [ast.Constant(world.SITES[0])], []))
                ast.copy_location(call, s)
                ast.fix_missing_locations(call)
                out.append(call)
                self.points += 1
                world.SITES[0] += 1
            out.append(s)
        return out

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        node.body = self._block(node.body, True)
        if node.name in ('__repr__', '__str__', '__format__'):
            # lists note per thread which of them are being written; tasks share a thread, so do not switch in there
            enter, leave = (ast.Expr(ast.Call(ast.Name('__simatomic__', ast.Load()), [ast.Constant(n)], [])) for n in (1, -1))
            node.body = [enter, ast.Try(node.body, [], [], [leave])]
            for x in node.body:
                ast.copy_location(x, node)
                ast.fix_missing_locations(x)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        return node

    def _stmt(self, node):
        self.generic_visit(node)
        if self.depth:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if b:
                    setattr(node, f, self._block(b))
        return node

    visit_If = visit_For = visit_While = visit_With = visit_Try = visit_ExceptHandler = _stmt

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__simset__', ast.Load()), [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__simset__', ast.Load()),
                                          [ast.GeneratorExp(node.elt, node.generators)], []), node)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tr = Instrument()
        tree = ast.fix_missing_locations(tr.visit(tree))
        module.__dict__['__simpt__'] = world.simpt
        module.__dict__['__simatomic__'] = world.simatomic
        module.__dict__['__simset__'] = world.SimSet
        module.__dict__['set'] = world.SimSet
        module.__dict__['__sim_points__'] = tr.points
        exec(compile(tree, self.path, 'exec'), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in PACKAGES:
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_file_location(name, init, loader=Loader(init),
                                                          submodule_search_locations=[base])
        elif os.path.isfile(base + '.py'):
            spec = importlib.util.spec_from_file_location(name, base + '.py', loader=Loader(base + '.py'))
        else:
            return None
        return spec


# ---- seams ------------------------------------------------------------------------------------------------

def _patch_random():
    import random
    real = {k: getattr(random, k) for k in ('random', 'uniform', 'randint', 'randrange', 'choice', 'choices', 'shuffle',
                                            'sample', 'gauss', 'getrandbits', 'seed', 'triangular', 'normalvariate')}

    def w():
        return CUR[0]

    def mk(name, sim):
        def f(*a, **k):
            if CUR[0] is None:
                return real[name](*a, **k)
            return sim(*a, **k)
        f.__name__ = name
        setattr(random, name, f)
    mk('random', lambda: w().u01())
    mk('uniform', lambda a, b: w().uniform(a, b))
    mk('randint', lambda a, b: a + w().below(b - a + 1))

    def randrange(start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[w().below(len(r))]
    mk('randrange', randrange)
    mk('choice', lambda seq: seq[w().below(len(seq))])

    def shuffle(x, *_):
        for i in reversed(range(1, len(x))):
            j = w().below(i + 1)
            x[i], x[j] = x[j], x[i]
    mk('shuffle', shuffle)

    def sample(pop, k, **_):
        pool = list(pop)
        shuffle(pool)
        return pool[:k]
    mk('sample', sample)
    mk('choices', lambda pop, weights=None, k=1, **_: [pop[w().below(len(pop))] for _ in range(k)])
    mk('getrandbits', lambda k: w().below(1 << k))
    mk('seed', lambda *a, **k: None)
    mk('gauss', lambda mu=0.0, s=1.0: mu + s * (sum(w().u01() for _ in range(12)) - 6))
    mk('normalvariate', lambda mu=0.0, s=1.0: mu + s * (sum(w().u01() for _ in range(12)) - 6))
    mk('triangular', lambda lo=0.0, hi=1.0, mode=None: w().uniform(lo, hi))

    class SimulatedRandom(world.Random):
        """random.Random() without a seed is as nondeterministic as the module functions"""

        def __init__(self, x=None):
            super().__init__(x if x is not None or CUR[0] is None else CUR[0].below(1 << 30))
    random.Random = SimulatedRandom


def _patch_time():
    import time

    def clock(name, conv):
        real = getattr(time, name)

        def f():
            return real() if CUR[0] is None else conv(CUR[0])
        setattr(time, name, f)

    def tick(w):
        w.now += 1e-6
        return w.now
    real_sleep = time.sleep

    def sleep(s):
        if CUR[0] is None:
            return real_sleep(s)
        CUR[0].now += s
        CUR[0].stats.inc('slept_ms', int(s * 1000))
    global real_time
    real_time = time.time
    for n in ('time', 'monotonic', 'perf_counter'):
        clock(n, tick)
    time.sleep = sleep


def _patch_backend():
    import triangle
    real = triangle.triangulate

    def triangulate(data, *a, **k):
        w = CUR[0]
        if w is None:
            return real(data, *a, **k)
        w.back_calls += 1
        if w.back_calls in w.back_fail:
            kind = w.back_fail[w.back_calls]
            w.stats.inc('fault_backend_%s' % kind)
            w.log('fault', 'backend', kind, w.back_calls)
            raise world.FAULTS[kind]('injected backend failure')
        w.stats.inc('backend_calls')
        t = real(data, *a, **k)
        if w.back_max > 0 and 'triangles' in t:
            w.back_max -= 1
            w.stats.inc('backend_orders')
            import numpy as np
            tris = [list(map(int, x)) for x in t['triangles']]
            w.r_back.shuffle(tris)                      # the order of the triangles is not specified
            out = []
            for x in tris:                              # nor is the corner a triangle starts with
                i = w.r_back.randrange(3)
                out.append(x[i:] + x[:i])
            t['triangles'] = np.asarray(out)
        return t
    triangle.triangulate = triangulate


_loaded = []
real_time = None


def load(plotting=None):
    """import the code under test; plotting: None (matplotlib absent) or a stub package"""
    if _loaded:
        return
    _loaded.append(1)
    import collections
    sys.dont_write_bytecode = True
    sys.modules.setdefault('matplotlib', plotting)      # None: import raises ImportError
    if plotting is not None:
        sys.modules['matplotlib.pyplot'] = plotting.pyplot
        sys.modules['matplotlib.patches'] = plotting.patches
        sys.modules['matplotlib.collections'] = plotting.collections
    _patch_random()
    _patch_time()
    _patch_backend()
    sys.meta_path.insert(0, Finder())
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        for p in ('geometry', 'geometry.SR_point', 'geometry.SR_line', 'geometry.SR_polygon',
                  'geometry.SR_polygon_group', 'SR_Vessel', 'SR_Vessel.SR_hauptteile'):
            importlib.import_module(p)
    finally:
        sys.stdout = out
    for m in [m for n, m in sys.modules.items() if n.split('.')[0] in PACKAGES]:
        assert m.__file__.startswith(REPO + '/'), m.__file__
