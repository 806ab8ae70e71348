"""A stand-in for matplotlib: it records what is drawn and fails when told to."""
import types

from . import world


def _call(name, *what):
    w = world.CUR[0]
    if w is None:
        return
    w.dev_calls += 1
    if w.dev_calls in w.dev_fail:
        kind = w.dev_fail[w.dev_calls]
        w.stats.inc('fault_plot_%s' % kind)
        w.log('fault', 'plot', kind, w.dev_calls)
        raise world.FAULTS[kind]('injected failure of the plotting device')
    w.drawn.append((name,) + what)
    w.now += 0.01


def _nums(v):
    try:
        return [float(x) for x in v]
    except TypeError:
        return [float(v)]


class Axes:
    def arrow(self, *a, **k):
        _call('arrow', *[float(x) for x in a[:4]])

    def annotate(self, text, *a, **k):
        _call('annotate', text)

    def add_collection(self, c):
        _call('patches', [p.xy for p in c.patches])

    def plot(self, x, y, *a, **k):
        _call('line', _nums(x), _nums(y))


class Polygon:
    def __init__(self, xy, closed=True, **k):
        self.xy = [tuple(float(c) for c in p) for p in xy]


class PatchCollection:
    def __init__(self, patches, **k):
        self.patches = list(patches)


def make():
    root = types.ModuleType('matplotlib')
    root.__path__ = []
    plt = types.ModuleType('matplotlib.pyplot')
    axes = Axes()
    plt.plot = axes.plot

    def gca():
        _call('gca')
        return axes
    plt.gca = plt.axes = gca
    plt.axis = lambda *a, **k: _call('axis', *a)
    plt.title = lambda t, **k: _call('title', t)
    plt.show = lambda *a, **k: _call('show')
    root.pyplot = plt
    root.patches = types.ModuleType('matplotlib.patches')
    root.patches.Polygon = Polygon
    root.collections = types.ModuleType('matplotlib.collections')
    root.collections.PatchCollection = PatchCollection
    return root
