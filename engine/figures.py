"""What is drawn: a stand-in of matplotlib for the encoded code, and a common
view of its figures and of those of matplotlib."""
import types

import numpy as np


class Stub:
    """accepts anything"""

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self

    def __iter__(self):
        return iter(())

    def __getitem__(self, i):
        return self

    def __setitem__(self, i, v):
        pass


CYCLE = ['#1f77b4', '#ff7f0e', '#2ca02c', '#d62728', '#9467bd', '#8c564b',
         '#e377c2', '#7f7f7f', '#bcbd22', '#17becf']
MARKERS = '.,ov^<>12348spP*hH+xXDd|_'
LETTERS = dict(k='k', r='r', g='g', b='b', c='c', m='m', y='y', w='w')


def arr(v):
    """array of objects"""
    if hasattr(v, 'tolist'):
        v = v.tolist()
    elif isinstance(v, (list, tuple, range)):
        v = [arr(x) for x in v]
        sh = {getattr(x, 'shape', ()) for x in v}
        if sh and sh != {()}:
            return np.stack(v)
        out = np.empty(len(v), object)
        for i, x in enumerate(v):
            out[i] = x[()]
        return out
    else:
        out = np.empty((), object)
        out[()] = v
        return out
    if isinstance(v, (list, tuple)):
        return arr(list(v))
    out = np.empty((), object)
    out[()] = v
    return out


class Line:
    def __init__(self, xyz, color, label, alpha=None, joined=True):
        self.joined = joined
        self.xyz = xyz
        self.color = self._color = color
        self.label = self._label = label
        self.alpha = alpha

    def get_color(self):
        return self.color

    def get_label(self):
        return self.label

    def get_xdata(self, orig=True):
        return self.xyz[0]

    def get_ydata(self, orig=True):
        return self.xyz[1]

    def set_color(self, c):
        self.color = self._color = c

    def set_label(self, c):
        self.label = self._label = c

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Stub()


class Circle:
    def __init__(self, xy, radius=5, **k):
        self.center = tuple(xy)
        self.radius = radius

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Stub()


class Axes:
    def __init__(self, solid):
        self.solid = solid
        self.lines = []
        self.patches = []
        self.texts = []
        self.n = 0
        self.down = [False] * 3
        self.labels = ['', '', '']
        self.xaxis = self.yaxis = self.zaxis = Stub()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Stub()

    def _next(self):
        self.n += 1
        return CYCLE[(self.n - 1) % len(CYCLE)]

    def plot(self, *args, **k):
        args = list(args)
        out = []
        while args:
            num = []
            while args and not isinstance(args[0], str) and len(num) < (
                    3 if self.solid else 2):
                num.append(arr(args.pop(0)))
            fmt = args.pop(0) if args and isinstance(args[0], str) else ''
            if len(num) == 1:
                num = [np.arange(len(np.atleast_1d(num[0]))).astype(object),
                       num[0]]
            num = [np.atleast_1d(v) for v in num]
            if len({v.shape[0] for v in num}) > 1:
                raise ValueError('x and y must have same first dimension')
            num = [v if v.ndim > 1 else v[:, np.newaxis] for v in num]
            n = max(v.shape[1] for v in num)
            style = k.get('linestyle', k.get('ls'))
            if style is None:
                style = '-' if '-' in fmt or ':' in fmt or not any(
                    x in MARKERS for x in fmt) else ''
            joined = style not in ('None', 'none', ' ', '')
            for i in range(n):
                c = k.get('color', k.get('c'))
                if c is None:
                    c = next((LETTERS[x] for x in fmt if x in LETTERS), None)
                if c is None:
                    c = self._next()
                out.append(Line([v[:, min(i, v.shape[1] - 1)] for v in num],
                                c, str(k.get('label', '_')), k.get('alpha'), joined))
        self.lines += out
        return out

    def scatter(self, x, y, *a, **k):
        c = k.get('color', k.get('c')) or self._next()
        self.lines.append(Line([np.atleast_1d(arr(v))
                                for v in [x, y] + ([a[0]] if self.solid
                                                   else [])], c, '_', None,
                               False))
        return self.lines[-1]

    plot3D = plot

    def text(self, x, y, *s, **k):
        self.texts.append((x, y, str(s[-1])))
        return Stub()

    def annotate(self, s, xy, *a, **k):
        self.texts.append((xy[0], xy[1], str(s)))
        return Stub()

    def add_patch(self, p):
        self.patches.append(p)
        return p

    add_artist = add_patch

    def set(self, **k):
        for i, n in enumerate(('xlabel', 'ylabel', 'zlabel')):
            self.labels[i] = k.get(n, self.labels[i])

    def invert_yaxis(self):
        self.down[1] = not self.down[1]

    def invert_zaxis(self):
        self.down[2] = not self.down[2]

    def set_xlabel(self, s, *a, **k):
        self.labels[0] = s

    def set_ylabel(self, s, *a, **k):
        self.labels[1] = s

    def set_zlabel(self, s, *a, **k):
        self.labels[2] = s


class Figure:
    def __init__(self):
        self.axes = []
        self.title = ''

    def add_subplot(self, *a, **k):
        ax = Axes(k.get('projection') == '3d')
        self.axes.append(ax)
        return ax

    def subplots(self, nrows=1, ncols=1, **k):
        ax = [[self.add_subplot(projection=(k.get('subplot_kw') or {}).get(
            'projection')) for _ in range(ncols)] for _ in range(nrows)]
        if nrows * ncols == 1:
            return ax[0][0]
        return np.array(ax[0] if nrows == 1 else [r[0] for r in ax]
                        if ncols == 1 else ax, dtype=object)

    def suptitle(self, s, **k):
        self.title = s

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Stub()


class Cycle:
    def by_key(self):
        return {'color': list(CYCLE)}

    def __iter__(self):
        return iter([{'color': c} for c in CYCLE])


class Plt(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'matplotlib.pyplot')
        self.figs = []
        self.rcParams = {'axes.prop_cycle': Cycle(), 'lines.linewidth': 1.5}
        self.Circle = Circle

    def figure(self, *a, **k):
        self.figs.append(Figure())
        return self.figs[-1]

    def subplots(self, *a, **k):
        f = self.figure()
        return f, f.subplots(*a, **k)

    def gcf(self):
        return self.figs[-1]

    def close(self, *a):
        self.figs.clear()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Stub()


def modules():
    plt = Plt()
    tick = types.ModuleType('matplotlib.ticker')
    tick.AutoMinorLocator = Stub()
    tick.__getattr__ = lambda n: Stub()
    pat = types.ModuleType('matplotlib.patches')
    pat.Circle = Circle
    pat.__getattr__ = lambda n: Stub()
    mpl = types.ModuleType('matplotlib')
    mpl.pyplot, mpl.ticker, mpl.patches = plt, tick, pat
    mpl.rcParams = plt.rcParams
    mpl.__getattr__ = lambda n: Stub()
    return {'matplotlib': mpl, 'matplotlib.pyplot': plt,
            'matplotlib.ticker': tick, 'matplotlib.patches': pat}


# --------------------------------------------------------------------------
class View:
    """axes: list of namespaces (solid, lines, circles, texts, down, labels)
    with lines (coordinates, color, label, joined)"""

    def __init__(self, axes, title):
        self.axes = axes
        self.title = title


def to_hex(c):
    import matplotlib.colors as m
    if hasattr(c, 'get_facecolors'):
        c = c.get_facecolors()
        c = c[0] if len(c) else None
    return None if c is None else m.to_hex(c)


def view(fig):
    out = []
    for ax in fig.axes:
        v = types.SimpleNamespace(lines=[], circles=[], texts=[])
        if isinstance(ax, Axes):
            v.solid, v.down, v.labels = ax.solid, list(ax.down), ax.labels
            for ln in ax.lines:
                if ln.alpha != 0.:
                    v.lines.append((ln.xyz, to_hex(ln.color), ln.label,
                                    ln.joined))
            v.texts = list(ax.texts)
            v.circles = [(p.center, p.radius) for p in ax.patches
                         if isinstance(p, Circle)]
        else:
            v.solid = hasattr(ax, 'get_zlim')
            v.down = [ax.xaxis_inverted(), ax.yaxis_inverted(),
                      v.solid and ax.zaxis_inverted()]
            v.labels = [ax.get_xlabel(), ax.get_ylabel(),
                        ax.get_zlabel() if v.solid else '']
            for ln in ax.lines:
                if ln.get_alpha() == 0.:
                    continue
                xyz = ln.get_data_3d() if v.solid else (
                    ln.get_xdata(orig=True), ln.get_ydata(orig=True))
                v.lines.append(([np.atleast_1d(np.asarray(c, float))
                                 for c in xyz], to_hex(ln.get_color()),
                                ln.get_label(), ln.get_linestyle() not in
                                ('None', 'none', ' ', '')))
            for c in ax.collections:      # scatter
                o = c._offsets3d if v.solid else np.asarray(
                    c.get_offsets()).T
                v.lines.append(([np.atleast_1d(np.asarray(k, float))
                                 for k in o], to_hex(c), c.get_label(), False))
            v.texts = [tuple(t.get_position()) + (t.get_text(),)
                       for t in ax.texts]
            v.circles = [(p.center, p.radius) for p in ax.patches
                         if type(p).__name__ == 'Circle']
        out.append(v)
    t = fig.title if isinstance(fig, Figure) else fig.get_suptitle()
    return View(out, t)
