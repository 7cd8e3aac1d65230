"""Recording model of matplotlib.pyplot: what each saved figure shows; everything else of matplotlib is the real one"""
import importlib
import types

from . import vfs
from .core import Unsupported

KINDS = ('contourf', 'contour', 'pcolormesh', 'pcolor', 'plot', 'imshow', 'scatter', 'tricontourf', 'tricontour')


class Any:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Any()

    def __call__(self, *a, **k):
        return Any()

    def __iter__(self):
        return iter(())


class Axes:
    def __init__(self, fig):
        self.figure = fig
        self.maps, self.xl, self.yl = [], '', ''

    def set_xlabel(self, s, *a, **k):
        self.xl = s

    def set_ylabel(self, s, *a, **k):
        self.yl = s

    def set(self, **k):
        self.xl, self.yl = k.get('xlabel', self.xl), k.get('ylabel', self.yl)

    def cla(self):
        self.__init__(self.figure)

    clear = cla

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if n in KINDS:

            def f(*a, **k):
                if n == 'contourf' and len(a) >= 3:
                    z = a[2]
                    if len(z.shape) != 2:
                        raise TypeError(f"Input z must be 2D, not {len(z.shape)}D")
                    if z.shape[0] < 2 or z.shape[1] < 2:
                        raise TypeError(f"Input z must be at least a (2, 2) shaped array, but has shape {z.shape}")
                    for v, m in ((a[0], 1), (a[1], 0)):
                        if len(v.shape) == 1 and v.shape[0] != z.shape[m]:
                            raise TypeError(f"Length of axis ({v.shape[0]}) must match z ({z.shape[m]})")
                self.maps.append((n, [x.copy() if hasattr(x, 'copy') else x for x in a], k))
                return Any()

            return f
        return Any()


class Figure:
    def __init__(self, num):
        self.number, self.axes = num, []

    def gca(self, *a, **k):
        if not self.axes:
            self.axes.append(Axes(self))
        return self.axes[-1]

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    add_axes = add_subplot

    def subplots(self, nrows=1, ncols=1, **k):
        if nrows * ncols != 1:
            raise Unsupported("several axes in a figure")
        return self.add_subplot()

    def clf(self, *a, **k):
        self.axes = []

    clear = clf

    def savefig(self, fname, *a, **k):
        fs = vfs.FS
        key = fs.key(fname)
        fs.writes.append(('w', key))
        f = vfs.File()
        f.obj = snapshot(self.axes, lambda x: (x.maps, x.xl, x.yl))
        fs.files[key] = f

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Any()


def snapshot(axes, get):
    return [dict(maps=list(m), xlabel=x, ylabel=y) for m, x, y in map(get, axes) if m]


class Pyplot(types.ModuleType):
    def __init__(self):
        super().__init__('matplotlib.pyplot')
        self.__dict__.update(_figs={}, _cur=None, Figure=Figure, Axes=Axes)

    def figure(self, num=None, *a, **k):
        if isinstance(num, Figure):
            num = num.number
        if num is None:
            num = max(self._figs, default=0) + 1
        if num not in self._figs:
            self._figs[num] = Figure(num)
        if k.get('clear'):
            self._figs[num].clf()
        self.__dict__['_cur'] = num
        return self._figs[num]

    def gcf(self):
        return self._figs[self._cur] if self._cur is not None else self.figure()

    def gca(self, *a, **k):
        return self.gcf().gca()

    def sca(self, ax):
        self.__dict__['_cur'] = ax.figure.number

    def subplots(self, nrows=1, ncols=1, num=None, clear=False, **k):
        f = self.figure(num, clear=clear)
        return f, f.subplots(nrows, ncols)

    def subplot(self, *a, **k):
        return self.gca()

    def xlabel(self, s, *a, **k):
        self.gca().set_xlabel(s)

    def ylabel(self, s, *a, **k):
        self.gca().set_ylabel(s)

    def clf(self):
        self.gcf().clf()

    def cla(self):
        self.gca().cla()

    def close(self, fig=None):
        if fig == 'all':
            self._figs.clear()
            self.__dict__['_cur'] = None
            return
        num = self._cur if fig is None else fig.number if isinstance(fig, Figure) else fig
        self._figs.pop(num, None)
        self.__dict__['_cur'] = max(self._figs, default=None)

    def savefig(self, *a, **k):
        self.gcf().savefig(*a, **k)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if n in KINDS:
            return getattr(self.gca(), n)
        return Any()


class Matplotlib(types.ModuleType):
    def __init__(self):
        super().__init__('matplotlib')
        self.__dict__['pyplot'] = Pyplot()

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        m = importlib.import_module('matplotlib')
        try:
            return getattr(m, n)
        except AttributeError:
            try:
                return importlib.import_module('matplotlib.' + n)
            except ImportError:
                raise AttributeError(n) from None


def record():
    """the same record of the figures saved by the real matplotlib; returns (figures, undo)"""
    import matplotlib

    matplotlib.use('Agg')
    import matplotlib.axes
    import matplotlib.figure
    import matplotlib.pyplot as plt

    plt.close('all')
    out, undo = {}, []

    def patch(cls, name, f):
        old = getattr(cls, name)
        setattr(cls, name, f(old))
        undo.append(lambda: setattr(cls, name, old))

    def shown(kind):
        def mk(old):
            def f(self, *a, **k):
                self.__dict__.setdefault('_shown', []).append((kind, [x.copy() if hasattr(x, 'copy') else x for x in a], dict(k)))
                return old(self, *a, **k)

            return f

        return mk

    for k in KINDS:
        patch(matplotlib.axes.Axes, k, shown(k))

    def cleared(old):
        def f(self, *a, **k):
            self.__dict__['_shown'] = []
            return old(self, *a, **k)

        return f

    patch(matplotlib.axes.Axes, 'clear', cleared)

    def saved(old):
        def f(self, fname, *a, **k):
            import os

            out[os.path.abspath(str(fname))] = snapshot(self.axes, lambda x: (x.__dict__.get('_shown', []) if not hasattr(x, '_colorbar') else [], x.get_xlabel(), x.get_ylabel()))
            with open(fname, 'wb') as h:  # drawing takes long and shows nothing more
                h.write(b'figure')

        return f

    patch(matplotlib.figure.Figure, 'savefig', saved)

    def end():
        for u in undo[::-1]:
            u()
        plt.close('all')

    return out, end
