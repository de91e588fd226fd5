"""Recording stand-in for the plotting libraries: what is drawn where, and in which saved file.

Used in both modes; only data-carrying calls are kept, everything else (titles, colours, ...) is accepted and ignored.
"""
import types

import numpy as np

from . import core, snp
from .snp import SymArray


class Anything:
    """accepts every use"""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __getitem__(self, k):
        return Anything()

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter(())

    def __enter__(self):
        return Anything()

    def __exit__(self, *a):
        return False

    def _num(self, *a):
        return 0
    __mul__ = __rmul__ = __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = _num


class AnyModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()


def values(x):
    """1-d or 2-d data as an array of the mode's kind"""
    if isinstance(x, SymArray):
        return x
    if hasattr(x, 'to_numpy'):
        return x.to_numpy()
    if isinstance(x, (np.ndarray, int, float, core.Sym)):
        return x
    return snp.array(x) if any(isinstance(v, core.Sym) or isinstance(v, SymArray) for v in x) else np.asarray(x)


def listed(x):
    if isinstance(x, SymArray):
        return list(snp.plain(x).reshape(-1))
    if isinstance(x, np.ndarray):
        return [snp.native(v) for v in x.reshape(-1)]
    return [x]


def columns(x):
    x = values(x)
    if np.ndim(x) < 2:
        return [listed(x)]
    if np.ndim(x) > 2:
        raise ValueError('x and y can be no greater than 2D')
    return [listed(x[:, c]) for c in range(np.shape(x)[1])]


def broad(e, n):
    """an error argument per point: (low, high)"""
    if e is None:
        return None
    v = values(e)
    if np.ndim(v) == 2 and np.shape(v)[0] == 2:
        return [(a, b) for a, b in zip(listed(v[0]), listed(v[1]))]
    v = listed(v)
    if len(v) == 1:
        v = v * n
    if len(v) != n:
        raise ValueError("'err' must be a scalar or a 1D or (2, n) array-like")
    return [(a, a) for a in v]


class Axes:
    def __init__(self, rec, fig, key):
        self.__dict__.update(rec=rec, fig=fig, figure=fig, key=key, items=[])

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def _add(self, kind, **k):
        self.items.append(dict(kind=kind, **k))
        return Anything()

    def plot(self, *a, data=None, **k):
        a = list(a)
        if data is not None:
            a = [data[v] if isinstance(v, str) and v in data else v for v in a]
        while a:
            if len(a) > 1 and not isinstance(a[1], str):
                x, y = a[0], a[1]
                del a[:2]
            else:
                y = a.pop(0)
                x = np.arange(np.shape(values(y))[0])
            if a and isinstance(a[0], str):
                del a[0]
            xs, ys = columns(x), columns(y)
            if len(xs[0]) != len(ys[0]):
                raise ValueError('x and y must have same first dimension')
            if len(xs) > 1 and len(ys) > 1 and len(xs) != len(ys):
                raise ValueError('x has another number of columns than y')
            for i in range(max(len(xs), len(ys))):
                self._add('line', x=xs[i % len(xs)], y=ys[i % len(ys)], style=k)
        return [Anything()]

    def scatter(self, x, y, *a, data=None, **k):
        if data is not None:
            x, y = (data[v] if isinstance(v, str) else v for v in (x, y))
        x, y = listed(values(x)), listed(values(y))
        if len(x) != len(y):
            raise ValueError('x and y must be the same size')
        return self._add('line', x=x, y=y, style=k)

    def errorbar(self, x, y, yerr=None, xerr=None, fmt='', **k):
        x, y = listed(values(x)), listed(values(y))
        if len(x) != len(y):
            raise ValueError("'x' and 'y' must have the same size")
        return self._add('error', x=x, y=y, yerr=broad(yerr, len(x)), xerr=broad(xerr, len(x)), style=k)

    def fill_between(self, x, y1, y2=0, **k):
        x, y1, y2 = (listed(values(v)) for v in (x, y1, y2))
        y1, y2 = (v * len(x) if len(v) == 1 else v for v in (y1, y2))
        if len(x) != len(y1) or len(x) != len(y2):
            raise ValueError('sizes differ')
        return self._add('band', x=x, y1=y1, y2=y2)

    def axhline(self, y=0, *a, **k):
        return self._add('hline', y=listed(values(y)))

    def axvline(self, x=0, *a, **k):
        return self._add('vline', x=listed(values(x)))

    def hlines(self, y, *a, **k):
        for v in listed(values(y)):
            self._add('hline', y=[v])

    def _contour(self, kind, a, k):
        if len(a) < 3:
            raise core.Unsupported('contour without coordinates')
        z = values(a[2])
        x, y = listed(values(a[0])), listed(values(a[1]))
        if np.shape(z) != (len(y), len(x)):
            raise TypeError('Length of x must match number of columns in z')
        if len(x) < 2 or len(y) < 2:
            raise TypeError('Input z must be at least a (2, 2) shaped array')
        return self._add(kind, x=x, y=y, z=z, levels=k.get('levels', a[3] if len(a) > 3 else None))

    def contourf(self, *a, **k):
        return self._contour('filled', a, k)

    def contour(self, *a, **k):
        return self._contour('contour', a, k)

    def annotate(self, text, xy, *a, **k):
        return self._add('text', text=text, x=[xy[0]], y=[xy[1]])

    def text(self, x, y, s, *a, **k):
        return self._add('text', text=s, x=[x], y=[y])


class Figure:
    def __init__(self, rec, num):
        self.__dict__.update(rec=rec, number=num, axes=[], cur=None)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def gca(self):
        return self.cur or self.add_subplot(1, 1, 1)

    def add_subplot(self, *key, **k):
        if not key:
            key = (1, 1, 1)
        if len(key) == 1:
            key = tuple(int(c) for c in str(key[0]))
        for a in self.axes:
            if a.key == key:
                self.__dict__['cur'] = a
                return a
        a = Axes(self.rec, self, key)
        self.axes.append(a)
        self.__dict__['cur'] = a
        return a

    def subplots(self, nrows=1, ncols=1, **k):
        ax = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                ax[i, j] = self.add_subplot(nrows, ncols, i * ncols + j + 1)
        if k.get('squeeze', True):
            ax = ax.squeeze()
            if ax.ndim == 0:
                return ax[()]
        return ax

    def savefig(self, name, *a, **k):
        self.rec.saved.append((str(name), [(x.key, list(x.items)) for x in self.axes if x.items]))

    def clf(self):
        self.__dict__.update(axes=[], cur=None)
    clear = clf


class Recorder:
    """state of the plotting library; `closing` tells whether showing a figure closes it (interactive use)"""

    def __init__(self):
        self.figs, self.cur, self.saved, self.closing = {}, None, [], True
        plt = AnyModule('matplotlib.pyplot')
        for n in ('figure', 'gcf', 'gca', 'subplot', 'subplots', 'savefig', 'show', 'close', 'clf', 'sca'):
            plt.__dict__[n] = getattr(self, n)
        for n in ('plot', 'scatter', 'errorbar', 'fill_between', 'axhline', 'axvline', 'hlines', 'contour', 'contourf', 'annotate', 'text'):
            plt.__dict__[n] = (lambda n: lambda *a, **k: getattr(self.gca(), n)(*a, **k))(n)
        self.plt = plt
        top = AnyModule('matplotlib')
        top.__dict__.update(pyplot=plt, pylab=plt)
        self.top = top

    def module(self, name, fromlist):
        if not fromlist:
            return self.top
        if name in ('matplotlib.pyplot', 'matplotlib.pylab', 'pylab'):
            return self.plt
        if name == 'matplotlib':
            return self.top
        return AnyModule(name)

    def figure(self, num=None, **k):
        if isinstance(num, Figure):
            num = num.number
        if num is None:
            num = max(self.figs, default=0) + 1
        if num not in self.figs:
            self.figs[num] = Figure(self, num)
        self.cur = self.figs[num]
        return self.cur

    def gcf(self):
        return self.cur or self.figure()

    def gca(self, **k):
        return self.gcf().gca()

    def subplot(self, *a, **k):
        return self.gcf().add_subplot(*a)

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        return f, f.subplots(nrows, ncols, **{x: v for x, v in k.items() if x == 'squeeze'})

    def sca(self, ax):
        self.cur = ax.fig
        ax.fig.__dict__['cur'] = ax

    def savefig(self, *a, **k):
        self.gcf().savefig(*a, **k)

    def clf(self):
        self.gcf().clf()

    def show(self, *a, **k):
        if self.closing:
            self.close('all')

    def close(self, which=None):
        if which == 'all':
            self.figs, self.cur = {}, None
            return
        f = which if isinstance(which, Figure) else self.figs.get(which, self.cur if which is None else None)
        if f is not None:
            self.figs.pop(f.number, None)
            self.cur = self.figs[max(self.figs)] if self.figs else None


class Frame:
    """the part of pandas.DataFrame that tables of columns need (symbolic mode)"""

    def __init__(self, data=None, index=None, columns=None, **k):
        if index is not None or columns is not None or not isinstance(data, dict):
            raise core.Unsupported('DataFrame form')
        self.cols = {n: snp.array(v) for n, v in data.items()}
        size = {int(np.shape(v)[0]) for v in self.cols.values()}
        if len(size) > 1:
            raise ValueError('All arrays must be of the same length')
        self.index = range(size.pop() if size else 0)

    def __getitem__(self, n):
        if not isinstance(n, str):
            raise core.Unsupported('DataFrame selection')
        return self.cols[n]

    def __contains__(self, n):
        return n in self.cols

    def __len__(self):
        return len(self.index)

    @property
    def columns(self):
        return list(self.cols)

    @property
    def shape(self):
        return (len(self.index), len(self.cols))

    def itertuples(self, index=True, name='Pandas'):
        for i in self.index:
            d = {n: snp.native(c[i]) for n, c in self.cols.items()}
            if not index:
                yield tuple(d.values())
            else:
                yield types.SimpleNamespace(Index=i, **d)

    def iterrows(self):
        for i in self.index:
            yield i, {n: snp.native(c[i]) for n, c in self.cols.items()}


def pandas_stub():
    m = AnyModule('pandas')
    m.__dict__['DataFrame'] = Frame
    return m
