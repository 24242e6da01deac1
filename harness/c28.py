"""C28 plots show every value at the voltages it was measured at"""
import contextlib
import os
import re
import shutil
import tempfile

import numpy as np

from symx import core
from symx.arr import asarr
from symx.harness import Scenario

FUNCTIONS = ['plot_csd (1D and 2D)']
BOUNDS = 'data arbitrary reals in [-8, 8]; sweep ranges arbitrary reals in [-8, 8] (ends different where swept), every combination of sweep directions; 1D 2..4, 2D up to 3x2; sorted and unsorted; 2..5 ticks; default and given labels, title, no colour bar'
OUTSIDE = 'pixels, colours and fonts (matplotlib itself); voltages are labelled with three decimals (compared to 0.00051)'
ASSUMPTIONS = ['imshow(origin="lower") draws element [r, c] at x = c, y = r (or inside the given extent), plot(y) draws element i at x = i: the replay reads them back from matplotlib']
V = 8


class Plot:
    """pyplot, figure, axes and colour bar in one: records what is drawn"""
    conc = False            # the replay uses matplotlib

    def __init__(self, e):
        self.__dict__['s'] = e.plot = dict(image=None, origin=None, extent=None, line=None, x=None, xt=None, xl=None, yt=None, yl=None, xlabel='', ylabel='', title='', bar=None, saved=[])

    def imshow(self, data, *a, origin='upper', extent=None, **k):
        self.s.update(image=asarr(data).copy(), origin=origin, extent=extent)
        return self

    def plot(self, *a, **k):
        y = asarr(a[1] if len(a) > 1 and not isinstance(a[1], str) else a[0]).copy()
        self.s.update(line=y, x=asarr(a[0]).copy() if len(a) > 1 and not isinstance(a[1], str) else np.arange(len(y)))
        return [self]

    def xticks(self, ticks=None, labels=None, **k):
        if ticks is not None:
            self.s['xt'] = list(ticks)
        if labels is not None:
            self.s['xl'] = [str(x) for x in labels]

    def yticks(self, ticks=None, labels=None, **k):
        if ticks is not None:
            self.s['yt'] = list(ticks)
        if labels is not None:
            self.s['yl'] = [str(x) for x in labels]

    set_xticks, set_yticks = xticks, yticks

    def set_xticklabels(self, labels, **k):
        self.xticks(labels=labels)

    def set_yticklabels(self, labels, **k):
        self.yticks(labels=labels)

    def xlabel(self, t, **k):
        self.s['xlabel'] = t

    def ylabel(self, t, **k):
        self.s['ylabel'] = t

    def title(self, t, **k):
        self.s['title'] = t

    set_xlabel, set_ylabel, set_title = xlabel, ylabel, title

    def colorbar(self, *a, label='', **k):
        self.s['bar'] = label
        return self

    def set_label(self, label, **k):
        self.s['bar'] = label

    def savefig(self, path, *a, **k):
        self.s['saved'].append(path)

    def subplots(self, *a, **k):
        return self, self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self if n in ('ax', 'axes', 'figure') else (lambda *a, **k: self)


def replay_state(path):
    """the same, read back from matplotlib"""
    from matplotlib import pyplot as plt
    fig = plt.gcf()
    ax = fig.axes[0]
    s = dict(image=None, origin=None, extent=None, line=None, x=None, saved=[path] if path is not None and os.path.exists(path) and os.path.getsize(path) else [])
    if ax.images:
        im = ax.images[0]
        s.update(image=np.asarray(im.get_array()), origin=im.origin, extent=im.get_extent())
    if ax.lines:
        s.update(line=np.asarray(ax.lines[0].get_ydata(), float), x=np.asarray(ax.lines[0].get_xdata(), float))
    s.update(xt=list(ax.get_xticks()), yt=list(ax.get_yticks()), xl=[t.get_text().replace('\N{MINUS SIGN}', '-') for t in ax.get_xticklabels()], yl=[t.get_text().replace('\N{MINUS SIGN}', '-') for t in ax.get_yticklabels()],
             xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), title=ax.get_title(), bar=fig.axes[1].get_ylabel() if len(fig.axes) > 1 else None)
    return s


@contextlib.contextmanager
def drawn(e):
    from matplotlib import pyplot as plt
    plt.close('all')
    old, core.TEXT = core.TEXT, [] if e.sym else None
    d = tempfile.mkdtemp(prefix='c28_')
    try:
        yield d
    finally:
        core.TEXT = old
        plt.close('all')
        shutil.rmtree(d, ignore_errors=True)


NUM = r'[-+]?\d+(?:\.\d+)?(?:e[-+]?\d+)?'


def numbers(text):
    return [core.read_number(t) for t in re.findall(NUM, text)]


def volt(lim, pos, n):
    """voltage of position pos on an axis of n pixels"""
    return lim[0] if n == 1 else lim[0] + (lim[1] - lim[0]) * pos / (n - 1)


def plotted(e, shape, dirs, sort=True, ticks=None, labels=None, unit=None, title=None, sensor='default', save=False, container='array'):
    from simcats.support_functions import plot_csd
    csd = e.reals('c', shape, -V, V)
    g1, g2 = e.reals('g1', 2, -V, V), e.reals('g2', 2, -V, V)
    for g, d in zip((g1, g2), dirs):
        if d == '0':
            g[1] = g[0]
        else:
            e.assume(g[1] - g[0] >= 0.25 if d == '+' else g[0] - g[1] >= 0.25)
    c0, g10, g20 = csd.copy(), g1.copy(), g2.copy()
    kw = {}
    if not sort:
        kw['sort_volts'] = False
    nx, ny = ticks or (5, 5)
    if ticks:
        kw.update(num_xticks=nx, num_yticks=ny)
    if labels:
        kw['gate_labels'] = labels
    if unit:
        kw['voltage_unit'] = unit
    if title is not None:
        kw['title'] = title
    if sensor != 'default':
        kw['sensor_label'] = sensor
    with drawn(e) as d:
        path = os.path.join(d, 'plot.png') if save else None
        if save:
            kw['save_path'] = path
        con = (lambda x: x) if container == 'array' else (lambda x: [x[0], x[1]])
        plot_csd(csd, con(g1), con(g2), **kw)
        s = e.plot if e.sym else replay_state(path)
        e.eq(csd, c0, 'the data are not modified')
        e.eq(g1, g10, 'the ranges are not modified')
        e.eq(g2, g20, 'the ranges are not modified')
        names = labels or ['g1', 'g2']
        u = unit or 'V'
        want = 'Sensor signal [a.u.]' if sensor == 'default' else sensor
        e.check((s['title'] or '') == (title or ''), 'the title is shown')
        e.check(s['saved'] == ([path] if save else []), 'the plot is saved exactly where asked')
        flip1, flip2 = dirs[0] == '-' and sort, dirs[1] == '-' and sort
        if len(shape) == 1:
            flip2 = flip1
        l1 = (g10[1], g10[0]) if flip1 else (g10[0], g10[1])
        l2 = (g20[1], g20[0]) if flip2 else (g20[0], g20[1])
        if len(shape) == 2:
            e.check(s['image'] is not None and s['image'].shape == tuple(shape), 'every pixel is drawn')
            e.check(s['origin'] == 'lower', 'rows from bottom to top')
            x = list(s['extent']) if s['extent'] is not None else [-0.5, shape[1] - 0.5, -0.5, shape[0] - 0.5]
            e.check([x[1] > x[0], x[3] > x[2]], 'columns from left to right, rows from bottom to top')
            im = s['image']
            e.observe('image', im)
            e.eq(im, c0[::-1 if flip2 else 1, ::-1 if flip1 else 1], 'pixel [row, column] shows the value measured at the voltages labelled there')
            e.check([s['xlabel'] == f'{names[0]} [{u}]', s['ylabel'] == f'{names[1]} [{u}]'], 'the axes are labelled with their gates')
            e.check(s['bar'] == want, 'the colour bar is labelled, and only drawn when wanted')
            for t, lab, lim, n, m, what, o, end in ((s['xt'], s['xl'], l1, shape[1], nx, 'gate 1', x[0], x[1]), (s['yt'], s['yl'], l2, shape[0], ny, 'gate 2', x[2], x[3])):
                e.check(len(t) == m and len(lab) == m, 'the requested number of ticks')
                t = [(v - o) / (end - o) * n - 0.5 for v in t]          # in pixels
                e.close(list(t), list(np.linspace(0, n - 1, m)), 'ticks are spread evenly over the axis', 1e-9)
                v = [numbers(x) for x in lab]
                e.check([len(x) == 1 for x in v], 'one voltage per tick')
                for k in range(m):
                    e.check(abs(v[k][0] - volt(lim, t[k], n)) <= 0.00051, f'ticks carry the voltage of {what} at their position')
        else:
            e.observe('line', s['line'])
            e.eq(s['line'], c0[::-1] if flip1 else c0, 'element i of the curve is the value measured at the voltages labelled there')
            e.eq(list(s['x']), list(range(shape[0])), 'the curve has one point per pixel')
            e.check([s['xlabel'] == f'({names[0]};{names[1]}) [{u}]', s['ylabel'] == want], 'the axes are labelled')
            e.check(len(s['xt']) == nx and len(s['xl']) == nx, 'the requested number of ticks')
            e.close(list(s['xt']), list(np.linspace(0, shape[0] - 1, nx)), 'ticks are spread evenly over the axis', 1e-9)
            for k in range(nx):
                v = numbers(s['xl'][k])
                e.check(len(v) == 2, 'two voltages per tick')
                for j, lim in ((0, l1), (1, l2)):
                    e.check(abs(v[j] - volt(lim, s['xt'][k], shape[0])) <= 0.00051, f'ticks carry the voltage of gate {j + 1} at their position')
            y = s['yt']
            e.check(len(y) == ny, 'the requested number of ticks')
            if ny > 1:
                e.check([core.and_(y[0] <= c + 1e-9, y[-1] >= c - 1e-9) for c in c0], 'the value ticks span the data')
                e.close([y[k + 1] - y[k] for k in range(ny - 1)], [(y[-1] - y[0]) / (ny - 1)] * (ny - 1), 'the value ticks are evenly spaced', 1e-6)


def scenarios(tier):
    from matplotlib import pyplot as plt
    import matplotlib
    matplotlib.use('agg')
    S = []
    f = {plt: Plot}

    def add(name, **kw):
        S.append(Scenario(name, plotted, kw, foreign=f))
    for sort in (True, False):
        so = 'sorted' if sort else 'as measured'
        for d in ('++', '-+', '+-', '--'):
            for s in ((2, 3), (3, 2)) if sort or d != '++' else ((2, 3),):
                add(f"2D {'x'.join(map(str, s))} {d} {so}", shape=s, dirs=d, sort=sort, ticks=(2, 3))
            add(f'1D {d} {so}', shape=(3,), dirs=d, sort=sort, ticks=(3, 2))
        for d in ('+0', '-0', '0+', '0-'):
            add(f'1D {d} {so}', shape=(3,), dirs=d, sort=sort, ticks=(2, 2))
    add('2D default ticks', shape=(2, 3), dirs='+-')
    add('1D default ticks', shape=(4,), dirs='-+')
    add('2D lists', shape=(2, 2), dirs='--', ticks=(2, 2), container='list')
    add('1D lists', shape=(2,), dirs='--', ticks=(2, 2), container='list')
    add('2D one row', shape=(1, 3), dirs='-+', ticks=(2, 1))
    add('2D one column', shape=(3, 1), dirs='+-', ticks=(1, 2))
    for s in ((2, 2), (3,)):
        n = f'{len(s)}D'
        add(f'{n} labels', shape=s, dirs='-+', ticks=(2, 2), labels=['P1', 'P2'], unit='mV', title='T', sensor='I [nA]')
        add(f'{n} saved', shape=s, dirs='-+', ticks=(2, 2), save=True)
        add(f'{n} empty title', shape=s, dirs='+-', ticks=(2, 2), title='')
    add('2D no colour bar', shape=(2, 2), dirs='+-', ticks=(2, 2), sensor=None)
    add('2D colour bar without label', shape=(2, 2), dirs='+-', ticks=(2, 2), sensor='')
    if tier == 'thorough':
        for d in ('++', '-+', '+-', '--'):
            add(f'2D 4x5 {d}', shape=(4, 5), dirs=d, ticks=(5, 4))
            add(f'1D 7 {d}', shape=(7,), dirs=d, ticks=(5, 5))
    return S
