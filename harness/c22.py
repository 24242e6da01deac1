"""C22 transition blurring"""
import math

import numpy as np

from symx import core
from symx.core import is_sym
from symx.harness import Scenario
from . import convstub
from .c20 import sampler

FUNCTIONS = ['OccupationTransitionBlurringGaussian.noise_function', 'OccupationTransitionBlurringFermiDirac.noise_function', 'fermi_filter1d', 'fermi_dirac_derivative', 'setters']
BOUNDS = 'occupations arbitrary reals in [-8, 8]; 1D 1..6 and 2D up to 3x5 pixels; sweep ranges arbitrary (any direction, g1 only, g2 only, both); width: arbitrary (also sampled, zero, negative) with a kernel radius up to 3 pixels for the conversion, 9 concrete pixel widths 0.05..2.5 for the convolution itself; fresh and frozen application'
OUTSIDE = 'larger images and wider kernels; rounding'
ASSUMPTIONS = ['scipy.ndimage.convolve1d / gaussian_filter1d compute the documented convolution (every witness replay uses scipy itself)']
V = 8
WIDTHS = [0.05, 0.12, 0.3, 0.5, 0.75, 1.0, 1.3, 1.9, 2.5]


def cls(kind):
    import simcats.distortions as d
    return d.OccupationTransitionBlurringGaussian if kind == 'gauss' else d.OccupationTransitionBlurringFermiDirac


def weights(kind, sigma):
    r = int(4 * sigma + 0.5) if kind == 'gauss' else round(4 * sigma)
    k = [math.exp(-0.5 * i * i / sigma ** 2) if kind == 'gauss' else 1 / math.cosh(i / sigma) ** 2 for i in range(-r, r + 1)]
    return [v / sum(k) for v in k]


def conv(rows, w, mode='reflect', cval=0.0):
    r = len(w) // 2
    out = []
    for row in rows:
        n = len(row)
        o = []
        for i in range(n):
            s = 0.0
            for j in range(len(w)):
                m = convstub.border(i + j - r, n, mode)      # symmetric kernel
                s = s + w[j] * (cval if m is None else row[m])
            o.append(s)
        out.append(o)
    return out


def limits(e, mode, a, b):
    """sweeps with concrete lengths a, b (sign: direction) at arbitrary positions"""
    x, y = e.real('v1', -V, V), e.real('v2', -V, V)
    return e.array([x, x + (0 if mode == 'g2' else a)]), e.array([y, y + (0 if mode == 'g1' else b)])


def occupations(e, shape, tag=''):
    occ = e.reals('occ' + tag, shape + (2,), -V, V)
    lead = e.integers('lead' + tag, shape, 0, 1)
    return occ, lead


def call(D, kind, occ, lead, g1, g2, freeze):
    return D.noise_function(occ, lead, g1, g2, None, freeze) if freeze else D.noise_function(occ, lead, g1, g2)


def rows_of(occ, shape, dot):
    return [[occ[i, dot] for i in range(shape[0])]] if len(shape) == 1 else [[occ[y, x, dot] for x in range(shape[1])] for y in range(shape[0])]


def kernel(e, kind, shape, mode, width, a=0.4, b=-0.2, how='fixed'):
    """the convolution for a given pixel width: all data"""
    g1, g2 = limits(e, mode, a, b)
    n = shape[0] if len(shape) == 1 else shape[1]
    if len(shape) == 2 or mode == 'g1':
        dens = n / abs(a)
    elif mode == 'g2':
        dens = n / abs(b)
    else:
        dens = max(n / abs(a), n / abs(b))
    sigma = width / dens
    D = cls(kind)(sigma)
    if how == 'set':
        D = cls(kind)(123.0)
        D.sigma = sigma
    for k, freeze in enumerate((False, True)):
        occ, lead = occupations(e, shape, str(k))
        o0, l0 = occ.copy(), lead.copy()
        o, l = call(D, kind, occ, lead, g1, g2, freeze)
        e.observe(f'o{k}', o)
        e.eq(np.shape(o), shape + (2,), 'occupations keep their shape')
        e.eq(l, l0, 'lead transitions are never altered')
        e.check(D.latest_sigma == sigma, 'the width used is reported')
        w = weights(kind, width)
        sums, vals = [], []
        for dot in (0, 1):
            old, new = rows_of(o0, shape, dot), rows_of(o, shape, dot)
            for r0, r1, ex in zip(old, new, conv(old, w)):
                s = 0.0
                for p, q in zip(r0, r1):
                    s = s + (p - q)
                sums.append(s)
                vals += [u - v for u, v in zip(r1, ex)]
        e.close(sums, [0.0] * len(sums), 'blurring keeps the total weight of every line', 1e-5)
        e.close(vals, [0.0] * len(vals), 'occupations of each dot are convolved with the kernel of the configured width along the sweep', 1e-5)


class Log:
    """records the width / weights the scipy filter is called with"""

    def __init__(self):
        self.calls = []


def logged(name):
    import scipy.ndimage as nd
    real = getattr(nd, name)
    sym = {'convolve1d': convstub.stub_convolve1d, 'gaussian_filter1d': convstub.stub_gaussian_filter1d}[name]

    def stub(e):
        f = sym(e) if e.sym else real

        def g(input, arg=None, axis=-1, **k):
            if arg is None:
                arg = k.pop('weights', k.pop('sigma', None))
            e.filterlog.append((name, np.shape(input), arg, axis))
            if e.sym:
                # the convolution itself is decided by the kernel scenarios
                return e.array(np.zeros(np.shape(input)))
            return f(input, arg, axis=axis, **k)
        return g
    return stub


def logged_fermi(e):
    from simcats.support_functions import fermi_filter1d as real

    def fermi_filter1d(input, sigma, axis=-1, **k):
        e.filterlog.append(('fermi_filter1d', np.shape(input), sigma, axis))
        return e.array(np.zeros(np.shape(input))) if e.sym else real(input, sigma, axis, **k)
    return fermi_filter1d


def log_foreign():
    import scipy.ndimage as nd
    from simcats.support_functions import fermi_filter1d
    return {fermi_filter1d: logged_fermi, nd.convolve1d: logged('convolve1d'), nd.gaussian_filter1d: logged('gaussian_filter1d')}


def scale(e, kind, shape, mode, sampled=False, dirs='++', repeat=1):
    """conversion of the width: all widths, all ranges"""
    e.filterlog = []
    n = shape[0] if len(shape) == 1 else shape[1]
    g1, g2 = e.reals('g1', 2, -2, 2), e.reals('g2', 2, -2, 2)
    a, b = [(g[1] - g[0]) if d == '+' else (g[0] - g[1]) for g, d in zip((g1, g2), dirs)]
    if mode == 'g1':
        g2[1] = g2[0]
    else:
        e.assume(b >= 0.01)
    if mode == 'g2':
        g1[1] = g1[0]
    else:
        e.assume(a >= 0.01)
    sp = sampler(e, 'sigma', -1, V) if sampled else e.real('sigma', -1, V)
    D = cls(kind)(sp)
    # gate whose pixel density counts
    if len(shape) == 2 or mode == 'g1':
        d = a
    elif mode == 'g2':
        d = b
    else:
        d = core.smin(a, b)
    for k in range(repeat):
        for freeze in (False, True):
            occ, lead = occupations(e, shape, f'{k}{freeze}')
            o0, l0 = occ.copy(), lead.copy()
            s = e.real(f'sigma{k + 1}', -1, V) if sampled else sp
            e.assume(s * n <= 0.8 * d)
            del e.filterlog[:]
            o, l = call(D, kind, occ, lead, g1, g2, freeze)
            e.eq(l, l0, 'lead transitions are never altered')
            e.close(D.latest_sigma, s, 'the width used is reported', 0)
            if sampled:
                e.check(sp.n == k + 1, 'one width is sampled per measurement and reused by the frozen application')
            if not e.filterlog:
                e.eq(o, o0, 'not filtered: occupations stay as they are')
                e.check(core.or_(s <= 0, s * n <= 0.125 * d * 1.001), 'positive widths are applied')
                continue
            e.check(s > 0, 'zero and negative widths leave the occupations as they are')
            for nm, shp, arg, axis in e.filterlog:
                e.check(len(shp) == 1 or axis in (-1, len(shp) - 1), 'filtered along the sweep')
                if nm != 'convolve1d':
                    e.check(abs(arg * d - s * n) <= 1e-7, 'kernel width = voltage width times pixels per volt of the sweep')
                else:
                    w = list(np.ravel(arg))
                    r = len(w) // 2
                    e.check([len(w) % 2 == 1, 4 * s * n >= (r - 0.5) * d * 0.9999, 4 * s * n <= (r + 0.5) * d * 1.0001], 'kernel radius is four widths')


def off(e, kind, shape, mode):
    """widths that are not positive"""
    g1, g2 = limits(e, mode, 0.5, -0.25)
    D = cls(kind)(e.choose('z', [0, 0.0, -1, -0.3]))
    for freeze in (False, True):
        occ, lead = occupations(e, shape, str(freeze))
        o0, l0 = occ.copy(), lead.copy()
        o, l = call(D, kind, occ, lead, g1, g2, freeze)
        e.eq(o, o0, 'zero and negative widths leave the occupations as they are')
        e.eq(l, l0, 'lead transitions are never altered')


def constant(e, kind, shape, mode):
    """fixed g1 in a 2D scan, or constant regions: unchanged for every width"""
    g1, g2 = limits(e, mode, 0.5, -0.25)
    D = cls(kind)(e.choose('z', [1e-3, 0.03, 0.2]))
    rows = e.reals('row', (shape[0], 2), -V, V)
    occ = e.array([[[rows[y, c] for c in (0, 1)] for _ in range(shape[1])] for y in range(shape[0])])
    lead = e.integers('lead', shape, 0, 1)
    o0, l0 = occ.copy(), lead.copy()
    o, l = call(D, kind, occ, lead, g1, g2, False)
    e.close(o, o0, 'lines of constant occupation stay as they are', 1e-6)
    e.eq(l, l0, 'lead transitions are never altered')


def fermi(e, shape, axis, mode, sigma, radius=None, by='auto'):
    """fermi_filter1d itself: border modes, axes, explicit radius"""
    from simcats.support_functions import fermi_filter1d
    x = e.reals('x', shape, -V, V)
    x0 = x.copy()
    cval = e.real('cval', -V, V)
    k = {} if radius is None else dict(radius=radius)
    r = fermi_filter1d(x, sigma=sigma, axis=axis, mode=mode, cval=cval, **k)
    e.observe('r', r)
    e.eq(x, x0, 'the input stays unchanged')
    rad = round(4 * sigma) if radius is None else radius
    w = [1 / math.cosh(i / sigma) ** 2 for i in range(-rad, rad + 1)]
    w = [v / sum(w) for v in w]
    m = np.moveaxis(np.asarray(x0.view(np.ndarray)), axis, -1)
    flat = [[m[p + (i,)] for i in range(m.shape[-1])] for p in np.ndindex(*m.shape[:-1])]
    q = np.moveaxis(np.asarray(r.view(np.ndarray)), axis, -1)
    got = [[q[p + (i,)] for i in range(m.shape[-1])] for p in np.ndindex(*m.shape[:-1])]
    e.eq(np.shape(r), shape, 'shape is kept')
    exp = conv(flat, w, mode, cval)
    e.close([v for g in got for v in g], [v for g in exp for v in g], 'convolution with the normalised Fermi-Dirac kernel, border as documented', 1e-5)


def scenarios(tier):
    S = []
    thorough = tier == 'thorough'
    f, lf = convstub.foreign(), log_foreign()
    for kind in ('gauss', 'fermi'):
        for w in WIDTHS:
            for shape, modes in (((6,), ('both',)), ((3, 5), ('both',))):
                for m in modes:
                    S.append(Scenario(f'{kind} kernel {w} {len(shape)}D', kernel, dict(kind=kind, shape=shape, mode=m, width=w), foreign=f))
        for shape, m, a, b in (((5,), 'g1', -0.4, 0.1), ((5,), 'g2', 0.4, 0.1), ((5,), 'both', 0.1, 0.4), ((5, 2), 'both', 0.1, 0.4), ((2, 5), 'both', -0.4, 0.1),
                               ((2, 5), 'g1', 0.4, 0.1), ((1,), 'g1', 0.4, 0.1), ((1, 4), 'both', 0.4, 0.1), ((4, 1), 'both', 0.4, 0.1), ((3, 3), 'both', 0.3, 0.4)):
            S.append(Scenario(f"{kind} shape {'x'.join(map(str, shape))} {m} {a}", kernel, dict(kind=kind, shape=shape, mode=m, width=0.7, a=a, b=b), foreign=f))
        S.append(Scenario(f'{kind} setter', kernel, dict(kind=kind, shape=(2, 4), mode='both', width=0.8, how='set'), foreign=f))
        for dirs in ('++', '-+', '+-', '--'):
            for shape in ((3,), (2, 3), (3, 2)):
                for m in ('both', 'g1', 'g2'):
                    if m == 'g2' and len(shape) == 2:
                        continue
                    if m == 'g1' and dirs[1] == '-' or m == 'g2' and dirs[0] == '-':
                        continue
                    S.append(Scenario(f"{kind} width {'x'.join(map(str, shape))} {m} {dirs}", scale, dict(kind=kind, shape=shape, mode=m, dirs=dirs), foreign=lf))
        for shape in ((2,), (2, 2)):
            S.append(Scenario(f'{kind} width sampled twice {len(shape)}D', scale, dict(kind=kind, shape=shape, mode='both', sampled=True, repeat=2), foreign=lf))
            for m in ('both', 'g1', 'g2'):
                S.append(Scenario(f'{kind} off {len(shape)}D {m}', off, dict(kind=kind, shape=shape, mode=m), foreign=f))
        for m in ('both', 'g1', 'g2'):
            S.append(Scenario(f'{kind} constant lines {m}', constant, dict(kind=kind, shape=(2, 3), mode=m), foreign=f))
    for mode in ('reflect', 'constant', 'nearest', 'mirror', 'wrap', 'grid-mirror', 'grid-constant', 'grid-wrap'):
        S.append(Scenario(f'filter {mode}', fermi, dict(shape=(4,), axis=-1, mode=mode, sigma=0.8), foreign=f))
    for axis in (0, 1, -2, -1):
        S.append(Scenario(f'filter axis {axis}', fermi, dict(shape=(3, 4), axis=axis, mode='reflect', sigma=0.6), foreign=f))
    for sigma in (0.05, 0.124, 0.126, 0.4, 1.7):
        for radius in (None, 0, 1, 4):
            S.append(Scenario(f'filter sigma {sigma} radius {radius}', fermi, dict(shape=(5,), axis=-1, mode='reflect', sigma=sigma, radius=radius), foreign=f))
    return S
