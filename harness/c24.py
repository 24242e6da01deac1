"""C24 smoothing profiles: cumulative functions and Fermi filter"""
import numpy as np

from symx.harness import Scenario
from . import convstub

FUNCTIONS = ['sigmoid_cdf', 'multi_sigmoid_cdf', 'cauchy_cdf', 'multi_cauchy_cdf', 'fermi_dirac_derivative', 'fermi_filter1d']
BOUNDS = ('positions and centres in [-8, 8], width in (1e-6, 8] (and exactly 0); 1..3 steps; Fermi filter: sigma in [1/8, 2], '
          'radius default (0..8) or 0..4, data arrays 1D up to 5, 2D 3x4, modes reflect/nearest/mirror/wrap/constant')
OUTSIDE = 'rounding; widths between 0 and 1e-6; sigma above 2; overflow of cosh for radius/sigma above 700'
ASSUMPTIONS = ['tanh, arctan, exp: range, monotonicity, odd symmetry, congruence, tangent bounds',
               'scipy.ndimage.convolve1d is a convolution with the documented border modes (compared with scipy on every replayed witness)']
V = 8


def fns():
    import simcats.support_functions as s
    from simcats.support_functions import _cumulative_distribution_functions as m
    return m


def cdf(e, kind, sc=1.0):
    m = fns()
    f = m.sigmoid_cdf if kind == 's' else m.cauchy_cdf
    x0, g = e.real('x0', -V, V), e.real('g', 1e-6, V)
    d, k = e.real('d', 0, V), e.real('k', 0, V)
    x = e.array([x0, x0 + d, x0 - d, x0 + d + k, x0 - d - k])
    xc = x.copy()
    y = f(x, x0, g)
    e.observe('y', y)
    e.eq(np.shape(y), (5,), 'one value per position')
    e.close(y[0], 0.5, 'one half at the centre')
    e.close(y[1] + y[2], 1.0, 'point symmetric about the centre')
    e.le(y[1], y[3], 'non-decreasing', 1e-9)
    e.le(y[4], y[2], 'non-decreasing', 1e-9)
    e.le(0.5, y[1], 'non-decreasing', 1e-9)
    for i in range(5):
        e.le(0.0, y[i], 'not below 0', 1e-9)
        e.le(y[i], 1.0, 'not above 1', 1e-9)
    e.eq(x, xc, 'positions are not modified')


def cdf_scale(e, kind):
    """depends only on the distance from the centre in units of the width"""
    m = fns()
    f = m.sigmoid_cdf if kind == 's' else m.cauchy_cdf
    x0, x1 = e.real('x0', -V, V), e.real('x1', -V, V)
    g, h = e.real('g', 1e-6, V), e.real('h', 1e-6, V)
    t = e.real('t', -V, V)
    a, b = f(e.array([x0 + t * g]), x0, g), f(e.array([x1 + t * h]), x1, h)
    e.close(a, b, 'depends only on the distance in units of the width')
    w = e.np.tanh(t) * 0.5 + 0.5 if kind == 's' else e.np.arctan(t) / np.pi + 0.5
    e.close(a[0], w, 'the documented profile (sigmoid / Cauchy) of the distance in units of the width')


def cdf_step(e, kind):
    m = fns()
    f = m.sigmoid_cdf if kind == 's' else m.cauchy_cdf
    x0 = e.real('x0', -V, V)
    x = e.reals('x', 3, -V, V)
    xc = x.copy()
    y = f(x, x0, 0.0 if e.boolean('fl') else 0)
    for i in range(3):
        e.check(e.and_(e.implies(xc[i] > x0, y[i] == 1), e.implies(xc[i] < x0, y[i] == 0)), 'a step for zero width')
        e.check(e.and_(y[i] >= 0, y[i] <= 1), 'a step for zero width')
    e.eq(x, xc, 'positions are not modified')


def multi(e, kind, n, zero=False):
    m = fns()
    f, g = (m.sigmoid_cdf, m.multi_sigmoid_cdf) if kind == 's' else (m.cauchy_cdf, m.multi_cauchy_cdf)
    par = []
    for i in range(n):
        par += [e.real(f'c{i}', -V, V), 0.0 if zero and i == 0 else e.real(f'g{i}', 1e-6, V)]
    x = e.reals('x', 2, -V, V)
    xc = x.copy()
    y = g(x, par)
    e.observe('y', y)
    for p in range(2):
        s = 0.0
        for i in range(n):
            s = s + f(e.array([xc[p]]), par[2 * i], par[2 * i + 1])[0]
        e.close(y[p], s, 'the multi-step profile is the sum of its steps')
        e.check(e.and_(y[p] >= -1e-6, y[p] <= n + 1e-6), 'between 0 and the number of steps')
    if n == 2:
        y2 = g(xc.copy(), [par[2], par[3], par[0], par[1]])
        e.close(y2, y, 'the order of the steps does not matter')
    e.check(e.implies(xc[0] <= xc[1], y[0] <= y[1] + 1e-9), 'non-decreasing')
    e.eq(x, xc, 'positions are not modified')


def fermi_kernel(e):
    """weights: symmetric, positive, decreasing away from the centre"""
    from simcats.support_functions._fermi_filter1d import fermi_dirac_derivative
    x0, s, d, k = e.real('x0', -V, V), e.real('s', 0.125, V), e.real('d', 0, V), e.real('k', 0, V)
    y = fermi_dirac_derivative(x=e.array([x0 + d, x0 - d, x0 + d + k]), x0=x0, sigma=s)
    e.observe('y', y)
    e.close(y[0], y[1], 'symmetric about the centre')
    e.le(0.0, y[2], 'non-negative', 1e-9)
    e.le(y[2], y[0], 'decreasing away from the centre', 1e-6)


def fermi(e, shape, axis, mode, radius=None, smax=0.6, cval=None):
    """the filter is a fixed linear map along one axis, given by non-negative symmetric weights summing to one"""
    from simcats.support_functions import fermi_filter1d
    s = e.real('s', 0.125, smax)
    kw = {} if radius is None else {'radius': radius}
    kw.update({} if mode is None else {'mode': mode})
    kw.update({} if cval is None else {'cval': cval})
    ax = {} if axis is None else {'axis': axis}
    a = -1 if axis is None else axis
    n = shape[a]
    W = []
    for i in range(n):
        pulse_ = np.zeros(n)
        pulse_[i] = 1.0
        W.append(fermi_filter1d(e.array(pulse_), s, mode=mode or 'reflect', **({} if radius is None else {'radius': radius})))
    off = [0.0] * n
    if cval is not None:
        off = fermi_filter1d(e.array(np.zeros(n)), s, mode=mode, cval=cval, **({} if radius is None else {'radius': radius}))
    for i in range(n):
        t = 0.0
        for j in range(n):
            t = t + W[j][i]
            e.le(0.0, W[j][i], 'weights are non-negative', 1e-9)
            e.close(W[j][i], W[n - 1 - j][n - 1 - i], 'weights are mirror symmetric', 1e-6)
        if mode != 'constant':
            e.close(t, 1.0, 'weights sum to one', 1e-6)
        else:
            e.le(t, 1.0, 'weights inside the image sum to at most one', 1e-6)
    x = e.reals('x', shape, -V, V)
    xc = x.copy()
    y = fermi_filter1d(x, s, **ax, **kw)
    e.observe('y', y)
    e.eq(np.shape(y), shape, 'same shape as the data')
    e.eq(x, xc, 'data is not modified')
    ys, xs = np.moveaxis(np.asarray(y).view(np.ndarray), a, -1), np.moveaxis(np.asarray(xc).view(np.ndarray), a, -1)
    for p in np.ndindex(*ys.shape):
        t = off[p[-1]]
        for j in range(n):
            t = t + W[j][p[-1]] * xs[p[:-1] + (j,)]
        e.close(ys[p], t, 'the filter applies its weights along the given axis and nothing else', 1e-6)


def pulse(e, n, radius, default=False):
    """the impulse response is the kernel itself"""
    from simcats.support_functions import fermi_filter1d
    s = e.real('s', 0.125, 2.0) if not default else e.real('s', (radius - 0.49) / 4, (radius + 0.49) / 4)
    N = 2 * n + 1
    x = np.zeros(N)
    x[n] = 1.0
    y = fermi_filter1d(e.array(x), s, mode='constant', **({} if default else {'radius': radius}))
    e.observe('y', y)
    t = 0.0
    for i in range(N):
        t = t + y[i]
        e.close(y[i], y[N - 1 - i], 'the kernel is symmetric')
        e.le(0.0, y[i], 'the kernel is non-negative', 1e-9)
        if abs(i - n) > radius:
            e.eq(y[i], 0.0, 'the kernel has the given radius')
    e.close(t, 1.0, 'the kernel sums to one')
    for i in range(n, N - 1) if radius <= 1 and not default else ():
        e.le(y[i + 1], y[i], 'the kernel decreases away from its centre', 1e-6)
    if radius > 1 or default:
        return
    # ratio of the weights follows the derivative of the Fermi function with the given width
    c = e.np.cosh(1 / s) if radius else 1.0
    if radius:
        e.close(y[n + 1] * c * c, y[n], 'the weights follow the Fermi derivative with width sigma', 1e-5)


def scenarios(tier):
    S = []
    F = convstub.with_fermi()
    for k in 'sc':
        S.append(Scenario(f'cdf_{k}', cdf, dict(kind=k)))
        S.append(Scenario(f'cdf_scale_{k}', cdf_scale, dict(kind=k)))
        S.append(Scenario(f'cdf_step_{k}', cdf_step, dict(kind=k)))
        for n in (1, 2, 3):
            S.append(Scenario(f'multi_{k}_{n}', multi, dict(kind=k, n=n)))
        S.append(Scenario(f'multi_{k}_zero', multi, dict(kind=k, n=2, zero=True)))
    S.append(Scenario('fermi_kernel', fermi_kernel))
    for shape, ax in (((3,), None), ((5,), -1), ((3, 4), 0), ((3, 4), 1), ((1,), 0)):
        for mode in (None, 'reflect', 'nearest', 'mirror', 'wrap', 'constant'):
            if tier != 'thorough' and len(shape) == 2 and mode not in (None, 'nearest'):
                continue
            for r in (None, 0, 2):
                if tier != 'thorough' and r == 2 and len(shape) == 2:
                    continue
                S.append(Scenario(f'fermi_{"x".join(map(str, shape))}_{ax}_{mode}_{r}', fermi,
                                  dict(shape=shape, axis=ax, mode=mode, radius=r), foreign=F, budget=60))
    S.append(Scenario('fermi_cval', fermi, dict(shape=(3,), axis=0, mode='constant', radius=1, cval=2.0), foreign=F))
    for n, r in ((2, 0), (2, 1), (2, 2), (3, 3)):
        S.append(Scenario(f'pulse_{n}_{r}', pulse, dict(n=n, radius=r), foreign=F if r > 1 else convstub.foreign()))
    for r in (1, 2, 3):
        S.append(Scenario(f'pulse_default_{r}', pulse, dict(n=4, radius=r, default=True), foreign=F))
    return S
