"""scipy.ndimage.convolve1d / gaussian_filter1d over symbolic data (real convolution, all border modes). The concrete replay
uses scipy itself, so every witness also checks this model."""
import numpy as np

from symx import core
from symx.arr import asarr
from symx.core import Unsupported, is_sym

LOG = []


def border(i, n, mode):
    """source index of position i (may lie outside 0..n-1), None: constant value"""
    if 0 <= i < n:
        return i
    mode = {'grid-mirror': 'reflect', 'grid-wrap': 'wrap', 'grid-constant': 'constant'}.get(mode, mode)
    if mode == 'nearest':
        return 0 if i < 0 else n - 1
    if mode == 'constant':
        return None
    if mode == 'wrap':
        return i % n
    if mode == 'reflect':
        j = i % (2 * n)
        return j if j < n else 2 * n - 1 - j
    if mode == 'mirror':
        if n == 1:
            return 0
        j = i % (2 * n - 2)
        return j if j < n else 2 * n - 2 - j
    raise RuntimeError('boundary mode not supported')


def kernel_facts(w):
    s = w[0]
    for x in w[1:]:
        s = s + x
    k = len(w)
    return [x >= 0 for x in w] + [s == 1] + [w[i] == w[k - 1 - i] for i in range(k // 2)]


def convolve(data, weights, axis, mode, cval, correlate=False):
    data = asarr(data)
    w = np.ndarray.ravel(np.asarray(weights)).tolist()
    k = len(w)
    w = core.CTX.cut(w, kernel_facts)
    n = data.shape[axis]
    out = np.empty(data.shape, dtype=object)
    src = np.moveaxis(data.view(np.ndarray), axis, -1)
    dst = np.moveaxis(out, axis, -1)
    for p in np.ndindex(*src.shape[:-1]):
        for i in range(n):
            s = 0.0
            for j in range(k):
                # convolution: out[i] = sum_j w[j] * in[i + k//2 - j]
                q = i + k // 2 - j if not correlate else i - k // 2 + j
                m = border(q, n, mode)
                s = s + w[j] * (cval if m is None else src[p + (m,)])
            dst[p + (i,)] = s
    r = asarr(out)
    r.sdt = 'f'
    return r


def deliver(res, output, inp):
    """scipy's output argument: an array to fill or a dtype"""
    if output is None:
        return res
    if isinstance(output, np.ndarray):
        output[...] = res
        return output
    return res


def stub_convolve1d(e):
    def convolve1d(input, weights, axis=-1, output=None, mode='reflect', cval=0.0, origin=0):
        if origin != 0:
            raise Unsupported('convolve1d origin')
        return deliver(convolve(input, weights, axis, mode, cval), output, input)
    return convolve1d


def stub_correlate1d(e):
    def correlate1d(input, weights, axis=-1, output=None, mode='reflect', cval=0.0, origin=0):
        if origin != 0:
            raise Unsupported('correlate1d origin')
        return deliver(convolve(input, weights, axis, mode, cval, True), output, input)
    return correlate1d


stub_convolve1d.conc = stub_correlate1d.conc = False


def gauss_kernel(sigma, radius):
    ws = [core.fn_exp(-0.5 * (i * i) / (sigma * sigma)) for i in range(-radius, radius + 1)]
    t = ws[0]
    for x in ws[1:]:
        t = t + x
    return [x / t for x in ws]


def stub_gaussian_filter1d(e):
    def gaussian_filter1d(input, sigma, axis=-1, order=0, output=None, mode='reflect', cval=0.0, truncate=4.0, *, radius=None):
        if order != 0:
            raise Unsupported('gaussian_filter1d order')
        if radius is None:
            radius = int(core.floor(truncate * sigma + 0.5)) if is_sym(sigma) else int(truncate * float(sigma) + 0.5)
        return deliver(convolve(input, gauss_kernel(sigma, radius), axis, mode, cval), output, input)
    return gaussian_filter1d


stub_gaussian_filter1d.conc = False


def foreign():
    import scipy.ndimage as nd
    return {nd.convolve1d: stub_convolve1d, nd.correlate1d: stub_correlate1d, nd.gaussian_filter1d: stub_gaussian_filter1d}


def stub_fermi_derivative(e):
    """proof cut behind the real function: its values are positive and symmetric (each fact proved first)"""
    from simcats.support_functions._fermi_filter1d import fermi_dirac_derivative as real

    def facts(v):
        k = len(v)
        return [x > 0 for x in v] + [v[i] == v[k - 1 - i] for i in range(k // 2)]

    def fermi_dirac_derivative(*a, **k):
        r = real(*a, **k)
        if getattr(r, 'dtype', None) == object and r.ndim == 1 and len(r) % 2 == 1:
            r = asarr(core.CTX.cut(np.ndarray.ravel(r).tolist(), facts))
            r.sdt = 'f'
        return r
    return fermi_dirac_derivative


stub_fermi_derivative.conc = False


def with_fermi():
    d = foreign()
    try:
        from simcats.support_functions._fermi_filter1d import fermi_dirac_derivative
        d[fermi_dirac_derivative] = stub_fermi_derivative
    except ImportError:
        pass
    return d
