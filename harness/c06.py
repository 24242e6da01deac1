"""C06 occupations: counting rule and split"""
import math

import numpy as np

from symx.harness import Scenario
from . import tctworld as T

FUNCTIONS = ['get_electron_occupation', '_occupation_func', 'multi_sigmoid_cdf', 'multi_cauchy_cdf', 'signed_dist_points_line', 'rotate_points']
BOUNDS = ('1D: 1..5 pixels, sweep ranges arbitrary reals in [-3, 3]; 2D: images 2x2..4x4 with every separating mask of a list; 1..4 transitions, straight '
          'or kinked with symbolic offsets (and kink positions); rotations -pi/4, 0, 0.3; anchor tables: generated concrete ones (split formula) and '
          'symbolic ones (bounds); profiles sigmoid and cauchy, default and given width factors 0.5..4; split in regions of 2, 3, 4 and 7 electrons')
OUTSIDE = 'transition curves other than (kinked) lines, larger images, rounding; region labelling itself is done by the real diplib'
ASSUMPTIONS = ['tanh, atan: odd, strictly increasing, bounded by their limits', 'diplib.Label labels 4-connected components (executed, not modelled)']
ROT = -math.pi / 4
GAM = {'sigmoid': 2.2, 'cauchy': 6.15}


def profile(e, cdf, d, c, w):
    if cdf == 'sigmoid':
        return 0.5 * (1 + e.np.tanh((d - c) / w))
    return e.np.arctan((d - c) / w) / math.pi + 0.5


def split(e, tab, reg, point, cdf, factor):
    """number of electrons in dot 1 for a pixel with reg electrons"""
    a, b = tab[reg + 1][1, 1], tab[reg][0, 1]
    s = 0.0
    for i in range(0, 2 * reg - 1, 2):
        w = (T.dist_right(tab[reg][i, 2], a, b) - T.dist_right(tab[reg][i, 0], a, b)) / factor
        s = s + profile(e, cdf, T.dist_right(point, a, b), T.dist_right(tab[reg][i, 1], a, b), w)
    return s


def run1d(e, n, N, rotation, slopes, kink=0.0, cdf='sigmoid', factor=None, seed=0, order=1, explicit=True, sweep='both'):
    from simcats.ideal_csd.geometric import get_electron_occupation
    curves = T.lines(e, N, slopes, kink)
    tab = T.anchors(N, rotation, seed)
    g1, g2 = e.reals('g1', 2, -3, 3), e.reals('g2', 2, -3, 3)
    if sweep == 'g1':
        g2[1] = g2[0]
    if sweep == 'g2':
        g1[1] = g1[0]
    g10, g20 = g1.copy(), g2.copy()
    pts = list(zip(T.lin(g1[0], g1[1], n), T.lin(g2[0], g2[1], n)))
    cnt = [T.count(curves, p, rotation) for p in pts]
    # stay off the curves themselves (a pixel exactly on a curve is a rounding question)
    for p in pts:
        x, y = T.rot(p, -rotation)
        for c, c2 in zip(curves, curves[1:] + [None]):
            d = c.at(x) - y
            e.assume(e.or_(d >= 1e-6, d <= -1e-6))
            if c2 is not None and len(slopes) > 1:
                e.assume(c2.at(x) > c.at(x))
    csd = e.array(np.zeros(n))
    ks = list(range(1, N + 1))[::order]
    fs = {k: curves[k - 1] for k in ks}
    bc = {k: e.array(tab[k]) for k in ks}
    kw = dict(cdf_type=cdf) if explicit or cdf != 'sigmoid' else {}
    if factor is not None:
        kw['cdf_gamma_factor'] = factor
    if rotation != ROT or explicit:
        kw['rotation'] = rotation
    inside = e.and_(*[c < N - 0.5 for c in cnt])
    o, ex = e.catch(lambda: get_electron_occupation(csd, g1, g2, bc, fs, **kw), IndexError)
    if ex is not None:
        e.check(e.not_(inside), 'only windows above the last transition are refused')
        return
    e.check(inside, 'windows above the last transition are refused')
    e.observe('o', o)
    e.eq(np.shape(o), (n, 2), 'two occupations per pixel')
    e.eq(g1, g10, 'sweep ranges are not modified')
    e.eq(g2, g20, 'sweep ranges are not modified')
    e.eq(csd, np.zeros(n), 'the image passed in is not modified')
    f = GAM[cdf] if factor is None else factor
    for k in range(n):
        e.close(o[k, 0] + o[k, 1], cnt[k], 'the total charge is the number of transitions passed', 1e-6)
        e.check([o[k, 0] >= -1e-9, o[k, 1] >= -1e-9], 'occupations are never negative')
        ref = 0.0
        for r in range(1, N):
            ref = e.ite(e.and_(cnt[k] > r - 0.5, cnt[k] < r + 0.5), split(e, tab, r, pts[k], cdf, f), ref)
        e.close(o[k, 0], ref, 'dot 1 gains one electron per inter-dot transition with the configured profile', 1e-5)


def run2d(e, mask, N, rotation, slopes, kink=0.0, cdf='sigmoid', factor=None, seed=0, order=1, axis=(-1.5, 1.5, -1.5, 1.5), sym=False):
    """every region takes the count of its pixels, labelled pixels their label"""
    from simcats.ideal_csd.geometric import get_electron_occupation
    mask = np.array(mask)
    curves = T.lines(e, N, slopes, kink)
    tab = T.anchors(N, rotation, seed)
    if sym:
        g1, g2 = e.reals('g1', 2, -3, 3), e.reals('g2', 2, -3, 3)
        e.assume(e.and_(g1[1] - g1[0] >= 0.125, g2[1] - g2[0] >= 0.125))
    else:
        g1, g2 = e.array(axis[:2]), e.array(axis[2:])
    h, w = mask.shape
    X, Y = T.lin(g1[0], g1[1], w), T.lin(g2[0], g2[1], h)
    want = {}
    for comp in T.components(mask):
        cs = [T.count(curves, (X[j], Y[i]), rotation) for i, j in comp]
        for c in cs[1:]:
            e.assume(c == cs[0])
        e.assume(cs[0] < N - 0.5)
        for q in comp:
            want[q] = cs[0]
    for q in np.ndindex(h, w):
        if mask[q]:
            want[q] = float(mask[q])
        x, y = T.rot((X[q[1]], Y[q[0]]), -rotation)
        for c, c2 in zip(curves, curves[1:] + [None]):
            d = c.at(x) - y
            e.assume(e.or_(d >= 1e-6, d <= -1e-6))
            if c2 is not None and len(slopes) > 1:
                e.assume(c2.at(x) > c.at(x))
    csd = e.array(mask.astype(float))
    ks = list(range(1, N + 1))[::order]
    kw = dict(rotation=rotation, cdf_type=cdf)
    if factor is not None:
        kw['cdf_gamma_factor'] = factor
    o = get_electron_occupation(csd, g1, g2, {k: e.array(tab[k]) for k in ks}, {k: curves[k - 1] for k in ks}, **kw)
    e.observe('o', o)
    e.eq(np.shape(o), (h, w, 2), 'two occupations per pixel')
    e.eq(csd, mask.astype(float), 'the image passed in is not modified')
    f = GAM[cdf] if factor is None else factor
    for q in np.ndindex(h, w):
        e.close(o[q][0] + o[q][1], want[q], 'the total charge is the number of transitions passed', 1e-6)
        e.check([o[q][0] >= -1e-9, o[q][1] >= -1e-9], 'occupations are never negative')
        ref = 0.0
        for r in range(1, N):
            ref = e.ite(e.and_(want[q] > r - 0.5, want[q] < r + 0.5), split(e, tab, r, (X[q[1]], Y[q[0]]), cdf, f), ref)
        e.close(o[q][0], ref, 'dot 1 gains one electron per inter-dot transition with the configured profile', 1e-5)


def monotone(e, cdf, factor=None, rotation=ROT):
    """along a region: moving along the region (to the left of the reference line) never moves charge back to dot 2"""
    from simcats.ideal_csd.geometric import get_electron_occupation
    N, reg = 3, 2
    tab = T.anchors(N, rotation, 3)
    g1, g2 = e.reals('g1', 2, -3, 3), e.reals('g2', 2, -3, 3)
    a, b = tab[reg + 1][1, 1], tab[reg][0, 1]
    p, q = (g1[0], g2[0]), (g1[1], g2[1])
    curves = {1: T.Line(-20.0), 2: T.Line(-19.0), 3: T.Line(19.0)}
    o = get_electron_occupation(e.array(np.zeros(2)), g1, g2, {k: e.array(tab[k]) for k in tab}, curves, rotation=rotation, cdf_type=cdf,
                                **({} if factor is None else dict(cdf_gamma_factor=factor)))
    e.assume(T.dist_right(q, a, b) <= T.dist_right(p, a, b))   # towards higher gate 1 voltages
    e.check(o[0, 0] <= o[1, 0] + 1e-9, 'charge moves monotonically from dot 2 to dot 1 along the region')
    e.check(o[0, 1] + 1e-9 >= o[1, 1], 'charge moves monotonically from dot 2 to dot 1 along the region')


def deep(e, reg, cdf='sigmoid', factor=None, rotation=ROT, seed=0, n=2):
    """the split inside one region of many electrons, all pixels anywhere in it"""
    from simcats.ideal_csd.geometric import get_electron_occupation
    tab = T.anchors(reg + 1, rotation, seed)
    g1, g2 = e.reals('g1', 2, -3, 3), e.reals('g2', 2, -3, 3)
    curves = {k: T.Line(-30.0 + k if k <= reg else 30.0) for k in range(1, reg + 2)}
    o = get_electron_occupation(e.array(np.zeros(n)), g1, g2, {k: e.array(v) for k, v in tab.items()}, curves, rotation=rotation, cdf_type=cdf,
                                **({} if factor is None else dict(cdf_gamma_factor=factor)))
    e.observe('o', o)
    f = GAM[cdf] if factor is None else factor
    for k, p in enumerate(zip(T.lin(g1[0], g1[1], n), T.lin(g2[0], g2[1], n))):
        e.close(o[k, 0] + o[k, 1], float(reg), 'the total charge is the number of transitions passed', 1e-6)
        e.close(o[k, 0], split(e, tab, reg, p, cdf, f), 'dot 1 gains one electron per inter-dot transition with the configured profile', 1e-5)


def bounds(e, cdf, reg, n=2):
    """arbitrary anchors: occupations stay between 0 and the total, which is exact"""
    from simcats.ideal_csd.geometric import get_electron_occupation
    tab = {r: e.reals(f'b{r}', (2 * r - 1, 3, 2), -3, 3) for r in (reg, reg + 1)}
    d0, d1 = tab[reg][0, 1, 0] - tab[reg + 1][1, 1, 0], tab[reg][0, 1, 1] - tab[reg + 1][1, 1, 1]
    tab[reg][0, 1, 1] = tab[reg + 1][1, 1, 1] + 1.0   # a proper reference line
    tab[reg][0, 1, 0] = tab[reg + 1][1, 1, 0]
    for i in range(0, 2 * reg - 1, 2):
        e.assume(tab[reg][i, 2, 0] - tab[reg][i, 0, 0] >= 0.125)   # positive coupling range
    g1, g2 = e.reals('g1', 2, -3, 3), e.reals('g2', 2, -3, 3)
    curves = {k: T.Line(-30.0 + k) for k in range(1, reg + 1)}
    curves[reg + 1] = T.Line(30.0)
    o = get_electron_occupation(e.array(np.zeros(n)), g1, g2, tab, curves, cdf_type=cdf)
    for k in range(n):
        e.close(o[k, 0] + o[k, 1], float(reg), 'the total charge is the number of transitions passed', 1e-6)
        e.check([o[k, 0] >= -1e-9, o[k, 1] >= -1e-9], 'occupations stay between 0 and the total')


def refused(e):
    from simcats.ideal_csd.geometric import get_electron_occupation
    tab = {k: e.array(v) for k, v in T.anchors(2, ROT).items()}
    g = e.reals('g', 2, -1, 1)
    for bad in ('sigmoida', '', 'Cauchy', None, 3):
        for kw in ({}, dict(cdf_gamma_factor=2.0)):
            _, ex = e.catch(lambda: get_electron_occupation(e.array(np.zeros(2)), g, g, tab, {1: T.Line(-20.0), 2: T.Line(20.0)}, cdf_type=bad, **kw), ValueError)
            e.check(ex is not None, 'unsupported profiles are refused')


MASKS = {
    'diag': [[0, 0, 1], [0, 1, 0], [1, 0, 0]],
    'row': [[0, 0, 0], [1, 1, 1], [0, 0, 0]],
    'cols': [[0, 1, 0, 2, 0], [0, 1, 0, 2, 0]],
    'none': [[0, 0], [0, 0]],
    'all': [[1, 1], [1, 2]],
    'corner': [[0, 1, 1, 2], [1, 1, 2, 0], [1, 2, 2, 0], [2, 0, 0, 0]],
    'two': [[0, 1, 2, 0], [1, 2, 0, 0], [2, 0, 0, 0]],
    'islands': [[0, 1, 0], [1, 1, 1], [0, 1, 0]],
}


def scenarios(tier):
    S = []
    A = lambda name, fn, **k: S.append(Scenario(name, fn, k, foreign=T.DIP, max_paths=20000))  # noqa: E731
    A('1d_base', run1d, n=2, N=2, rotation=ROT, slopes=(0.0,), explicit=False)
    A('1d_one', run1d, n=1, N=3, rotation=ROT, slopes=(0.3, 0.1))
    A('1d_n3', run1d, n=3, N=2, rotation=ROT, slopes=(0.2,), seed=1)
    A('1d_N3', run1d, n=2, N=3, rotation=0.0, slopes=(-0.2,), seed=2)
    A('1d_N4', run1d, n=1, N=4, rotation=0.3, slopes=(-0.2, -0.1), seed=2)
    A('1d_order', run1d, n=2, N=3, rotation=ROT, slopes=(0.3,), seed=4, order=-1)
    A('1d_kink', run1d, n=2, N=2, rotation=ROT, slopes=(0.0,), kink=-0.4, seed=5)
    A('1d_cauchy', run1d, n=2, N=3, rotation=ROT, slopes=(0.0,), cdf='cauchy', seed=6)
    A('1d_cauchy_f', run1d, n=2, N=2, rotation=0.3, slopes=(0.1,), cdf='cauchy', factor=4.0, seed=6)
    A('1d_sig_f', run1d, n=2, N=2, rotation=ROT, slopes=(0.1,), factor=3.5, seed=7)
    A('1d_g1', run1d, n=2, N=2, rotation=ROT, slopes=(0.3,), seed=8, sweep='g1')
    A('1d_g2', run1d, n=3, N=2, rotation=ROT, slopes=(0.3,), seed=9, sweep='g2')
    for name, m in MASKS.items():
        A(f'2d_{name}', run2d, mask=m, N=3, rotation=ROT if name != 'row' else 0.0, slopes=(0.0,) if name != 'cols' else (0.2,), seed=len(name))
    A('2d_diag_sym', run2d, mask=MASKS['diag'], N=2, rotation=ROT, slopes=(0.1,), sym=True)
    A('2d_two_cauchy', run2d, mask=MASKS['two'], N=3, rotation=ROT, slopes=(0.0,), cdf='cauchy', order=-1)
    A('2d_two_cauchy_f', run2d, mask=MASKS['two'], N=3, rotation=ROT, slopes=(0.0,), cdf='cauchy', factor=3.0)
    A('2d_two_sig_f', run2d, mask=MASKS['corner'], N=3, rotation=ROT, slopes=(0.0,), factor=3.0, axis=(-1.0, 0.5, -0.5, 2.0))
    A('2d_kink', run2d, mask=MASKS['corner'], N=3, rotation=ROT, slopes=(0.0,), kink=-0.3, axis=(-1.0, 0.5, -0.5, 1.0))
    for cdf in GAM:
        A(f'monotone_{cdf}', monotone, cdf=cdf)
        A(f'monotone_{cdf}_f', monotone, cdf=cdf, factor=1.5, rotation=0.2)
        A(f'bounds_{cdf}_1', bounds, cdf=cdf, reg=1)
        A(f'bounds_{cdf}_2', bounds, cdf=cdf, reg=2)
    for cdf in GAM:
        A(f'deep_3_{cdf}', deep, reg=3, cdf=cdf, seed=1)
        A(f'deep_4_{cdf}', deep, reg=4, cdf=cdf, seed=2, rotation=0.1, factor=0.5)
        A(f'deep_2_{cdf}', deep, reg=2, cdf=cdf, seed=3, factor=0.9)
    A('deep_7', deep, reg=7, seed=4)
    A('refused', refused)
    if tier == 'thorough':
        A('1d_n5', run1d, n=5, N=2, rotation=ROT, slopes=(0.2,), seed=1)
        A('1d_n4_N3', run1d, n=4, N=3, rotation=ROT, slopes=(0.2, 0.1), seed=1)
        A('1d_kink3', run1d, n=3, N=3, rotation=ROT, slopes=(0.0,), kink=-0.4, seed=15)
        for name, m in MASKS.items():
            for cdf in GAM:
                A(f'2d_{name}_{cdf}_sym', run2d, mask=m, N=3, rotation=ROT, slopes=(0.1,), cdf=cdf, sym=True)
                A(f'2d_{name}_{cdf}_0', run2d, mask=m, N=4, rotation=0.2, slopes=(0.0,), cdf=cdf, seed=3)
        for cdf in GAM:
            A(f'bounds_{cdf}_3', bounds, cdf=cdf, reg=3, n=3)
    return S
