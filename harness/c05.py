"""C05 ideal CSD: orientation, resolution, sweep direction"""
import math

import numpy as np

from symx.harness import Scenario
from . import tctworld as T
from .c06 import split, GAM

FUNCTIONS = ['ideal_csd_geometric', 'IdealCSDGeometric.get_csd_data', 'IdealCSDGeometric properties', 'initialize_tct_functions',
             'calculate_all_bezier_anchors', 'generate_lead_transition_mask_1d', 'generate_lead_transition_mask_2d', 'get_electron_occupation', 'tct_bezier (one scenario)']
BOUNDS = ('1D: 1..4 pixels, sweep ranges arbitrary reals in [-3, 3] in either direction; 2D: 2x2..3x4 pixels, windows of fixed or symbolic extent at a symbolic '
          'position, all four direction combinations; 2..3 transitions; rotations -pi/4, 0, 0.3; both profiles')
OUTSIDE = 'transition curves are replaced by straight lines (C08 decides the curves); larger images; rounding'
ASSUMPTIONS = ['tanh, atan lemmas', 'diplib.Label executed on the concrete image of each path']
ROT = -math.pi / 4
# rows: lengths, slopes, left and right end of the first bend; spaced so that the windows below meet several transitions
ROWS = [np.array([2.0, 2.5, 0.35, -0.3, -0.30, -1.3, 0.20, -1.26]), np.array([2.0, 2.5, 0.35, -0.3, -0.55, -0.1, -0.05, -0.06]),
        np.array([2.0, 2.5, 0.35, -0.3, -0.80, 1.1, -0.30, 1.14])]


def curves(rows):
    """stand-in for the bezier curve: the left lead line of each row"""
    return [T.Line(float(r[5] - r[2] * r[4]), float(r[2])) for r in rows]


def stub_tct(e):
    def tct_bezier(tct_params, x_eval, lut_entries=None, max_peaks=None):
        r = [float(v) for v in tct_params]
        return T.Line(r[5] - r[2] * r[4], r[2])(x_eval)
    return tct_bezier


def tct_stub():
    from symx import patch
    patch.load_simcats()
    from simcats.ideal_csd.geometric import tct_bezier
    return {tct_bezier: stub_tct, **T.DIP}


def off_curve(e, cs, pts, rotation, eps=1e-6):
    for p in pts:
        x, y = T.rot(p, -rotation)
        for c in cs:
            d = c.at(x) - y
            e.assume(e.or_(d >= eps, d <= -eps))


def get(e, rows, g1, g2, res, how='f', **kw):
    from simcats.ideal_csd.geometric import ideal_csd_geometric
    from simcats.ideal_csd import IdealCSDGeometric
    if how == 'f':
        return ideal_csd_geometric(tct_params=rows, volt_limits_g1=g1, volt_limits_g2=g2, resolution=res, **kw)
    if how == 'set':
        c = IdealCSDGeometric(tct_params=[ROWS[1]], rotation=1.0, lut_entries=7, cdf_type='sigmoid', cdf_gamma_factor=9.0)
        c.tct_params, c.rotation, c.lut_entries = rows, kw.get('rotation', ROT), kw.get('lut_entries')
        c.cdf_type, c.cdf_gamma_factor = kw.get('cdf_type', 'sigmoid'), kw.get('cdf_gamma_factor')
    else:
        c = IdealCSDGeometric(tct_params=rows, **kw)
    return c.get_csd_data(volt_limits_g1=g1, volt_limits_g2=g2, resolution=res)


def scan1d(e, n, nrows=3, rotation=ROT, how='f', res='int', cdf='sigmoid', factor=None, sweep='both'):
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors
    rows = [r.copy() for r in ROWS[:nrows]]
    cs = curves(rows)
    g1, g2 = e.reals('g1', 2, -3, 3), e.reals('g2', 2, -3, 3)
    if sweep == 'g1':
        g2[1] = g2[0]
    if sweep == 'g2':
        g1[1] = g1[0]
    pts = list(zip(T.lin(g1[0], g1[1], n), T.lin(g2[0], g2[1], n)))
    cnt = [T.count(cs, p, rotation) for p in pts]
    off_curve(e, cs, pts, rotation)
    e.assume([c < nrows - 0.5 for c in cnt])
    kw = {}
    if rotation != ROT:
        kw['rotation'] = rotation
    if cdf != 'sigmoid':
        kw['cdf_type'] = cdf
    if factor:
        kw['cdf_gamma_factor'] = factor
    r0 = e.array([n], 'i') if res == 'arr' else [n] if res == 'list' else n
    a10, a20 = g1.copy(), g2.copy()
    o, m = get(e, rows, g1, g2, r0, how, **kw)
    e.observe('o', o)
    e.observe('m', m)
    e.eq(np.shape(o), (n, 2), 'a 1D scan yields one pair of occupations per pixel')
    e.eq(np.shape(m), (n,), 'a 1D scan yields one lead transition label per pixel')
    e.eq(g1, a10, 'sweep ranges are not modified')
    e.eq(g2, a20, 'sweep ranges are not modified')
    for r, q in zip(rows, ROWS):
        e.eq(r, q, 'the transition parameters are not modified')
    if res == 'arr':
        e.eq(r0, [n], 'the resolution is not modified')
    tab = calculate_all_bezier_anchors(tct_params=rows, max_peaks=1, rotation=rotation)
    f = factor or GAM[cdf]
    for k in range(n):
        e.close(o[k, 0] + o[k, 1], cnt[k], 'pixel k of a 1D scan lies at the k-th evenly spaced voltage of both gates', 1e-6)
        ref = 0.0
        for r in range(1, nrows):
            ref = e.ite(e.and_(cnt[k] > r - 0.5, cnt[k] < r + 0.5), split(e, tab, r, pts[k], cdf, f), ref)
        e.close(o[k, 0], ref, 'dot 1 occupation at the k-th evenly spaced voltage', 1e-5)
        nb = [cnt[j] for j in (k - 1, k + 1) if 0 <= j < n]
        e.close(m[k], e.ite(e.or_(*[cnt[k] > b + 0.5 for b in nb]), cnt[k], 0.0) if nb else 0.0, 'lead transitions of a 1D scan', 1e-6)
    if n == 1:
        return
    o2, m2 = get(e, rows, g1[::-1], g2[::-1], r0, how, **kw)
    e.close(o2[::-1], o, 'reversing a 1D sweep mirrors the occupations', 1e-6)
    e.eq(m2[::-1], m, 'reversing a 1D sweep mirrors the lead transitions')
    if res != 'int':
        o3, m3 = get(e, rows, g1, g2, n, how, **kw)
        e.close(o3, o, 'a resolution given as number or as one-element sequence is the same', 1e-9)
        e.eq(m3, m, 'a resolution given as number or as one-element sequence is the same')


def scan2d(e, shape, nrows=3, rotation=ROT, how='f', res='arr', cdf='sigmoid', factor=None, ext=(1.0, 1.0), at=(-2.0, -0.6), sym='both', container='arr'):
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors
    h, w = shape
    rows = [r.copy() for r in ROWS[:nrows]]
    cs = curves(rows)
    a = e.real('a', *at) if sym in ('g1', 'both', 'diag') else at[0]
    b = (-a + sum(at) if sym == 'diag' else e.real('b', *at)) if sym != 'g1' else sum(at) / 2
    kx = e.real('kx', 0.5, 1) if sym == 'ext' else 1.0
    g1, g2 = e.array([a, a + ext[0] * kx]), e.array([b, b + ext[1]])
    X, Y = T.lin(g1[0], g1[1], w), T.lin(g2[0], g2[1], h)
    pts = [(X[j], Y[i]) for i in range(h) for j in range(w)]
    off_curve(e, cs, pts, rotation)
    cnt = {q: T.count(cs, (X[q[1]], Y[q[0]]), rotation) for q in np.ndindex(h, w)}
    dx, dy = (g1[1] - g1[0]) / (w - 1), (g2[1] - g2[0]) / (h - 1)
    # stay below the last transition everywhere, including half a pixel around the image
    for sx, sy in ((g1[0] - dx / 2, g2[0] - dy / 2), (g1[1] + dx / 2, g2[1] + dy / 2), (g1[0] - dx / 2, g2[1] + dy / 2), (g1[1] + dx / 2, g2[0] - dy / 2)):
        x, y = T.rot((sx, sy), -rotation)
        e.assume(cs[-1].at(x) >= y + 1e-6)
    kw = {}
    if rotation != ROT:
        kw['rotation'] = rotation
    if cdf != 'sigmoid':
        kw['cdf_type'] = cdf
    if factor:
        kw['cdf_gamma_factor'] = factor
    R = e.array([w, h], 'i') if res == 'arr' else [w, h]
    conv = (lambda z: z) if container == 'arr' else lambda z: container((z[0], z[1]))
    a10, a20 = g1.copy(), g2.copy()
    o, m = get(e, rows, conv(g1), conv(g2), R, how, **kw)
    e.observe('o', o)
    e.observe('m', m)
    e.eq(np.shape(o), (h, w, 2), 'first axis gate 2, second axis gate 1, last axis the dot')
    e.eq(np.shape(m), (h, w), 'first axis gate 2, second axis gate 1')
    e.eq(g1, a10, 'sweep ranges are not modified')
    e.eq(g2, a20, 'sweep ranges are not modified')
    e.eq(list(R), [w, h], 'the resolution is not modified')
    tab = calculate_all_bezier_anchors(tct_params=rows, max_peaks=1, rotation=rotation)
    f = factor or GAM[cdf]
    tot, occ1 = [], []
    for q in np.ndindex(h, w):
        want = e.ite(m[q] == 0, cnt[q], m[q] * 1.0)
        d = o[q][0] + o[q][1] - want
        tot.append(e.and_(d <= 1e-6, d >= -1e-6))
        ref = 0.0
        for r in range(1, nrows):
            ref = e.ite(e.and_(want > r - 0.5, want < r + 0.5), split(e, tab, r, (X[q[1]], Y[q[0]]), cdf, f), ref)
        d = o[q][0] - ref
        occ1.append(e.and_(d <= 1e-5, d >= -1e-5))
    e.check(tot, 'pixel (i, j) lies at the i-th evenly spaced gate 2 and j-th evenly spaced gate 1 voltage (total charge)')
    e.check(occ1, 'pixel (i, j) lies at the i-th evenly spaced gate 2 and j-th evenly spaced gate 1 voltage (dot 1)')
    for f1, f2 in ((True, False), (False, True), (True, True)):
        o2, m2 = get(e, rows, conv(g1[::-1] if f1 else g1), conv(g2[::-1] if f2 else g2), R, how, **kw)
        o2 = o2[::-1] if f2 else o2
        m2 = m2[::-1] if f2 else m2
        o2 = o2[:, ::-1] if f1 else o2
        m2 = m2[:, ::-1] if f1 else m2
        e.close(o2, o, 'reversing a sweep range mirrors the occupations along its axis and changes nothing else', 1e-6)
        e.eq(m2, m, 'reversing a sweep range mirrors the lead transitions along its axis and changes nothing else')
    e.eq(g1, a10, 'sweep ranges are not modified')
    e.eq(g2, a20, 'sweep ranges are not modified')


def equal_ends(e, how='f'):
    """2D scans need two proper sweeps; everything else about the voltages is free"""
    rows = [r.copy() for r in ROWS[:2]]
    rows[0][5], rows[0][7] = 40.0, 40.04          # far away: nothing crosses the window
    rows[1][5], rows[1][7] = 50.0, 50.04
    g1, g2 = e.reals('g1', 2, -3, 3), e.reals('g2', 2, -3, 3)
    ok = e.and_(e.not_(g1[0] == g1[1]), e.not_(g2[0] == g2[1]))
    d1, d2 = g1[0] - g1[1], g2[0] - g2[1]
    for d in (d1, d2):      # equal or clearly different
        e.assume(e.or_(d == 0, d >= 1e-3, d <= -1e-3))
    # (the number of points along a curve depends on the ratio of the sweeps: bounded here)
    e.assume(e.or_(d1 == 0, d2 == 0, *[e.and_(s * d1 >= 0, t * d2 >= 0, s * d1 <= 2 * t * d2) for s in (1, -1) for t in (1, -1)]))
    r, ex = e.catch(lambda: get(e, rows, g1, g2, e.array([2, 2], 'i'), how, rotation=0.0), ValueError)
    if ex is not None:
        e.check(e.not_(ok), 'only a fixed gate in a 2D scan is refused')
        r, ex = e.catch(lambda: get(e, rows, g1, g2, e.array([2], 'i'), how, rotation=0.0), ValueError)
        e.check(ex is None, 'a fixed gate is fine in a 1D scan')
        return
    e.check(ok, 'a fixed gate in a 2D scan is refused')
    e.close(r[0], np.zeros((2, 2, 2)), 'no electrons below the first transition')
    e.eq(r[1], np.zeros((2, 2)), 'no lead transitions outside the transitions')


def refused(e, how='f'):
    rows = [r.copy() for r in ROWS[:2]]
    v = e.real('v', -1, 1)
    good = e.array([v, v + 1.0])
    bad = [e.array([2, 2, 2], 'i'), e.array([1, 3], 'i'), e.array([3, 1], 'i'), e.array([0, 3], 'i'), e.array([1, 1], 'i'), [3, 3, 3], [2, 1], [-2, 3]]
    for r in bad:
        _, ex = e.catch(lambda: get(e, rows, good, good, r, how), ValueError)
        e.check(ex is not None, 'unusable resolutions are refused')
    for b in (e.array([v]), e.array([v, v + 1.0, v + 2.0])):
        for r in (e.array([2, 3], 'i'), 3, [4]):
            for p in ((b, good), (good, b), (b, b)):
                _, ex = e.catch(lambda: get(e, rows, p[0], p[1], r, how), ValueError)
                e.check(ex is not None, 'sweep ranges that do not have two values are refused')


def real_curve(e, n, how='class', lut=50):
    """the complete chain with the real curves (their straight outer parts)"""
    rows = [r.copy() for r in ROWS[:2]]
    cs = curves(rows)
    g1, g2 = e.reals('g1', 2, -3, -1), e.reals('g2', 2, -3, 3)
    # left of all bends, in the rotated frame
    pts = list(zip(T.lin(g1[0], g1[1], n), T.lin(g2[0], g2[1], n)))
    for p in pts:
        x, y = T.rot(p, -ROT)
        e.assume(x <= -0.6)
    off_curve(e, cs, pts, ROT)
    cnt = [T.count(cs, p, ROT) for p in pts]
    e.assume([c < 1.5 for c in cnt])
    o, m = get(e, rows, g1, g2, n, how, lut_entries=lut)
    for k in range(n):
        e.close(o[k, 0] + o[k, 1], cnt[k], 'total charge of the complete chain', 1e-6)


def scenarios(tier):
    S = []
    ST = tct_stub()
    A = lambda name, fn, foreign=ST, **k: S.append(Scenario(name, fn, k, foreign=foreign, max_paths=20000))  # noqa: E731
    A('1d_2', scan1d, n=2)
    A('1d_1', scan1d, n=1, how='class')
    A('1d_3', scan1d, n=3, nrows=2, res='arr', how='class')
    A('1d_list', scan1d, n=2, nrows=2, res='list', rotation=0.3)
    A('1d_4', scan1d, n=4, nrows=2, rotation=0.0, how='set')
    A('1d_cauchy', scan1d, n=2, cdf='cauchy', how='class')
    A('1d_cauchy_f', scan1d, n=2, cdf='cauchy', factor=4.0, how='set', res='arr')
    A('1d_g1', scan1d, n=3, nrows=2, sweep='g1', how='class')
    A('1d_g2', scan1d, n=3, nrows=2, sweep='g2', factor=1.7, how='class', rotation=0.2)
    A('2d_2x3', scan2d, shape=(2, 3), nrows=2, how='class', sym='g1')
    A('2d_3x2', scan2d, shape=(3, 2), nrows=2, sym='g2', res='list')
    A('2d_2x2', scan2d, shape=(2, 2), nrows=2, sym='diag', how='set')
    A('2d_rot0', scan2d, shape=(3, 2), nrows=2, rotation=0.0, sym='g2', ext=(1.0, 0.5))
    A('2d_rot0b', scan2d, shape=(2, 3), nrows=2, rotation=0.0, sym='g1', ext=(2.0, 0.5), how='class', cdf='cauchy')
    A('2d_three', scan2d, shape=(3, 3), nrows=3, sym='g1', ext=(2.0, 2.0), how='class', factor=3.0)
    A('2d_list', scan2d, shape=(2, 2), nrows=2, sym='g2', container=list)
    A('2d_tuple', scan2d, shape=(2, 3), nrows=2, sym='g2', container=tuple, how='class')
    A('2d_fine_g1', scan2d, shape=(3, 5), nrows=2, sym='g2', ext=(0.1, 1.5), at=(-1.5, -1.47))
    A('2d_fine_g2', scan2d, shape=(5, 3), nrows=2, sym='g1', ext=(1.5, 0.1), at=(-1.0, -0.98), how='class')
    for how in ('f', 'class'):
        A(f'equal_ends_{how}', equal_ends, how=how)
        A(f'refused_{how}', refused, how=how)
    A('real_curve', real_curve, foreign={**T.DIP, **T.BEZIER}, n=2)
    if tier == 'thorough':
        A('2d_3x3', scan2d, shape=(3, 3), nrows=2, sym='diag', how='set')
        A('2d_rot0_3', scan2d, shape=(3, 2), nrows=3, rotation=0.0, sym='g2', ext=(1.0, 1.5))
        A('2d_rot0b_4', scan2d, shape=(2, 4), nrows=2, rotation=0.0, sym='g1', ext=(2.0, 0.5), how='class', cdf='cauchy')
        A('1d_5', scan1d, n=5, nrows=3, how='class')
        A('2d_2x2_sym', scan2d, shape=(2, 2), nrows=2, sym='both')
        A('2d_4x4', scan2d, shape=(4, 4), nrows=3, sym='g1', ext=(1.5, 2.0), how='class')
        A('2d_4x5', scan2d, shape=(4, 5), nrows=3, sym='g2', ext=(1.5, 1.0), how='class')
        A('2d_5x3', scan2d, shape=(5, 3), nrows=3, sym='diag', ext=(1.5, 1.0), how='class', cdf='cauchy')
        A('2d_ext', scan2d, shape=(2, 3), nrows=2, sym='ext')
    return S
