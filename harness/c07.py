"""C07 lead transition masks"""
import math

import numpy as np

from symx.harness import Scenario
from . import tctworld as T

FUNCTIONS = ['generate_lead_transition_mask_1d', 'generate_lead_transition_mask_2d', 'ideal_csd_geometric']
BOUNDS = ('1D: 1..6 pixels, totals arbitrary integers 0..4, arbitrary split; 2D: images 2x2..4x5, rotations 0, -pi/4, 0.3, 0.8, 0.9, one or two straight '
          'transitions with symbolic offset and slopes of a list, symbolic (extent of gate 1 at most three times that of gate 2) or concrete ascending windows, pixels up to 40 times longer than wide; every position along the curve (symbolic)')
OUTSIDE = 'curved transitions, larger images, totals above 4, rounding at cell borders'
ASSUMPTIONS = []
ROT = -math.pi / 4


def mask1d(e, n, top=4, kind='f'):
    from simcats.ideal_csd.geometric import generate_lead_transition_mask_1d
    tot = [e.integer(f't{i}', 0, top) for i in range(n)]
    occ = np.empty((n, 2), dtype=object)
    for i in range(n):
        s = e.real(f's{i}', 0, top)
        e.assume(s * 8 == e.np.floor(s * 8))      # eighths: sums are exact in floating point
        e.assume(s <= tot[i])
        occ[i] = [s, tot[i] - s]
    occ = e.array(occ)
    o0 = occ.copy()
    m = generate_lead_transition_mask_1d(csd_occ=occ)
    e.observe('m', m)
    e.eq(np.shape(m), (n,), 'one label per pixel')
    e.eq(occ, o0, 'occupations are not modified')
    for i in range(n):
        nb = [tot[j] for j in (i - 1, i + 1) if 0 <= j < n]
        hit = e.or_(*[tot[i] > b for b in nb]) if nb else False
        e.check(e.implies(hit, m[i] == tot[i]), 'the higher pixel of every change carries its number of electrons')
        e.check(e.implies(e.not_(hit), m[i] == 0), 'all other pixels are unlabelled')
    r = generate_lead_transition_mask_1d(occ[::-1])
    e.eq(r[::-1], m, 'labels do not depend on the sweep direction')


def window(e, how, h, w):
    if how == 'sym':
        g1, g2 = e.reals('g1', 2, -3, 3), e.reals('g2', 2, -3, 3)
        e.assume(e.and_(g1[1] - g1[0] >= 0.25, g2[1] - g2[0] >= 0.25, g1[1] - g1[0] <= 3 * (g2[1] - g2[0])))
        return g1, g2
    return e.array(how[:2]), e.array(how[2:])


def mask2d(e, shape, N, slopes, rotation=ROT, win=(-1.0, 1.0, -1.0, 1.0), order=1, crange=(-2.5, 2.5), delta=None, base=None, within=False):
    from simcats.ideal_csd.geometric import generate_lead_transition_mask_2d
    h, w = shape
    g1, g2 = window(e, win, h, w)
    g10, g20 = g1.copy(), g2.copy()
    curves = T.lines(e, N, slopes, lo=crange[0], hi=crange[1])
    dx, dy = (g1[1] - g1[0]) / (w - 1), (g2[1] - g2[0]) / (h - 1)
    X, Y = T.lin(g1[0], g1[1], w), T.lin(g2[0], g2[1], h)
    csd = e.array(np.zeros(shape) if base is None else base)
    fs = {k: curves[k - 1] for k in list(range(1, N + 1))[::order]}
    m = generate_lead_transition_mask_2d(csd, g1, g2, fs, **({} if rotation == ROT else dict(rotation=rotation)))
    e.observe('m', m)
    e.eq(np.shape(m), shape, 'one label per pixel')
    e.eq(csd, np.zeros(shape), 'the image passed in is not modified')
    e.eq(g1, g10, 'sweep ranges are not modified')
    e.eq(g2, g20, 'sweep ranges are not modified')
    # soundness: a labelled pixel's cell is crossed by the transition of that number
    sound, valid = [], []
    for q in np.ndindex(*shape):
        for n in range(1, N + 1):
            ds = []
            for sx in (-0.5, 0.5):
                for sy in (-0.5, 0.5):
                    x, y = T.rot((X[q[1]] + sx * dx, Y[q[0]] + sy * dy), -rotation)
                    ds.append(y - curves[n - 1].at(x))
            cross = e.and_(e.or_(*[d <= 1e-6 for d in ds]), e.or_(*[d >= -1e-6 for d in ds]))
            sound.append(e.implies(m[q] == n, cross))
        valid.append(e.or_(*[m[q] == n for n in range(0, N + 1)]))
    e.check(sound, 'a label n only appears on pixels crossed by transition n')
    e.check(valid, 'labels are 0 or the number of a transition')
    # completeness: wherever the curve runs inside one pixel for a while, that pixel is labelled (with its number, or that of another one)
    u = e.real('u', -8, 8)
    dl = delta if delta is not None else 0.3 * min(float(win[1] - win[0]) / (w - 1), float(win[3] - win[2]) / (h - 1))
    complete, num = [], []
    for n in range(1, N + 1):
        c = curves[n - 1]
        ends = [T.rot((u + d, c.at(u + d)), rotation) for d in (-dl, dl)]
        for q in np.ndindex(*shape):
            inside = e.and_(*[e.and_(p[0] > X[q[1]] - 0.5 * dx, p[0] < X[q[1]] + 0.5 * dx, p[1] > Y[q[0]] - 0.5 * dy, p[1] < Y[q[0]] + 0.5 * dy)
                              for p in ends])
            if within:      # only the part of the cell inside the swept range
                inside = e.and_(inside, *[e.and_(p[0] >= g1[0], p[0] <= g1[1], p[1] >= g2[0], p[1] <= g2[1]) for p in ends])
            others = [m[q] == k for k in range(1, N + 1) if k != n] if N > 1 else []
            complete.append(e.implies(inside, e.or_(m[q] == n, *others)))
            for k in range(1, N + 1):
                if k == n:
                    continue
                # another number is only accepted where that other transition runs through the pixel as well
                ds = []
                for sx in (-0.5, 0.5):
                    for sy in (-0.5, 0.5):
                        x, y = T.rot((X[q[1]] + sx * dx, Y[q[0]] + sy * dy), -rotation)
                        ds.append(y - curves[k - 1].at(x))
                cross = e.and_(e.or_(*[d <= 1e-6 for d in ds]), e.or_(*[d >= -1e-6 for d in ds]))
                num.append(e.implies(e.and_(inside, e.not_(cross)), e.not_(m[q] == k)))
    e.check(complete, 'a transition crossing the image is labelled at the pixels nearest to it')
    if num:
        e.check(num, 'a pixel crossed by one transition carries its number')


def scenarios(tier):
    S = []
    A = lambda name, fn, **k: S.append(Scenario(name, fn, k, foreign=T.DIP, max_paths=20000))  # noqa: E731
    for n, top in ((1, 3), (2, 4), (3, 4), (4, 3), (5, 2)):
        A(f'1d_{n}', mask1d, n=n, top=top)
    A('2d_3x3', mask2d, shape=(3, 3), N=1, slopes=(0.0,))
    A('2d_3x3_s', mask2d, shape=(3, 3), N=1, slopes=(0.35,))
    A('2d_3x3_neg', mask2d, shape=(3, 3), N=1, slopes=(-0.3,), win=(0.5, 1.1, -2.0, -1.4), crange=(-3, -0.5))
    A('2d_3x4', mask2d, shape=(3, 4), N=1, slopes=(0.2,), win=(-1.5, 1.5, -1.0, 1.0))
    A('2d_4x3', mask2d, shape=(4, 3), N=1, slopes=(-0.4,), win=(-1.0, 1.0, -1.5, 1.5))
    A('2d_2x2', mask2d, shape=(2, 2), N=1, slopes=(0.1,))
    A('2d_2x5', mask2d, shape=(2, 5), N=1, slopes=(0.1,), win=(-2.0, 2.0, -0.5, 0.5))
    A('2d_rot0', mask2d, shape=(3, 3), N=1, slopes=(0.3,), rotation=0.0)
    A('2d_rot0_flat', mask2d, shape=(4, 3), N=1, slopes=(0.0,), rotation=0.0, win=(0.0, 1.0, 1.0, 2.5), crange=(0.5, 3))
    A('2d_rot03', mask2d, shape=(3, 3), N=1, slopes=(0.2,), rotation=0.3)
    A('2d_rot09', mask2d, shape=(4, 4), N=1, slopes=(0.0,), rotation=0.9)
    A('2d_rot09_s', mask2d, shape=(3, 3), N=1, slopes=(0.3,), rotation=0.8, crange=(-1.5, 1.5))
    A('2d_4x4', mask2d, shape=(4, 4), N=1, slopes=(0.0,))
    A('2d_two', mask2d, shape=(3, 3), N=2, slopes=(0.0,), rotation=0.0, crange=(-1.7, 1.7))
    A('2d_two_rot', mask2d, shape=(2, 2), N=2, slopes=(0.2,), win=(-1.0, 1.0, -0.5, 0.5), crange=(-0.5, 0.5))
    A('2d_two_order', mask2d, shape=(2, 2), N=2, slopes=(0.1,), order=-1, rotation=0.0, crange=(-0.6, 0.6))
    A('2d_sym', mask2d, shape=(2, 3), N=1, slopes=(0.0,), rotation=0.0, win='sym', delta=0.03)
    # pixels that are far from square (finely sampled gate against a coarsely sampled one)
    A('2d_fine1', mask2d, shape=(2, 5), N=1, slopes=(0.1,), win=(-0.05, 0.05, -0.5, 0.5), crange=(-0.35, 0.0), within=True)
    A('2d_fine2', mask2d, shape=(3, 2), N=1, slopes=(-0.2,), win=(-0.3, 0.3, -0.04, 0.04), crange=(-0.15, 0.3), within=True)
    A('2d_fine_rot0', mask2d, shape=(2, 4), N=1, slopes=(8.0,), rotation=0.0, win=(-0.05, 0.05, -0.5, 0.5), crange=(-0.4, 0.4), within=True)
    if tier == 'thorough':
        A('2d_two_rot3', mask2d, shape=(2, 3), N=2, slopes=(0.2,), win=(-1.0, 1.0, -0.5, 0.5), crange=(-1.2, 1.2))
        A('1d_6', mask1d, n=6, top=2)
        A('2d_4x5', mask2d, shape=(4, 5), N=1, slopes=(0.25,), win=(-2.0, 2.0, -1.5, 1.5))
        A('2d_5x5', mask2d, shape=(5, 5), N=1, slopes=(-0.25,), win=(-2.0, 2.0, -2.0, 2.0))
        A('2d_two_3x3', mask2d, shape=(3, 3), N=2, slopes=(0.3,), crange=(-1.7, 1.7))
        A('2d_three', mask2d, shape=(2, 2), N=3, slopes=(0.0,), crange=(-1.7, 1.7))
        for s in (-0.9, -0.6, 0.6, 0.9):
            A(f'2d_slope_{s}', mask2d, shape=(3, 3), N=1, slopes=(s,))
    return S
