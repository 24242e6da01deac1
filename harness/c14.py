"""C14 sensor scan labels"""
import itertools

import numpy as np

from symx.harness import Scenario
from . import scanworld as W
from .c12 import gates
from .c13 import SENS, make
from .c17 import expected_dist
from .simworld import World, key

FUNCTIONS = ['SensorScanSensorGeneric.get_sensor_scan_labels', '_calc_point_from_barrier_potentials', 'sensor_potential', 'signed_dist_points_line']
BOUNDS = ('potentials, thresholds, peak centres arbitrary reals (|.| <= 8); plunger voltages float, int or unset, sensor gates swept, fixed or unset; 0..3 peaks in every listing order, deformed or not '
          '(deformation = arbitrary function of the distance); 1D 1..4, 2D up to 2x3 pixels; sensor gate lever-arms from a list')
OUTSIDE = 'rounding; equal peak centres; pixels at equal distance to a peak (either may be labelled); larger images'
ASSUMPTIONS = []
V = 8
EPS = 1e-6


def ab(e, x):
    return e.max(x, -x)


def labels(e, shape, kinds='ffss', peaks=1, perm=None, sens=SENS[0], defo=(), own=False, warm=False, twice=False, free=True):
    w = World(e)
    P = W.parts()
    sensor, al, B = make(e, w, P, peaks, False, sens, free=free and len(shape) == 1, defo=defo)
    n = peaks or 0
    mus = [e.real(f'mu{i}', -4, 4) for i in range(n)]
    perm = perm or list(range(n))
    for a, b in zip(perm, perm[1:]):
        e.assume(mus[b] - mus[a] >= 0.01)
    occ = e.reals('occ', tuple(shape) + (2,), 0, V)
    f = (0,) * len(shape)
    o0 = [occ[f + (0,)], occ[f + (1,)]]
    gs = gates(e, kinds)
    if warm:
        p0 = sensor.sensor_potential(np.ones((2, 2)), 1.0, -1.0, np.array([0, 1]), None)
        sensor.sensor_response(p0)
        sensor.get_sensor_scan_labels(1.0, -1.0, np.array([0, 1]), None, p0)
    pot = sensor.sensor_potential(occ, *gs)
    if not own:
        pot = e.reals('mu', (3,) + tuple(shape), -V, V)
    start = len(w.log)
    pot0, g0 = pot.copy(), [g.copy() if isinstance(g, np.ndarray) else g for g in gs]
    c, p = sensor.get_sensor_scan_labels(*gs, pot)
    e.observe('c', c)
    e.eq(np.shape(c), tuple(shape), 'one conduction label per pixel')
    e.eq(np.shape(p), tuple(shape), 'one peak label per pixel')
    e.eq(pot, pot0, 'the potentials are not modified')
    v = [W.ends(g)[0] for g in g0[:2]]
    pt = W.working_point(al, o0, v, [B[0].fully_conductive, B[1].fully_conductive])
    full = W.potential_at(0, al, o0, v + list(pt))
    cond = {}
    cs = []
    for q in np.ndindex(*shape):
        s, b1, b2 = (pot0[(k,) + q] for k in range(3))
        open_ = e.and_(b1 > B[0].pinch_off, b2 > B[1].pinch_off)
        cond[q] = (open_, s > full)
        e.prefer(e.or_(s - full >= 0.01, full - s >= 0.01))
        # within EPS of the fully conductive potential either label is accepted
        cs += [e.implies(e.not_(open_), c[q] == 0), e.implies(e.and_(open_, s - full >= EPS), c[q] == 2), e.implies(e.and_(open_, s - full <= -EPS), c[q] == 1)]
    e.check(cs, 'conduction label follows the thresholds of both barriers and the dot at this pixel')
    rows = [()] if len(shape) == 1 else [(i,) for i in range(shape[0])]
    m = shape[-1]
    # mean potential step between neighbouring pixels of a row
    thr = 0.0
    if m > 1:
        for r in rows:
            thr = thr + (pot0[(0,) + r + (m - 1,)] - pot0[(0,) + r + (0,)])
        thr = ab(e, thr / ((m - 1) * len(rows)))
    dist = {}
    for i in range(n):
        recs = [l for l in w.log[start:] if l['what'] == f'deformation{i}']
        for q in np.ndindex(*shape):
            if i in defo:
                d = expected_dist(e, al, B, o0, g0, shape, q)
                ok = []
                for l in recs:
                    dv = l['dist'][q] if np.ndim(l['dist']) else l['dist']
                    ok.append((dv, l['mu0']))
                if not recs:
                    e.check(False, 'a deformed peak is labelled along its deformed course')
                if np.shape(recs[-1]['dist']) != tuple(shape):
                    ok = [(dv, l['mu0']) for l in recs for dv in W.flat(l['dist'])]
                    ok = [x for x in ok if e.sym is False and abs(float(x[0]) - float(d)) < 1e-6] or ok[-1:]
                dv, base = ok[-1]
                e.close(dv, d, 'the deformation gets the signed distance of the pixel to the line through the pinch-off point', 1e-6)
                e.check(base == mus[i], "the deformation starts from the peak's own centre")
                centre = W.each(w, f'd{i}_', dv, -4, 4, base)
            else:
                centre = mus[i]
            dist[i, q] = ab(e, pot0[(0,) + q] - centre)
    fwd, bwd, rng = [], [], []
    for q in np.ndindex(*shape):
        rng.append(e.and_(p[q] >= 0, p[q] <= n))
        rng.append(e.implies(c[q] != 1, p[q] == 0))
        border = m == 1 or q[-1] in (0, m - 1)
        lower = False
        for k, i in enumerate(perm):
            others = [q[:-1] + (j,) for j in range(m) if j != q[-1]]
            strict = e.and_(*[dist[i, q] <= dist[i, o] - EPS for o in others]) if others else True
            near = e.and_(*[dist[i, q] <= dist[i, o] + EPS for o in others]) if others else True
            fwd.append(e.implies(e.and_(strict, dist[i, q] < thr - EPS if border else True, c[q] == 1, e.not_(lower)), p[q] == k + 1))
            bwd.append(e.implies(p[q] == k + 1, e.and_(near, dist[i, q] < thr + EPS if border else True)))
            lower = e.or_(lower, e.and_(near, dist[i, q] < thr + EPS if border else True))
    e.check(rng, 'peak labels only in the Coulomb regime, none beyond the number of peaks')
    e.check(bwd, 'a peak label sits where the potential of the row comes closest to that peak')
    e.check(fwd, 'the pixel whose potential comes closest to a peak carries the number of the peak')
    for i in range(n):
        e.check(sensor.sensor_peak_function[i].mu0 == mus[i], "labelling never changes the peak's stored centre")
    if twice:
        sensor.sensor_potential(occ, *gs)
        c2, p2 = sensor.get_sensor_scan_labels(*gs, pot)
        e.eq(c2, c, 'labelling twice gives the same labels')
        e.eq(p2, p, 'labelling twice gives the same labels')


def refused(e, kinds):
    w = World(e)
    P = W.parts()
    sensor, al, B = make(e, w, P, 1, False, SENS[0], free=False)
    gs = gates(e, kinds)
    pot = sensor.sensor_potential(np.zeros((2, 2)), *gs)
    _, err = e.catch(lambda: sensor.get_sensor_scan_labels(*gs, pot), Exception)
    e.check(isinstance(err, ValueError), 'labels of a plunger sweep are refused')


def scenarios(tier):
    S = []
    for s in ((1,), (2,), (3,), (1, 1), (1, 3), (2, 2), (2, 1)):
        n = 'x'.join(map(str, s))
        for k in ('ffss', '--s-', 'i-fs'):
            S.append(Scenario(f'{n} {k}', labels, dict(shape=s, kinds=k)))
        S.append(Scenario(f'{n} no peaks', labels, dict(shape=s, peaks=None)))
    if tier == 'thorough':
        S.append(Scenario('3x2', labels, dict(shape=(3, 2))))
        S.append(Scenario('5', labels, dict(shape=(5,))))
        S.append(Scenario('deformed 2x3', labels, dict(shape=(2, 3), defo=(0,))))
    S.append(Scenario('2x3', labels, dict(shape=(2, 3))))
    S.append(Scenario('4', labels, dict(shape=(4,))))
    for i, m in enumerate(SENS):
        S.append(Scenario(f'lever-arms {i}', labels, dict(shape=(2,), sens=m, kinds='f-ss')))
        S.append(Scenario(f'lever-arms {i} 2D', labels, dict(shape=(1, 2), sens=m, kinds='-fss')))
    S.append(Scenario('own potentials', labels, dict(shape=(2,), kinds='ffss', own=True, free=False)))
    S.append(Scenario('own potentials 2D', labels, dict(shape=(1, 2), kinds='ffss', own=True)))
    for pm in ([0, 1], [1, 0]):
        for s in ((3,), (1, 3), (2, 1)) + (((2, 2), (4,)) if tier == 'thorough' else ()):
            S.append(Scenario(f'two peaks {pm} {"x".join(map(str, s))}', labels, dict(shape=s, peaks=2, perm=pm)))
        for d in ((0,), (1,)):
            S.append(Scenario(f'two peaks {pm} deformed {d}', labels, dict(shape=(2,), peaks=2, perm=pm, defo=d)))
            S.append(Scenario(f'two peaks {pm} deformed {d} 2D', labels, dict(shape=(1, 2), peaks=2, perm=pm, defo=d)))
    for pm in itertools.permutations(range(3)):
        S.append(Scenario(f'three peaks {list(pm)}', labels, dict(shape=(2,) if pm[0] else (1, 2), peaks=3, perm=list(pm))))
    for s in ((3,), (1, 3), (2, 1), (2, 2)):
        S.append(Scenario(f'deformed {"x".join(map(str, s))}', labels, dict(shape=s, defo=(0,))))
        S.append(Scenario(f'deformed fixed gate {"x".join(map(str, s))}', labels, dict(shape=s, kinds='-if s'.replace(' ', ''), defo=(0,))))
    for i, m in enumerate(SENS[1:]):
        for s in ((2,), (1, 2), (2, 1)) + (((2, 3), (3, 2)) if i in (1, 3) else ()):
            S.append(Scenario(f'deformed lever-arms {i} {"x".join(map(str, s))}', labels, dict(shape=s, kinds=('--ss', 'f-ss', '-fss', 'ffss')[i], sens=m, defo=(0,))))
    for k in ('--s-', '---s', 'ffis', 'iisf'):
        S.append(Scenario(f'deformed {k}', labels, dict(shape=(1, 2) if 's' == k[2] else (2, 1), kinds=k, sens=SENS[4], defo=(0,))))
    for s in ((2,), (1, 2)):
        S.append(Scenario(f'after another scan {len(s)}D', labels, dict(shape=s, warm=True, defo=(0,))))
        S.append(Scenario(f'twice {len(s)}D', labels, dict(shape=s, twice=True, defo=(0,))))
    for k in ('ss--', 's---', '-s--', 'sf--', 'fs--'):
        S.append(Scenario(f'refused {k}', refused, dict(kinds=k)))
    return S
