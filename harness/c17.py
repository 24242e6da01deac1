"""C17 deformed sensor peaks"""
import math

import numpy as np

from symx.harness import Scenario
from . import scanworld as W
from .c12 import gates
from .c13 import SENS, make, series
from .simworld import World, key

FUNCTIONS = ['SensorPeakDeformationCircle.calc_mu', 'SensorPeakDeformationLinear.calc_mu', 'SensorPeakDeformationInterface.sensor', 'SensorScanSensorGeneric.sensor_response', '_peak_func',
             'signed_dist_points_line', '_calc_point_from_barrier_potentials', 'get_sensor_scan_labels']
BOUNDS = ('radii, distances and centres arbitrary reals in [-8, 8] (radius not in (-1/8, 1/8)); angles from a list over (0, pi) and both signs; sensor dot lever-arms arbitrary reals (formula) or a list incl. zero entries (scans); '
          'deformation = arbitrary function of the distance in scans; 1D 1..3, 2D up to 2x2 pixels; 1..2 peaks')
OUTSIDE = 'rounding; radius 0; angles that are multiples of pi (infinite slope); larger images'
ASSUMPTIONS = []
V = 8
ANGLES = [math.pi / 4, 0.1, 1.2, 1.6, 3.0, -0.5, -1.9]


class Dot:
    """what a deformation needs of its sensor"""

    def __init__(self, a):
        self.alpha_sensor_gate = a


def circle(e, sign, form, row=None, by='ctor'):
    from simcats.sensor.deformation import SensorPeakDeformationCircle
    r = sign * e.choose('rc', [0.75, 2.5, 6.0]) if by == 'set' else e.real('r', 0.125, V) if sign > 0 else e.real('r', -V, -0.125)
    mu0 = e.real('mu0', -V, V)
    a = np.array([row, [1, 2], [3, 4]], dtype=float)
    nrm = math.hypot(*row)
    D = SensorPeakDeformationCircle(r) if by == 'ctor' else SensorPeakDeformationCircle(3.0)
    if by != 'ctor':
        D.radius = r
    D.sensor = Dot(a)
    ds = e.reals('d', 2, -V, V)
    got = D.calc_mu(ds, mu0) if form == 'array' else [D.calc_mu(d, mu0) for d in (ds[0], ds[1])]
    e.observe('mu', got)
    R = sign * r / nrm
    conds, sat = [], []
    for d, m in zip([ds[0], ds[1]], W.flat(got)):
        k = (mu0 - m) * sign                            # how far the centre moves, towards -sign
        conds.append(e.implies(d * d <= R * R, e.and_(k >= -1e-6, k <= R + 1e-6, (R - k) * (R - k) - (R * R - d * d) <= 1e-5, (R * R - d * d) - (R - k) * (R - k) <= 1e-5)))
        sat.append(e.implies(d * d >= R * R, e.and_(k - R <= 1e-6, R - k <= 1e-6)))
    e.check(conds, 'the peak follows a circle of the configured radius around the working point')
    e.check(sat, 'beyond the radius the peak keeps the largest displacement')


def circle_sym(e, form, row):
    from simcats.sensor.deformation import SensorPeakDeformationCircle
    D = SensorPeakDeformationCircle(e.choose('r', [0.5, -0.5, 3.0, -7.0]))
    D.sensor = Dot(np.array([row, [1, 2], [3, 4]], dtype=float))
    d, mu0 = e.real('d', 0, V), e.real('mu0', -V, V)
    f = (lambda x: D.calc_mu(x, mu0)) if form == 'scalar' else (lambda x: D.calc_mu(e.array([[x, 0.0]]), mu0)[0, 0])
    a, b, z = f(d), f(-d), f(0.0 * d)
    e.close(a, b, 'the circular deformation is symmetric', 1e-6)
    e.close(z, mu0, 'no displacement at distance zero', 1e-6)


def linear(e, form, angle, by='ctor', sym=False):
    from simcats.sensor.deformation import SensorPeakDeformationLinear
    row = [e.real('a0', -4, 4), e.real('a1', -4, 4)] if sym else [3.0, -4.0]
    D = SensorPeakDeformationLinear(angle) if by == 'ctor' else SensorPeakDeformationLinear(1.0)
    if by != 'ctor':
        D.angle = angle
    D.sensor = Dot(e.array([row, [1.0, 2.0], [3.0, 4.0]]))
    ds, mu0 = e.reals('d', 2, -V, V), e.real('mu0', -V, V)
    d0 = ds.copy()
    got = D.calc_mu(ds, mu0) if form == 'array' else [D.calc_mu(d, mu0) for d in (ds[0], ds[1])]
    e.observe('mu', got)
    e.eq(ds, d0, 'distances are not modified')
    for d, m in zip([d0[0], d0[1]], W.flat(got)):
        k = (m - mu0) * math.tan(angle)                 # = d * |alpha|
        e.close(k * k, d * d * (row[0] * row[0] + row[1] * row[1]), 'the shift is the distance times the lever-arm over the tangent of the angle', 1e-4)
        e.check(k * d >= -1e-6, 'the shift has the sign of the distance for angles with positive tangent')


def expected_dist(e, al, B, occ, gs, shape, p):
    pt = W.working_point(al, occ, [W.ends(gs[0])[0], W.ends(gs[1])[0]], [B[0].pinch_off, B[1].pinch_off])
    v = W.pixel_volts(shape, p, gs)
    a, b = [float(x) for x in al['sens'][0]]
    dx, dy = (1.0, b / a) if a else (0.0, math.copysign(1.0, b))
    return (dy * (v[2] - pt[0]) - dx * (v[3] - pt[1])) / math.hypot(dx, dy)


def scan(e, shape, kinds='ffss', sens=SENS[0], defo=(0,), peaks=1, rise=False, labels=False, twice=True):
    """deformation = arbitrary function of the distance it is given"""
    w = World(e)
    P = W.parts()
    sensor, al, B = make(e, w, P, peaks, rise, sens, free=len(shape) == 1, defo=defo)
    occ = e.reals('occ', tuple(shape) + (2,), 0, V)
    f = (0,) * len(shape)
    o0 = [occ[f + (0,)], occ[f + (1,)]]
    gs = gates(e, kinds)
    pot = sensor.sensor_potential(occ, *gs)
    if labels:
        sensor.get_sensor_scan_labels(*gs, pot)
    mu = e.reals('mu', (3,) + tuple(shape), -V, V)
    ms = W.flat(mu[0])
    for i in range(len(ms)):            # pixels are told apart by their potential
        for j in range(i):
            e.assume(e.or_(ms[i] - ms[j] >= 0.01, ms[j] - ms[i] >= 0.01))
    r = sensor.sensor_response(mu)
    e.observe('r', r)
    want = {p: expected_dist(e, al, B, o0, gs, shape, p) for p in np.ndindex(*shape)}
    cond = []
    for p in np.ndindex(*shape):
        x, s = mu[(0,) + p], 0.0
        for i in range(peaks):
            m0 = e.real(f'mu{i}', -4, 4)
            if i in defo:
                # the peak function was called with the pixel's potential and a centre; that centre is the deformation at the distance of this pixel
                recs = [l for l in w.log if l['what'] == f'peak{i}' and any(key(v) == key(x) for v in W.flat(l['inp']))]
                e.check(len(recs) > 0, 'every peak is evaluated at the potential of every pixel')
                used = recs[0]['mu0']
                calls = []
                for l in w.log:
                    if l['what'] != f'deformation{i}':
                        continue
                    e.check(l['sensor'] is sensor, 'the deformation knows its sensor')
                    for dv in W.flat(l['dist']):
                        if key(W.each(w, f'd{i}_', dv, -4, 4, l['mu0'])) == key(used):
                            calls.append((dv, l['mu0']))
                e.check(len(calls) > 0, 'the deformed centre comes from the deformation')
                cond.append(e.or_(*[e.and_(dv - want[p] <= 1e-6, want[p] - dv <= 1e-6) for dv, _ in calls]))
                e.check(e.or_(*[base == m0 for _, base in calls]), "the deformation starts from the peak's own centre")
                s = s + W.each(w, f'p{i}_', x, 0, 4, used)
            else:
                s = s + W.each(w, f'p{i}_', x, 0, 4, m0)
        b1, b2 = B[0].get_value(mu[(1,) + p]), B[1].get_value(mu[(2,) + p])
        if rise:
            s = e.max(s, W.each(w, 'r_', x, 0, 4, [l for l in w.log if l['what'] == 'rise'][0]['offset'] if any(l['what'] == 'rise' for l in w.log) else 0.0))
        c = series(e, b1, b2, s, r[p])
        e.check(c, 'the response uses the deformed centre at this pixel' if not rise else 'the final rise also applies to deformed scans')
    e.check(cond, 'the deformation gets the signed distance of the pixel to the line through the pinch-off point')
    for i in range(peaks):
        e.close(sensor.sensor_peak_function[i].mu0, e.real(f'mu{i}', -4, 4), "evaluating never changes the peak's stored centre", 0)
    if twice:
        e.eq(sensor.sensor_response(mu), r, 'evaluating a response twice gives the same result')


def shipped(e, kind, dim):
    """shipped deformation and peak inside the sensor: centre of the peak at a pixel = calc_mu at the pixel's distance"""
    from simcats.sensor import SensorScanSensorGeneric
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
    w = World(e)
    P = W.parts()
    D = SensorPeakDeformationCircle(e.choose('r', [2.0, -2.0])) if kind == 'circle' else SensorPeakDeformationLinear(e.choose('r', [0.7, -0.7]))
    al = dict(dot=[[0, 0]] * 3, gate=[[0, 0]] * 3, off=[0, 0, 0], sens=SENS[4])
    B = (P.Barrier(w, 1), P.Barrier(w, 2))
    sensor = SensorScanSensorGeneric(barrier_functions=B, sensor_peak_function=P.Peak(w, 0), alpha_sensor_gate=np.array(SENS[4], dtype=float), sensor_peak_deformations={0: D})
    shape = (2,) if dim == 1 else (1, 2)
    gs = [None, None, e.reals('s1', 2, -V, V), e.real('s2', -V, V)]
    pot = sensor.sensor_potential(np.zeros(shape + (2,)), *gs)
    sensor.sensor_response(pot)
    n = 0
    for p in np.ndindex(*shape):
        recs = [l for l in w.log if l['what'] == 'peak0' and any(key(v) == key(pot[(0,) + p]) for v in W.flat(l['inp']))]
        d = expected_dist(e, al, B, [0.0, 0.0], gs, shape, p)
        e.close(recs[0]['mu0'], D.calc_mu(d, e.real('mu0', -4, 4)), 'the centre used at a pixel is the deformation at its distance', 1e-5)
        n += 1


def sensor_link(e):
    from simcats.sensor import SensorScanSensorGeneric
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
    w = World(e)
    P = W.parts()
    v = e.real('v', 0.5, V)
    for D in (SensorPeakDeformationCircle(v), SensorPeakDeformationLinear(v)):
        e.check(D.sensor is None, 'a deformation without a sensor has none')
        base = dict(barrier_functions=P.Barrier(w, 1), sensor_peak_function=[P.Peak(w, 0), P.Peak(w, 1)], alpha_sensor_gate=np.array(SENS[0], dtype=float))
        s = SensorScanSensorGeneric(**base, sensor_peak_deformations={1: D})
        e.check(D.sensor is s, 'a deformation belongs to the sensor it is given to')
        s2 = SensorScanSensorGeneric(**base, sensor_peak_deformations={0: D})
        e.check(D.sensor is s2, 'a deformation belongs to the sensor it is given to')


def scenarios(tier):
    S = []
    for sg in (1, -1):
        for form in ('scalar', 'array'):
            for row in ([3, 4], [0, -2], [-1, 0]):
                S.append(Scenario(f'circle {sg:+d} {form} {row}', circle, dict(sign=sg, form=form, row=row)))
        S.append(Scenario(f'circle {sg:+d} setter', circle, dict(sign=sg, form='scalar', row=[0, -2], by='set')))
    for form in ('scalar', 'array'):
        S.append(Scenario(f'circle symmetric {form}', circle_sym, dict(form=form, row=[3, -4])))
        for a in ANGLES:
            S.append(Scenario(f'linear {form} {a:.2f}', linear, dict(form=form, angle=a)))
        S.append(Scenario(f'linear {form} lever-arms', linear, dict(form=form, angle=0.5, sym=True)))
    S.append(Scenario('linear setter', linear, dict(form='array', angle=-0.25, by='set')))
    sens = SENS + [[[0, -2], [1, 0], [0.5, 2]], [[-1, 2], [0, 1], [1, 0]], [[-3, 0], [1, 1], [-1, 1]]]
    for i, m in enumerate(sens):
        S.append(Scenario(f'scan {i} 1D', scan, dict(shape=(2,), sens=m)))
        S.append(Scenario(f'scan {i} 2D', scan, dict(shape=(2, 2) if i == 0 else (1, 2) if i % 2 else (2, 1), sens=m)))
    for k in ('--s-', '-f-s', 'iiff', '--ss', 'i-fs'):
        for s in ((3,), (1, 2)):
            S.append(Scenario(f'scan {k} {len(s)}D', scan, dict(shape=s, kinds=k, sens=SENS[2])))
    S.append(Scenario('scan 2x3', scan, dict(shape=(2, 3), kinds='--ss', sens=SENS[4])))
    S.append(Scenario('scan 3x2', scan, dict(shape=(3, 2), kinds='--ss', sens=SENS[3])))
    for s in ((2,), (1, 2)):
        for d in ((0,), (1,), (0, 1)):
            S.append(Scenario(f'two peaks {d} {len(s)}D', scan, dict(shape=s, kinds='--ss', peaks=2, defo=d)))
    S.append(Scenario('one pixel', scan, dict(shape=(1,), kinds='ffss')))
    S.append(Scenario('one pixel 2D', scan, dict(shape=(1, 1), kinds='ffss')))
    for k in ('circle', 'linear'):
        for d in (1, 2):
            S.append(Scenario(f'shipped {k} {d}D', shipped, dict(kind=k, dim=d)))
    S.append(Scenario('sensor link', sensor_link))
    S.append(Scenario('response after labels', scan, dict(shape=(2,), kinds='--ss', labels=True, twice=False)))
    S.append(Scenario('final rise', scan, dict(shape=(2,), kinds='--ss', rise=True, twice=False)))
    return S
