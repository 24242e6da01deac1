"""C15 working points of the barriers: inverse of the barrier potentials. Observed through what the sensor does with them: the placement of the final rise
(fully conductive point) and the distances given to a peak deformation (pinch-off point)."""
import numpy as np

from symx.harness import Scenario
from . import scanworld as W
from .c12 import gates
from .simworld import World

FUNCTIONS = ['SensorScanSensorGeneric._calc_point_from_barrier_potentials', 'sensor_response', '_peak_func', 'sensor_potential', 'signed_dist_points_line']
BOUNDS = ('thresholds in [-4, 4]; occupations, plunger voltages, lever-arms of dots and plunger gates and offsets arbitrary reals in [-8, 8]; sensor gate lever-arms of the barriers: regular matrices '
          'from a list incl. zero entries in every position, and (1D) arbitrary reals with |det| >= 1/4 and the last entry of the first barrier 0 or >= 1/8')
OUTSIDE = 'rounding; singular sensor gate lever-arms (no working point exists); for a plunger sweep the working point is the one of the first pixel'
ASSUMPTIONS = []
V = 8
B12 = [[[1, 0.5], [-0.25, 1]], [[1, 0], [0.5, 2]], [[0, 1], [1, 0]], [[2, 0], [0, -1]], [[1, 1], [-1, 0.25]], [[0, -0.5], [4, 0.25]], [[-1, 0.125], [0, 3]]]


def barriers(e, m):
    if m is not None:
        return [[float(v) for v in r] for r in m]
    a, b, c, d = (e.real(n, -4, 4) for n in 'abcd')
    det = a * d - b * c
    e.assume(e.or_(det >= 0.25, det <= -0.25))
    e.assume(e.or_(b >= 0.125, b <= -0.125))
    return [[a, b], [c, d]]


def make(e, w, P, row0, bs, rise, defo, setters=False):
    from simcats.sensor import SensorScanSensorGeneric
    z = e.array([[0.0, 0.0]] * 3)
    d, g, o = e.reals('ad', (3, 2), -V, V), e.reals('ag', (3, 2), -V, V), e.reals('off', 3, -V, V)
    for x in (d, g):
        for j in (0, 1):
            x[0, j] = 0.0
    o[0] = 0.0
    s = e.array([row0, bs[0], bs[1]])
    B = (P.Barrier(w, 1), P.Barrier(w, 2))
    kw = dict(alpha_sensor_gate=s, alpha_dot=d, alpha_gate=g, offset_mu_sens=o)
    if setters:
        kw = dict(alpha_sensor_gate=np.array([[1, 0], [1, 1], [1, -1]]), alpha_dot=z, alpha_gate=z, offset_mu_sens=0)
    sensor = SensorScanSensorGeneric(barrier_functions=B, sensor_peak_function=[P.Peak(w, 0)], final_rise=P.Rise(w) if rise else None,
                                     sensor_peak_deformations={0: P.Deformation(w, 0)} if defo else {}, **kw)
    if setters:
        sensor.alpha_sensor_gate, sensor.alpha_dot, sensor.alpha_gate, sensor.offset_mu_sens = s, d, g, o
    return sensor, B


def holds(e, sensor, occ, gs, pt, pots, label):
    """the barriers have the requested potentials at the point, according to the sensor itself"""
    v = [W.ends(g)[0] for g in gs[:2]]
    f = (0,) * (len(np.shape(occ)) - 1)
    pot = sensor.sensor_potential(e.array([[occ[f + (0,)], occ[f + (1,)]]]), v[0], v[1], pt[0], pt[1])
    e.close([pot[1, 0], pot[2, 0]], pots, label, 1e-6)


def conductive(e, bs, kinds, shape, setters=False, warm=False):
    w = World(e)
    P = W.parts()
    bs = barriers(e, bs)
    occ = e.reals('occ', tuple(shape) + (2,), 0, V)
    gs = gates(e, kinds)
    off = []
    for row in ([1.0, 0.0], [0.0, 1.0]):
        sensor, B = make(e, w, P, row, bs, True, False, setters)
        if warm:
            sensor.sensor_response(sensor.sensor_potential(np.ones((2, 2)), 1.0, -1.0, np.array([0, 1]), None))
        n = len(w.log)
        pot = sensor.sensor_potential(occ, *gs)
        sensor.sensor_response(e.array(np.zeros((3,) + tuple(shape)).tolist()))
        recs = [l for l in w.log[n:] if l['what'] == 'rise']
        e.check(len(recs) > 0, 'the final rise is evaluated')
        off.append(W.flat(recs[0]['offset'])[0])
    e.observe('point', off)
    holds(e, sensor, occ, gs, off, [B[0].fully_conductive, B[1].fully_conductive], 'both barriers are fully conductive at the fully conductive working point')


def pinchoff(e, bs, kinds, shape, setters=False, warm=False):
    w = World(e)
    P = W.parts()
    bs = barriers(e, bs)
    occ = e.reals('occ', tuple(shape) + (2,), 0, V)
    gs = gates(e, kinds)
    f = (0,) * len(shape)
    dist = []
    for row in ([1.0, 0.0], [3.0, 4.0]):
        sensor, B = make(e, w, P, row, bs, False, True, setters)
        if warm:
            sensor.sensor_response(sensor.sensor_potential(np.ones((2, 2)), 1.0, -1.0, np.array([0, 1]), None))
        n = len(w.log)
        sensor.sensor_potential(occ, *gs)
        sensor.sensor_response(e.array(np.zeros((3,) + tuple(shape)).tolist()))
        recs = [l for l in w.log[n:] if l['what'] == 'deformation0']
        e.check(len(recs) > 0, 'the deformation is evaluated')
        dist.append(W.flat(recs[0]['dist'])[0])
    e.observe('dist', dist)
    x, y = W.ends(gs[2])[0], W.ends(gs[3])[0]
    py = y + dist[0]                                            # distance to the horizontal line through the point
    px = x - (dist[1] * (5.0 / 3.0) + (y - py)) * 0.75          # and to the line of slope 4/3 through it
    holds(e, sensor, occ, gs, [px, py], [B[0].pinch_off, B[1].pinch_off], 'both barriers are pinched off at the pinch-off working point')


def scenarios(tier):
    S = []
    for i, m in enumerate(B12):
        for k in ('ffss', 'ss--', '-f-s'):
            S.append(Scenario(f'fully conductive {i} {k}', conductive, dict(bs=m, kinds=k, shape=(2,))))
        S.append(Scenario(f'fully conductive {i} 2D', conductive, dict(bs=m, kinds='f-ss' if i % 2 else 'ss-f', shape=(1, 2))))
        for k in ('ffss', '--s-'):
            S.append(Scenario(f'pinch-off {i} {k}', pinchoff, dict(bs=m, kinds=k, shape=(2,))))
        S.append(Scenario(f'pinch-off {i} 2D', pinchoff, dict(bs=m, kinds='ffss', shape=(1, 2))))
    for f, n in ((conductive, 'fully conductive'), (pinchoff, 'pinch-off')):
        S.append(Scenario(f'{n} setters', f, dict(bs=B12[0], kinds='ffss', shape=(2,), setters=True)))
        S.append(Scenario(f'{n} after another scan', f, dict(bs=B12[1], kinds='ffss', shape=(1, 2), warm=True)))
        S.append(Scenario(f'{n} arbitrary lever-arms', f, dict(bs=None, kinds='ffss', shape=(1,))))
    return S
