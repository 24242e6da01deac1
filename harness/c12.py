"""C12 potentials of the scan sensor"""
import numpy as np

from symx.harness import Scenario
from . import scanworld as W
from .simworld import World

FUNCTIONS = ['SensorScanSensorGeneric.sensor_potential', 'SensorScanSensorGeneric.__init__', 'lever-arm and offset setters']
BOUNDS = ('occupations, lever-arms, offsets and voltages arbitrary reals in [-8, 8]; every combination of swept, fixed (float or int) and unset gates; 1D 1..5, 2D up to 3x4 pixels')
OUTSIDE = 'rounding; larger images (every pixel is computed by the same expression)'
ASSUMPTIONS = []
V = 8


def gates(e, kinds):
    out = []
    for i, k in enumerate(kinds):
        n = ('g1', 'g2', 's1', 's2')[i]
        out.append(e.reals(n, 2, -V, V) if k == 's' else e.real(n, -V, V) if k == 'f' else e.choose(n, [0, 2, -3]) if k == 'i' else None)
    return out


def alphas(e, form='full'):
    al = {}
    if form == 'pair':
        d, g, o = e.reals('ad', 2, -V, V), e.reals('ag', 2, -V, V), e.real('off', -V, V)
        al['dot'], al['gate'], al['off'] = [[d[0], d[1]]] * 3, [[g[0], g[1]]] * 3, [o] * 3
    elif form == 'none':
        d = g = o = None
        al['dot'] = al['gate'] = [[0, 0]] * 3
        al['off'] = [0] * 3
    else:
        d, g, o = e.reals('ad', (3, 2), -V, V), e.reals('ag', (3, 2), -V, V), e.reals('off', 3, -V, V)
        al['dot'], al['gate'], al['off'] = [[d[i, j] for j in (0, 1)] for i in range(3)], [[g[i, j] for j in (0, 1)] for i in range(3)], [o[i] for i in range(3)]
    s = e.reals('as', (3, 2), -V, V)
    al['sens'] = [[s[i, j] for j in (0, 1)] for i in range(3)]
    return al, d, g, o, s


def potential(e, shape, kinds, form='full', how='ctor', ints=False):
    from simcats.sensor import SensorScanSensorGeneric
    w = World(e)
    P = W.parts()
    al, d, g, o, s = alphas(e, form)
    bar = (P.Barrier(w, 1), P.Barrier(w, 2))
    if how == 'ctor' and form == 'none':
        sensor = SensorScanSensorGeneric(barrier_functions=bar, sensor_peak_function=None, alpha_sensor_gate=s, alpha_dot=None, alpha_gate=None)
    elif how == 'default':
        sensor = SensorScanSensorGeneric(barrier_functions=bar, sensor_peak_function=None, alpha_sensor_gate=s)
    elif how == 'ctor':
        sensor = SensorScanSensorGeneric(barrier_functions=bar, sensor_peak_function=None, alpha_sensor_gate=s, alpha_dot=d, alpha_gate=g, offset_mu_sens=o)
    else:
        sensor = SensorScanSensorGeneric(barrier_functions=P.Barrier(w, 1), sensor_peak_function=None, alpha_sensor_gate=np.ones((3, 2)), alpha_dot=np.ones((3, 2)),
                                         alpha_gate=np.ones(2), offset_mu_sens=np.ones(3))
        sensor.alpha_dot, sensor.alpha_gate, sensor.alpha_sensor_gate = d, g, s
        sensor.offset_mu_sens = 0 if o is None else o
    occ = e.integers('occ', tuple(shape) + (2,), 0, 5) if ints else e.reals('occ', tuple(shape) + (2,), 0, V)
    occ0 = occ.copy()
    gs = gates(e, kinds)
    g0 = [x.copy() if isinstance(x, np.ndarray) else x for x in gs]
    names = ('volt_limits_g1', 'volt_limits_g2', 'volt_limits_sensor_g1', 'volt_limits_sensor_g2')
    kw = {n: x for n, x in zip(names, gs) if x is not None or how != 'default'}
    r = sensor.sensor_potential(occupations=occ, **kw)
    e.observe('r', r)
    e.eq(np.shape(r), (3,) + tuple(shape), 'one potential per sensor part and pixel')
    got, ref = [], []
    for k in range(3):
        for p in np.ndindex(*shape):
            v = W.pixel_volts(shape, p, g0)
            got.append(r[(k,) + p])
            ref.append(W.potential_at(k, al, [occ0[p + (0,)], occ0[p + (1,)]], v))
    e.close(got, ref, 'potential is the offset plus all lever-arm terms of this pixel', 1e-6)
    e.eq(occ, occ0, 'occupations are not modified')
    for a, b in zip(gs, g0):
        if isinstance(a, np.ndarray):
            e.eq(a, b, 'sweep ranges are not modified')
    r2 = sensor.sensor_potential(occupations=occ, **kw)
    e.eq(r2, r, 'evaluating twice gives the same potentials')


def conflict(e, kinds, shape):
    from simcats.sensor import SensorScanSensorGeneric
    w = World(e)
    P = W.parts()
    sensor = SensorScanSensorGeneric(barrier_functions=P.Barrier(w, 1), sensor_peak_function=None, alpha_sensor_gate=np.ones((3, 2)))
    gs = gates(e, kinds)
    occ = e.reals('occ', tuple(shape) + (2,), 0, V)
    _, err = e.catch(lambda: sensor.sensor_potential(occ, *gs), Exception)
    swept = any(k == 's' for k in kinds[:2]) and any(k == 's' for k in kinds[2:])
    bad = swept or len(shape) not in (1, 2)
    e.check(isinstance(err, ValueError) if bad else err is None, 'sweeping plunger and sensor gates at once is refused, everything else accepted')


def refused(e):
    from simcats.sensor import SensorScanSensorGeneric
    w = World(e)
    P = W.parts()
    v = e.real('v', -V, V)
    B = P.Barrier(w, 1)
    base = dict(barrier_functions=B, sensor_peak_function=None, alpha_sensor_gate=np.ones((3, 2)))
    bads = {'alpha_dot': [e.array([v]), e.array([v, v, v]), [v, v], v, 'x', np.ones((2, 3))], 'alpha_gate': [e.array([v]), e.array([v, v, v]), [v, v], v, 'x', np.ones((2, 3))],
            'alpha_sensor_gate': [None, e.array([v, v]), [[1, 1]] * 3, np.ones((2, 3))], 'offset_mu_sens': ['x', None, [v, v, v], e.array([v, v])],
            'barrier_functions': [None, (B,), (B, B, B), (B, None), 'x'], 'sensor_peak_function': ['x', [None], B], 'final_rise': [B, 1.0]}
    for n, bs in bads.items():
        for b in bs:
            s = SensorScanSensorGeneric(**base)
            old = getattr(s, n)
            kw = dict(base)
            kw[n] = b
            _, err = e.catch(lambda: SensorScanSensorGeneric(**kw), Exception)
            e.check(isinstance(err, ValueError), f'malformed {n} is refused')
            _, err = e.catch(lambda: setattr(s, n, b), Exception)
            e.check(isinstance(err, ValueError), f'malformed {n} is refused')
            e.check(getattr(s, n) is old, 'a refused assignment changes nothing')


def scenarios(tier):
    S = []
    shapes = [(1,), (2,), (5,), (1, 1), (2, 3), (3, 2), (3, 4)]
    if tier == 'thorough':
        shapes += [(7,), (6, 5), (1, 4), (4, 1), (2, 7)]
    for s in shapes:
        for k in ('ss--', '--ss', 'ssff', 'ffss'):
            S.append(Scenario(f'{"x".join(map(str, s))} {k}', potential, dict(shape=s, kinds=k)))
    for k in ('sf--', 'fs-i', '--sf', 'i-fs', 'ffff', '----', 's--f', '-si-', 'f-s-', 'iiii'):
        for s in ((3,), (2, 3)):
            S.append(Scenario(f'{"x".join(map(str, s))} {k}', potential, dict(shape=s, kinds=k)))
    for s in ((3,), (2, 2)):
        S.append(Scenario(f'pairs {len(s)}D', potential, dict(shape=s, kinds='ssff', form='pair')))
        S.append(Scenario(f'none {len(s)}D', potential, dict(shape=s, kinds='ssff', form='none')))
        S.append(Scenario(f'defaults {len(s)}D', potential, dict(shape=s, kinds='--ss', form='none', how='default')))
        S.append(Scenario(f'setters {len(s)}D', potential, dict(shape=s, kinds='ffss', how='set')))
        S.append(Scenario(f'setters, pairs {len(s)}D', potential, dict(shape=s, kinds='ss-f', form='pair', how='set')))
        S.append(Scenario(f'setters, none {len(s)}D', potential, dict(shape=s, kinds='ss-f', form='none', how='set')))
        S.append(Scenario(f'integer occupations {len(s)}D', potential, dict(shape=s, kinds='ssff', ints=True)))
    for k in ('ssss', 's-s-', '-s-s', 'sffs', 's--s', 'fss-', 'ssf-', 'ffss'):
        S.append(Scenario(f'conflict {k}', conflict, dict(kinds=k, shape=(2,))))
    S.append(Scenario('dimensions 0', conflict, dict(kinds='ss--', shape=())))
    S.append(Scenario('dimensions 3', conflict, dict(kinds='ss--', shape=(1, 1, 2))))
    S.append(Scenario('refused', refused))
    return S
