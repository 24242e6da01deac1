"""C13 scan sensor response: series conductance"""
import numpy as np

from symx.harness import Scenario
from . import scanworld as W
from .c12 import gates
from .simworld import World, key

FUNCTIONS = ['SensorScanSensorGeneric.sensor_response', 'SensorScanSensorGeneric.sensor_potential', '_peak_func', '_calc_point_from_barrier_potentials']
BOUNDS = ('barrier, peak and rise values arbitrary reals in [0, 4] at every pixel (arbitrary functions of the potential); potentials, occupations, voltages, lever-arms and offsets arbitrary reals in [-8, 8], '
          'sensor gate lever-arms from a fixed list where the final rise is placed; 0..3 peaks; 1D 1..4, 2D up to 3x2 pixels')
OUTSIDE = 'rounding; larger images (pointwise map)'
ASSUMPTIONS = []
V = 8
SENS = [[[1, 0], [1, 0.5], [-0.25, 1]], [[0, 1], [1, 0], [0.5, 2]], [[2, 1], [0, 1], [1, 0]], [[0.5, -1], [2, 0], [0, -1]], [[1, 1], [-1, 0.25], [0.125, -2]]]


def make(e, w, P, peaks=1, rise=False, sens=None, free=True, swap=False, defo=()):
    """sensor with symbolic lever-arms (sens: concrete sensor gate lever-arms)"""
    from simcats.sensor import SensorScanSensorGeneric
    al = {}
    s = np.array(sens, dtype=float) if sens is not None else e.reals('as', (3, 2), -V, V)
    if free:
        d, g, o = e.reals('ad', (3, 2), -V, V), e.reals('ag', (3, 2), -V, V), e.reals('off', 3, -V, V)
    else:
        d, g, o = np.array([[1, 2], [0.5, -1], [0.25, 1]]), np.array([[0.5, 1], [-2, 0.5], [1, 0.25]]), np.array([0.5, -1, 2])
    B = (P.Barrier(w, 1), P.Barrier(w, 2))
    if swap:
        i = [0, 2, 1]
        s, d, g, o, B = s[i], d[i], g[i], o[i], (B[1], B[0])
    al['dot'], al['gate'], al['sens'] = [[[x[k, j] for j in (0, 1)] for k in range(3)] for x in (d, g, s)]
    al['off'] = [o[k] for k in range(3)]
    pk = None if peaks is None else P.Peak(w, 0) if peaks == 1 else [P.Peak(w, i) for i in range(peaks)]
    sensor = SensorScanSensorGeneric(barrier_functions=B, sensor_peak_function=pk, alpha_sensor_gate=s, alpha_dot=d, alpha_gate=g, offset_mu_sens=o,
                                     final_rise=P.Rise(w) if rise else None, sensor_peak_deformations={i: P.Deformation(w, i) for i in defo})
    return sensor, al, B


def mu_arr(e, shape, name='mu'):
    return e.reals(name, (3,) + tuple(shape), -V, V)


def expected(e, w, B, mu, p, npeaks, rise, label):
    """conductances at pixel p: barrier 1, barrier 2, dot"""
    b1, b2 = B[0].get_value(mu[(1,) + p]), B[1].get_value(mu[(2,) + p])
    x = mu[(0,) + p]
    s = x if npeaks is None else 0.0
    for i in range(npeaks or 0):
        s = s + W.each(w, f'p{i}_', x, 0, 4, e.real(f'mu{i}', -4, 4))
    if rise is not None:
        s = e.max(s, rise[p])
    return b1, b2, s


def series(e, b1, b2, s, r):
    num, den = s * b1 * b2, b1 * b2 + s * b1 + s * b2
    return e.and_(e.implies(den == 0, r == 0), e.implies(den != 0, e.and_(r * den - num <= 1e-6, num - r * den <= 1e-6)))


def rise_values(e, w, al, B, mu, shape, occ, g):
    """what the final rise must contribute at each pixel: its offset is the dot potential where both barriers are fully conductive"""
    pt = W.working_point(al, occ, g, [B[0].fully_conductive, B[1].fully_conductive])
    want = W.potential_at(0, al, occ, list(g) + list(pt))
    out = {}
    for p in np.ndindex(*shape):
        recs = [l for l in w.log if l['what'] == 'rise' and any(key(v) == key(mu[(0,) + p]) for v in W.flat(l['inp']))]
        e.check(len(recs) > 0, 'the final rise is evaluated at the dot potential of every pixel')
        out[p] = W.each(w, 'r_', mu[(0,) + p], 0, 4, recs[0]['offset'])
    for l in w.log:
        if l['what'] == 'rise':
            e.close(W.flat(l['offset'])[0] if isinstance(l['offset'], np.ndarray) else l['offset'], want,
                    'the final rise is placed at the dot potential at which both barriers are fully conductive', 1e-6)
    return out


def response(e, shape, kinds='--ss', peaks=1, rise=False, sens=None, real_mu=False, defo=()):
    w = World(e)
    P = W.parts()
    sensor, al, B = make(e, w, P, peaks, rise, sens, free=not rise or len(shape) == 1, defo=defo)
    occ = e.reals('occ', tuple(shape) + (2,), 0, V)
    gs = gates(e, kinds)
    if defo:
        e.assume(gs[0][1] - gs[0][0] >= 0.01)
    pot = sensor.sensor_potential(occ, *gs)
    mu = pot if real_mu else mu_arr(e, shape)
    mu0 = mu.copy()
    r = sensor.sensor_response(mu)
    e.observe('r', r)
    e.eq(np.shape(r), tuple(shape), 'one response per pixel')
    e.eq(mu, mu0, 'the potentials passed in are not modified')
    rv = None
    if rise:
        g = [W.ends(gs[0])[0], W.ends(gs[1])[0]]
        f = (0,) * len(shape)
        rv = rise_values(e, w, al, B, mu0, shape, [occ[f + (0,)], occ[f + (1,)]], g)
    cond = []
    for p in np.ndindex(*shape):
        b1, b2, s = expected(e, w, B, mu0, p, peaks, rv, '')
        cond.append(series(e, b1, b2, s, r[p]))
    e.check(cond, 'response is the series conductance of barrier 1, dot and barrier 2 at this pixel')
    r2 = sensor.sensor_response(mu)
    e.eq(r2, r, 'evaluating a response twice gives the same result')


def bounds(e, swap=False):
    """one pixel: consequences of the series formula, from the real code"""
    w = World(e)
    P = W.parts()
    sensor, al, B = make(e, w, P, 1, False, SENS[0], free=False)
    occ = e.reals('occ', (1, 2), 0, V)
    sensor.sensor_potential(occ, None, None, None, None)
    mu = mu_arr(e, (1,))
    r = sensor.sensor_response(mu)[0]
    b1, b2, s = expected(e, w, B, mu, (0,), 1, None, '')
    e.check(r >= -1e-9, 'response is not negative')
    for x in (b1, b2, s):
        e.check(r <= x + 1e-6, 'response is not above the conductance of any part')
        e.check(e.implies(x == 0, r == 0), 'no response once a part pinches off')
    e.check((r - b1 * b2 / e.ite(b1 + b2 == 0, 1, b1 + b2)) <= 1e-6, 'response is not above the series conductance of the two barriers')
    if swap:
        w2 = World(e)
        w2.memo = w.memo
        s2, _, _ = make(e, w2, P, 1, False, SENS[0], free=False, swap=True)
        s2.sensor_potential(occ, None, None, None, None)
        r2 = s2.sensor_response(e.array([mu[0], mu[2], mu[1]]))[0]
        e.close(r2, r, 'response is unchanged when the barriers exchange roles', 1e-6)


def real_parts(e, shape):
    """the shipped barrier functions, peaks and rise: the response is built from their own values"""
    from simcats.sensor import SensorScanSensorGeneric, SensorPeakLorentzian, SensorPeakGaussian
    from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
    pk = [SensorPeakLorentzian(mu0=e.real('m0', -V, V), gamma=e.real('g', 0.25, 4), height=e.real('h', 0, 4)),
          SensorPeakGaussian(mu0=e.real('m1', -V, V), sigma=e.real('sg', 0.25, 4), height=e.real('h1', 0, 4))]
    b1 = BarrierFunctionGLF(0.01, 0.99, 0, 1, 1, 1, 1)
    b2 = BarrierFunctionMultiGLF(-1, 1, 0, 1, 2, 1, 1, 1, 0)
    sensor = SensorScanSensorGeneric(barrier_functions=(b1, b2), sensor_peak_function=pk, alpha_sensor_gate=np.array(SENS[1], dtype=float))
    occ = np.zeros(tuple(shape) + (2,))
    sensor.sensor_potential(occ, None, None, None, None)
    mu = mu_arr(e, shape)
    r = sensor.sensor_response(mu)
    v1, v2, s = b1.get_value(mu[1]), b2.get_value(mu[2]), pk[0].sensor_function(mu[0]) + pk[1].sensor_function(mu[0])
    e.observe('s', s)
    p = e.choose('p', list(np.ndindex(*shape)))
    num, den = s[p] * v1[p] * v2[p], v1[p] * v2[p] + s[p] * v1[p] + s[p] * v2[p]
    e.close(r[p], np.divide(num, den, out=np.zeros(()), where=den != 0) if not e.sym else e.ite(den == 0, 0.0, num / den), 'response is the series conductance of barrier 1, dot and barrier 2 at this pixel')


def scenarios(tier):
    S = []
    for s in ((1,), (4,), (2, 2), (3, 2)):
        n = 'x'.join(map(str, s))
        for k in ('--ss', 'ss--'):
            S.append(Scenario(f'{n} {k}', response, dict(shape=s, kinds=k)))
        S.append(Scenario(f'{n} no peaks', response, dict(shape=s, peaks=None)))
    S.append(Scenario('own potentials 1D', response, dict(shape=(2,), kinds='ffss', real_mu=True)))
    for n in (2, 3):
        for s in ((3,), (1, 2)):
            S.append(Scenario(f'{n} peaks {len(s)}D', response, dict(shape=s, peaks=n)))
    for i, m in enumerate(SENS):
        for k in ('ffss', 'ss--', 'sf-f'):
            S.append(Scenario(f'final rise {i} {k}', response, dict(shape=(2,), kinds=k, rise=True, sens=m)))
        S.append(Scenario(f'final rise {i} 2D', response, dict(shape=(1, 2), kinds='ffss' if i % 2 else 'ss--', rise=True, sens=m)))
    S.append(Scenario('final rise, 2 peaks', response, dict(shape=(2,), kinds='ffss', rise=True, peaks=2, sens=SENS[2])))
    S.append(Scenario('final rise, no peaks', response, dict(shape=(2,), kinds='ffss', rise=True, peaks=None, sens=SENS[2])))
    for s in ((2,), (1, 2)):
        S.append(Scenario(f'plunger sweep with a deformed peak {len(s)}D', response, dict(shape=s, kinds='ss--', rise=True, sens=SENS[0], defo=(0,))))
    S.append(Scenario('bounds', bounds))
    S.append(Scenario('barriers exchanged', bounds, dict(swap=True)))
    S.append(Scenario('shipped parts', real_parts, dict(shape=(1,))))
    if tier == 'thorough':
        for s in ((7,), (4, 3)):
            for k in ('--ss', 'ss--', 'ffss'):
                S.append(Scenario(f'{"x".join(map(str, s))} {k}', response, dict(shape=s, kinds=k)))
        for i, m in enumerate(SENS):
            S.append(Scenario(f'final rise {i} 3x2', response, dict(shape=(3, 2), kinds='ffss', rise=True, sens=m)))
    return S
