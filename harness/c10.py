"""C10 generic sensor potential"""
import numpy as np

from symx.harness import Scenario

FUNCTIONS = ['SensorGeneric.__init__', 'SensorGeneric.sensor_potential', 'SensorGeneric setters']
BOUNDS = 'occupations, lever-arms, offset and sweep ranges arbitrary reals in [-8, 8]; images 1D with 1..6 (thorough 12) pixels, 2D up to 4x4 (thorough 6x7)'
OUTSIDE = 'rounding; larger images (every pixel is computed by the same expression)'
ASSUMPTIONS = []
V = 8


def volt(rng, k, n):
    """voltage of pixel k of n evenly spaced ones, both ends included (times (n-1))"""
    return rng[0] if n == 1 else (rng[0] * (n - 1 - k) + rng[1] * k) / (n - 1)


def potential(e, shape, mode='ctor', kw=False):
    from simcats.sensor import SensorGeneric
    ad, ag = e.reals('ad', 2, -V, V), e.reals('ag', 2, -V, V)
    off = e.real('off', -V, V)
    a0, b0 = ad.copy(), ag.copy()
    if mode == 'ctor':
        s = SensorGeneric(alpha_dot=ad, alpha_gate=ag, offset_mu_sens=off)
    elif mode == 'default':
        s = SensorGeneric()
        a0, b0, off = (-1, -1), (0, 0), 0
    else:
        s = SensorGeneric()
        s.alpha_dot = ad
        s.alpha_gate = ag
        s.offset_mu_sens = off
    if mode != 'default':
        # the sensor owns its configuration
        z = e.real('z', -V, V)
        ad[0] = z
        ag[1] = z
    occ = e.reals('occ', tuple(shape) + (2,), 0, V)
    occ0 = occ.copy()
    g1, g2 = e.reals('g1', 2, -V, V), e.reals('g2', 2, -V, V)
    g10, g20 = g1.copy(), g2.copy()
    r = s.sensor_potential(occupations=occ, volt_limits_g1=g1, volt_limits_g2=g2) if kw else s.sensor_potential(occ, g1, g2)
    e.observe('r', r)
    e.eq(np.shape(r), tuple(shape), 'one potential per pixel')
    for p in np.ndindex(*shape):
        if len(shape) == 2:
            v1, v2 = volt(g1, p[1], shape[1]), volt(g2, p[0], shape[0])
        else:
            v1, v2 = volt(g1, p[0], shape[0]), volt(g2, p[0], shape[0])
        o = occ0[p]
        e.close(r[p], off + a0[0] * o[0] + a0[1] * o[1] + b0[0] * v1 + b0[1] * v2,
                'potential is the offset plus lever-arm terms of this pixel', 1e-6)
    e.eq(occ, occ0, 'occupations are not modified')
    e.eq(g1, g10, 'sweep range of gate 1 is not modified')
    e.eq(g2, g20, 'sweep range of gate 2 is not modified')
    r2 = s.sensor_potential(occ, g1, g2)
    e.eq(r2, r, 'evaluating twice gives the same potential')


def ranges(e, shape, kind):
    """tuples and lists as sweep ranges, integer occupations"""
    from simcats.sensor import SensorGeneric
    ad, ag = e.reals('ad', 2, -V, V), e.reals('ag', 2, -V, V)
    off = e.real('off', -V, V)
    s = SensorGeneric(alpha_dot=ad, alpha_gate=ag, offset_mu_sens=off)
    occ = e.integers('occ', tuple(shape) + (2,), 0, 5)
    g1, g2 = e.reals('g1', 2, -V, V), e.reals('g2', 2, -V, V)
    a = s.sensor_potential(occ, g1, g2)
    b = s.sensor_potential(occ, kind((g1[0], g1[1])), kind((g2[0], g2[1])))
    e.close(a, b, 'sweep ranges may be any sequence of two values')
    # reversing a range while mirroring the occupations mirrors the potential
    if len(shape) == 2:
        c = s.sensor_potential(occ[:, ::-1], g1[::-1], g2)
        e.close(c[:, ::-1], a, 'a reversed sweep mirrors the potential (gate 1)', 1e-6)
        c = s.sensor_potential(occ[::-1], g1, g2[::-1])
        e.close(c[::-1], a, 'a reversed sweep mirrors the potential (gate 2)', 1e-6)
    else:
        c = s.sensor_potential(occ[::-1], g1[::-1], g2[::-1])
        e.close(c[::-1], a, 'a reversed sweep mirrors the potential', 1e-6)


def refused(e):
    from simcats.sensor import SensorGeneric
    v = e.real('v', -V, V)
    for k in ('alpha_dot', 'alpha_gate'):
        for bad in (e.array([v]), e.array([v, v, v]), [v, v], v, None, 'x'):
            s = SensorGeneric(alpha_dot=e.array([v, 1.0]), alpha_gate=e.array([v, 2.0]))
            old = getattr(s, k).copy()
            _, ex = e.catch(lambda: SensorGeneric(**{k: bad}), Exception)
            e.check(isinstance(ex, ValueError), f'malformed {k} is refused')
            _, ex = e.catch(lambda: setattr(s, k, bad), Exception)
            e.check(isinstance(ex, ValueError), f'malformed {k} is refused')
            e.eq(getattr(s, k), old, 'a refused assignment changes nothing')
    for bad in ('x', None, [v], e.array([v, v])):
        s = SensorGeneric(offset_mu_sens=v)
        _, ex = e.catch(lambda: setattr(s, 'offset_mu_sens', bad), Exception)
        e.check(isinstance(ex, ValueError), 'malformed offset is refused')
        e.check(s.offset_mu_sens == v, 'a refused assignment changes nothing')


def scenarios(tier):
    S = []
    shapes = [(1,), (2,), (3,), (6,), (1, 1), (2, 3), (3, 2), (4, 4), (1, 4), (5, 2)]
    if tier == 'thorough':
        shapes += [(9,), (12,), (6, 7), (7, 3), (3, 8), (5, 5)]
    for s in shapes:
        S.append(Scenario('potential_' + 'x'.join(map(str, s)), potential, dict(shape=s)))
    S.append(Scenario('potential_setters', potential, dict(shape=(2, 3), mode='set', kw=True)))
    S.append(Scenario('potential_default', potential, dict(shape=(2, 3), mode='default', kw=True)))
    S.append(Scenario('potential_default1d', potential, dict(shape=(3,), mode='default')))
    for k in (list, tuple):
        for s in ((3,), (2, 3), (3, 2)):
            S.append(Scenario(f'ranges_{k.__name__}_{"x".join(map(str, s))}', ranges, dict(shape=s, kind=k)))
    S.append(Scenario('refused', refused))
    return S
