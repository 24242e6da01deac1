"""C16 logistic barrier and rise functions"""
import numpy as np

from symx.harness import Scenario

FUNCTIONS = ['glf', 'inverse_glf', 'multi_glf', 'BarrierFunctionGLF', 'BarrierFunctionMultiGLF', 'SensorRiseGLF']
BOUNDS = ('asymptotes, potentials, offsets in [-4, 4], growth rate in [1/8, 8], shape factor in [1/8, 4], denominator offset in [1/8, 4], percentages in '
          '[1/100, 99/100], all arbitrary reals; asymmetry in {1/2, 1, 2} (1/asymmetry is a power for the solver); 1..3 steps; arrays of shape (2,), (2,2)')
OUTSIDE = 'other asymmetries (only argument checks are decided for all), over-/underflow of exp, rounding'
ASSUMPTIONS = ['exp/log: strictly monotone, mutually inverse, exp(0)=1, exp(t)>=1+t']
V = 4


def params(e, i='', nu=1.0, rising=True, C=True, off=True, g=None):
    aL = e.real('aL' + i, -V, V)
    aR = e.real('aR' + i, -V, V)
    e.assume(aR > aL + 0.125 if rising else aR < aL - 0.125)
    return dict(asymptote_left=aL, asymptote_right=aR, growth_rate=e.real('g' + i, 0.125, 8) if g is None else g, asymmetry=nu,
                shape_factor=e.real('Q' + i, 0.125, 4), denominator_offset=e.real('C' + i, 0.125, 4) if C else 1,
                offset=e.real('o' + i, -V, V) if off else 0)


def nu_root(e, y, nu):
    """y ** nu for the supported asymmetries"""
    return {0.5: e.np.sqrt(y), 1.0: y, 2.0: y * y}[nu]


def curve(e, nu, C, rising=True, by='glf'):
    from simcats.support_functions import glf
    from simcats.sensor.barrier_function import BarrierFunctionGLF
    p = params(e, '', nu, rising, C)
    if by == 'glf':
        f = lambda x: glf(x, **p)  # noqa: E731
    elif by == 'default':
        q = {k: v for k, v in p.items() if k not in ('denominator_offset', 'offset')}
        p['denominator_offset'], p['offset'] = 1, 0
        f = lambda x: glf(x, **q)  # noqa: E731
    elif by == 'barrier':
        b = BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, **p)
        f = b.get_value
    elif by == 'barrier_set':
        b = BarrierFunctionGLF(0.2, 0.9, 0, 1, 1, 1, 1)
        for k, v in p.items():
            setattr(b, k, v)
        f = b.get_value
    x = e.reals('x', (2,), -V, V)
    x0 = x.copy()
    y = f(x)
    e.observe('y', y)
    e.eq(x, x0, 'potentials are not modified')
    e.eq(np.shape(y), (2,), 'one value per potential')
    aL, aR, Cv, Q = p['asymptote_left'], p['asymptote_right'], p['denominator_offset'], p['shape_factor']
    for k in range(2):
        # (aR - aL) = (y - aL) (C + Q exp(-g (x - offset)))^(1/nu)
        E = e.np.exp(-p['growth_rate'] * (x0[k] - p['offset']))
        base = Cv + Q * E
        r = {0.5: base * base, 1.0: base, 2.0: e.np.sqrt(base)}[nu]
        e.check(e.and_((y[k] - aL) * r <= aR - aL + 1e-6 * r, (y[k] - aL) * r >= aR - aL - 1e-6 * r), 'the value is that of the generalised logistic function')
        e.check(y[k] > aL - 1e-9 if rising else y[k] < aL + 1e-9, 'the curve stays on its side of the lower asymptote')
        if not C or by == 'default':
            e.check(y[k] < aR + 1e-9 if rising else y[k] > aR - 1e-9, 'the curve stays on its side of the upper asymptote')
    if by == 'glf':
        e.assume(x0[0] < x0[1])
        e.check(y[0] < y[1] + 1e-9 if rising else y[0] + 1e-9 > y[1], 'the curve is monotone')
    # scalars
    e.close(f(x0[1]), y[1], 'a scalar potential gives the same value', 1e-9)


def inverse(e, nu, C, rising=True):
    from simcats.support_functions import glf
    from simcats.support_functions._generalized_logistic_function import inverse_glf
    p = params(e, '', nu, rising, C)
    x = e.real('x', -V, V)
    y = glf(x, **p)
    z = inverse_glf(y, **p)
    e.observe('z', z)
    e.close(z, x, 'the inverse recovers the argument', 1e-3)


def inverse2(e, nu, C, rising=True):
    """value -> argument -> value"""
    from simcats.support_functions import glf
    from simcats.support_functions._generalized_logistic_function import inverse_glf
    p = params(e, '', nu, rising, C)
    q = e.real('q', 1 / 128, 127 / 128)
    aL, aR = p['asymptote_left'], p['asymptote_right']
    # (1/q)^nu > C keeps the value below the upper asymptote of the curve
    w = nu_root(e, 1 / q, nu)
    e.assume(w > p['denominator_offset'] + 0.0625)
    v = aL + q * (aR - aL)
    x = inverse_glf(v, **p)
    e.observe('x', x)
    e.close(glf(x, **p), v, 'the curve takes the value at the inverse', 1e-4)
    arr = inverse_glf(e.array([v, v]), **p)
    e.close(arr, [x, x], 'the inverse works on arrays', 1e-6)


def barrier(e, nu, rising=True, by='ctor'):
    from simcats.sensor.barrier_function import BarrierFunctionGLF
    p = params(e, '', nu, rising, False)
    po, fc = e.real('po', 1 / 100, 99 / 100), e.real('fc', 1 / 100, 99 / 100)
    if by == 'ctor':
        b = BarrierFunctionGLF(po, fc, **p)
    elif by == 'default':
        p = {k: v for k, v in p.items() if k not in ('denominator_offset', 'offset')}
        b = BarrierFunctionGLF(po, fc, **p)
    else:
        b = BarrierFunctionGLF(0.2, 0.9, 0, 1, 1, 1, 1)
        b.pinch_off, b.fully_conductive  # noqa: B018  thresholds follow later changes of the parameters
        for k, v in dict(p, pinch_off_percentage=po, fully_conductive_percentage=fc).items():
            setattr(b, k, v)
    aL, aR = p['asymptote_left'], p['asymptote_right']
    lo, d = (aL, aR - aL) if rising else (aR, aL - aR)
    x1, x2 = b.pinch_off, b.fully_conductive
    e.observe('x', [x1, x2])
    e.close(b.get_value(x1), lo + po * d, 'at the pinch-off potential the barrier has risen by exactly the pinch-off percentage of its range', 1e-4)
    e.close(b.get_value(x2), lo + fc * d, 'at the fully conductive potential the barrier has risen by exactly the configured percentage of its range', 1e-4)
    if rising:
        e.assume(po < fc - 0.01)
        e.check(x1 < x2 + 1e-9, 'the barrier pinches off below the potential at which it is fully conductive')
    for k, v in p.items():
        e.eq(getattr(b, k), v, 'the parameters are reported as configured')


def mono_thresholds(e, nu):
    from simcats.sensor.barrier_function import BarrierFunctionGLF
    p = params(e, '', nu, True, False)
    po, fc = e.real('po', 1 / 100, 99 / 100), e.real('fc', 1 / 100, 99 / 100)
    b = BarrierFunctionGLF(po, fc, **p)
    x = e.real('x', -V, V)
    x1 = b.pinch_off
    y, y1 = b.get_value(x), b.get_value(x1)
    if e.choose('side', [0, 1]):
        e.assume(x > x1)
        e.check(y > y1 - 1e-9, 'below its pinch-off potential the barrier has risen less, above it more than the percentage')
    else:
        e.assume(x < x1)
        e.check(y < y1 + 1e-9, 'below its pinch-off potential the barrier has risen less, above it more than the percentage')


def multi(e, n, shape, by):
    from simcats.support_functions import glf, multi_glf
    from simcats.sensor.barrier_function import BarrierFunctionMultiGLF
    ps = [params(e, str(i), [1.0, 0.5, 2.0][i], True, i != 1, g=1.0 + i) for i in range(n)]
    flat = [v for p in ps for v in p.values()]
    x = e.reals('x', shape, -V, V) if shape else e.real('x', -V, V)
    po, fc = e.real('po', -V, V), e.real('fc', -V, V)
    if by == 'f':
        y = multi_glf(x, *flat)
    else:
        if by == 'ctor':
            b = BarrierFunctionMultiGLF(po, fc, *flat)
        else:
            b = BarrierFunctionMultiGLF(0.0, 1.0, *([1.0] * 7))
            b.params = tuple(flat)
            b.pinch_off, b.fully_conductive = po, fc
        y = b.get_value(x)
        e.eq(b.pinch_off, po, 'the pinch-off potential is the configured one')
        e.eq(b.fully_conductive, fc, 'the fully conductive potential is the configured one')
        e.eq(list(b.params), flat, 'the parameters are the configured ones')
    e.observe('y', y)
    for q in np.ndindex(*shape):
        ind = 0.0
        for p in ps:
            ind = ind + glf(x[q] if shape else x, **p)
        e.close(y[q] if shape else y, ind, 'a multi-step barrier is the pointwise sum of its steps', 1e-6)


def rise(e, nu, rising=True, C=False, by='ctor'):
    from simcats.sensor import SensorRiseGLF
    p = params(e, '', nu, rising, C)
    mu0 = p.pop('offset')
    fc = e.real('fc', 1 / 100, 99 / 100)
    if C:
        e.assume(nu_root(e, 1 / fc, nu) > p['denominator_offset'] + 0.0625)
    if by == 'ctor':
        s = SensorRiseGLF(mu0=mu0, fully_conductive_percentage=fc, **p)
    else:
        s = SensorRiseGLF(0, 0, 1, 1, 1, 1)
        s.fully_conductive  # noqa: B018
        for k, v in dict(p, mu0=mu0, fully_conductive_percentage=fc).items():
            setattr(s, k, v)
    aL, aR = p['asymptote_left'], p['asymptote_right']
    off, d = e.real('off', -V, V), e.real('d', -V, V)
    off2 = e.real('off2', -V, V)
    mu = e.array([off, off + d])
    y = s.sensor_function(mu, off)
    e.observe('y', y)
    e.close(y[0], aL + fc * (aR - aL), 'the rise has reached its fully conductive percentage exactly at the requested potential', 1e-4)
    y2 = s.sensor_function(e.array([off2, off2 + d]), off2)
    e.close(y2, y, 'the rise is only shifted by the requested potential', 1e-4)
    # the reported fully conductive potential is where the unshifted rise has risen by the percentage
    from simcats.support_functions import glf
    e.close(glf(s.fully_conductive, offset=mu0, **p), aL + fc * (aR - aL), 'fully_conductive is where the unshifted rise has risen by the percentage', 1e-4)
    e.close(s.sensor_function(mu, s.fully_conductive)[1], glf(mu[1], offset=mu0 + 0 * off, **p), 'shifting to its own fully conductive potential leaves the rise as configured', 1e-3)


def refused(e):
    from simcats.sensor import SensorRiseGLF
    from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
    nu = e.real('nu', -V, V)
    for mk in (lambda v: BarrierFunctionGLF(0.1, 0.9, 0, 1, 1, v, 1), lambda v: SensorRiseGLF(0, 0, 1, 1, v, 1)):
        o, ex = e.catch(lambda: mk(nu), ValueError)
        e.check((ex is None) == bool(nu > 0), 'exactly a non-positive asymmetry is refused')
        o = mk(1.0)
        _, ex = e.catch(lambda: setattr(o, 'asymmetry', nu), ValueError)
        e.check((ex is None) == bool(nu > 0), 'exactly a non-positive asymmetry is refused')
        e.check(o.asymmetry == (nu if ex is None else 1.0), 'a refused asymmetry changes nothing')
    for n in range(1, 23):
        ps = [nu] * n
        _, ex = e.catch(lambda: BarrierFunctionMultiGLF(0.0, 1.0, *ps), ValueError)
        e.check((ex is not None) == (n % 7 != 0), 'exactly parameter lists that are not made of groups of seven are refused')
        b = BarrierFunctionMultiGLF(0.0, 1.0, *([1.0] * 7))
        _, ex = e.catch(lambda: setattr(b, 'params', tuple(ps)), ValueError)
        e.check((ex is not None) == (n % 7 != 0), 'exactly parameter lists that are not made of groups of seven are refused')
        e.eq(len(b.params), 7 if ex is not None else n, 'a refused parameter list changes nothing')


def scenarios(tier):
    S = []
    for nu in (0.5, 1.0, 2.0):
        for C in (False, True):
            for rising in (True, False):
                t = f'{nu}_{"C" if C else "1"}_{"up" if rising else "down"}'
                S.append(Scenario('curve_' + t, curve, dict(nu=nu, C=C, rising=rising)))
                S.append(Scenario('inverse_' + t, inverse, dict(nu=nu, C=C, rising=rising)))
                S.append(Scenario('inverse2_' + t, inverse2, dict(nu=nu, C=C, rising=rising)))
                S.append(Scenario('rise_' + t, rise, dict(nu=nu, C=C, rising=rising)))
        for rising in (True, False):
            S.append(Scenario(f'barrier_{nu}_{"up" if rising else "down"}', barrier, dict(nu=nu, rising=rising)))
        S.append(Scenario(f'mono_thresholds_{nu}', mono_thresholds, dict(nu=nu)))
    for by in ('default', 'barrier', 'barrier_set'):
        S.append(Scenario(f'curve_{by}', curve, dict(nu=1.0, C=True, by=by)))
    S.append(Scenario('barrier_set', barrier, dict(nu=1.0, by='set')))
    S.append(Scenario('barrier_set2', barrier, dict(nu=2.0, rising=False, by='set')))
    S.append(Scenario('barrier_default', barrier, dict(nu=1.0, by='default')))
    S.append(Scenario('rise_set', rise, dict(nu=1.0, by='set')))
    for n, shape, by in ((1, (2,), 'f'), (2, (2, 2), 'f'), (3, (2,), 'f'), (3, (), 'f'), (1, (2,), 'ctor'), (2, (2, 2), 'ctor'), (2, (2,), 'set'), (3, (), 'ctor')):
        S.append(Scenario(f'multi_{n}_{by}_{"x".join(map(str, shape)) or "scalar"}', multi, dict(n=n, shape=shape, by=by)))
    S.append(Scenario('refused', refused))
    return S
