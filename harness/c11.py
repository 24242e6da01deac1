"""C11 generic sensor response: sum of peaks"""
import numpy as np

from symx.harness import Scenario

FUNCTIONS = ['SensorGeneric.sensor_response', 'SensorPeakLorentzian.sensor_function', 'sensor_response_lorentz',
             'SensorPeakGaussian.sensor_function', 'sensor_response_gauss', 'peak and sensor setters']
BOUNDS = 'potentials, mu0, height, offset in [-8, 8]; gamma, sigma in [1/8, 8]; 1..3 peaks in any mix; arrays of shape (2,), (3,), (2,3)'
OUTSIDE = 'rounding; larger images and more peaks (pointwise map, sum over a list)'
ASSUMPTIONS = ['exp: positive, monotone, exp(0)=1, functional congruence']
V = 8


def make(e, kind, i):
    from simcats.sensor import SensorPeakLorentzian, SensorPeakGaussian
    mu0, h, o = e.real(f'mu0{i}', -V, V), e.real(f'h{i}', -V, V), e.real(f'o{i}', -V, V)
    w = e.real(f'w{i}', 0.125, V)
    if kind == 'L':
        return SensorPeakLorentzian(mu0=mu0, gamma=w, height=h, offset=o), (mu0, w, h, o)
    return SensorPeakGaussian(mu0=mu0, sigma=w, height=h, offset=o), (mu0, w, h, o)


def shape_of_peak(e, kind, by='ctor'):
    p, (mu0, w, h, o) = make(e, kind, 0)
    if by == 'set':
        from simcats.sensor import SensorPeakLorentzian, SensorPeakGaussian
        p = SensorPeakLorentzian() if kind == 'L' else SensorPeakGaussian()
        p.mu0, p.height, p.offset = mu0, h, o
        setattr(p, 'gamma' if kind == 'L' else 'sigma', w)
    d, k = e.real('d', 0, V), e.real('k', 0, V)
    x = e.array([mu0, mu0 + d, mu0 - d, mu0 + d + k, mu0 + w, mu0 - w])
    x0 = x.copy()
    y = p.sensor_function(x)
    e.observe('y', y)
    e.close(y[0], o + h, 'the peak reaches offset + height at mu0', 1e-6)
    e.close(y[1], y[2], 'the peak is symmetric about mu0', 1e-6)
    # relative rise (y - offset) / height in [0, 1], decreasing with the distance
    for i in range(6):
        r = y[i] - o
        e.check(e.and_(e.implies(h >= 0, e.and_(r >= -1e-6, r <= h + 1e-6)), e.implies(h <= 0, e.and_(r <= 1e-6, r >= h - 1e-6))),
                'the peak stays between offset and offset + height')
    e.check(e.and_(e.implies(h >= 0, y[3] <= y[1] + 1e-6), e.implies(h <= 0, y[3] >= y[1] - 1e-6)),
            'the peak decreases monotonically away from mu0')
    if kind == 'L':
        for i in (4, 5):
            e.close(y[i], o + h / 2, 'the Lorentzian reaches half its height at gamma', 1e-6)
    else:
        for i in (4, 5):
            e.close(y[i], o + h * np.exp(-1.0), 'the Gaussian falls to height/e at sigma', 1e-5)
    e.eq(x, x0, 'potentials are not modified')


def lorentz_exact(e):
    """gamma is the half width everywhere: the curve is the Lorentzian of the distance in units of gamma"""
    p, (mu0, w, h, o) = make(e, 'L', 0)
    t = e.real('t', -V, V)
    y = p.sensor_function(e.array([mu0 + t * w]))
    e.close((y[0] - o) * (1 + t * t), h, 'Lorentzian of the distance in units of gamma', 1e-5)


def gauss_exact(e):
    p, (mu0, w, h, o) = make(e, 'G', 0)
    t = e.real('t', -4, 4)
    y = p.sensor_function(e.array([mu0 + t * w]))
    e.close(y[0], o + h * e.np.exp(-(t * t)), 'Gaussian of the distance in units of sigma', 1e-5)


def response(e, kinds, shape, single=False):
    from simcats.sensor import SensorGeneric
    ps = [make(e, k, i)[0] for i, k in enumerate(kinds)]
    s = SensorGeneric(sensor_peak_function=ps[0] if single else ps)
    x = e.reals('x', shape, -V, V)
    x0 = x.copy()
    y = s.sensor_response(x)
    e.observe('y', y)
    e.eq(np.shape(y), shape, 'one response value per pixel')
    e.eq(x, x0, 'potentials are not modified')
    for q in np.ndindex(*shape):
        ind = 0.0
        for p in ps:
            ind = ind + p.sensor_function(e.array([x0[q]]))[0]
        e.close(y[q], ind, 'the response is pointwise the sum over all peaks', 1e-6)
    y2 = s.sensor_response(x0)
    e.eq(y2, y, 'evaluating twice gives the same response')


def linear(e, shape):
    from simcats.sensor import SensorGeneric
    x = e.reals('x', shape, -V, V)
    y = SensorGeneric().sensor_response(x)
    e.eq(y, x, 'without peaks the potential itself is returned')
    y = SensorGeneric(sensor_peak_function=None).sensor_response(x)
    e.eq(y, x, 'without peaks the potential itself is returned')


def refused(e):
    from simcats.sensor import SensorGeneric, SensorPeakLorentzian, SensorPeakGaussian
    w = e.real('w', -V, V)
    for cls, n in ((SensorPeakLorentzian, 'gamma'), (SensorPeakGaussian, 'sigma')):
        _, ex = e.catch(lambda: cls(**{n: w}), ValueError)
        if ex is not None:
            e.check(w <= 0, 'only a non-positive width is refused')
        else:
            e.check(w > 0, 'a non-positive width is refused')
        p = cls()
        old = getattr(p, n)
        _, ex = e.catch(lambda: setattr(p, n, w), ValueError)
        e.check((ex is None) == bool(w > 0), 'a non-positive width is refused by the setter')
        e.check(getattr(p, n) == (w if ex is None else old), 'a refused width changes nothing')
    for bad in (1.0, 'x', [SensorPeakLorentzian(), 1.0], [None], (1, 2), SensorPeakLorentzian):
        s = SensorGeneric(sensor_peak_function=SensorPeakLorentzian(mu0=w))
        _, ex = e.catch(lambda: setattr(s, 'sensor_peak_function', bad), Exception)
        e.check(isinstance(ex, ValueError), 'objects that are no peaks are refused')
        e.check(s.sensor_peak_function[0].mu0 == w, 'a refused assignment changes nothing')


def owns(e):
    """the sensor owns its peaks"""
    from simcats.sensor import SensorGeneric
    p, (mu0, w, h, o) = make(e, 'L', 0)
    q, _ = make(e, 'L', 1)
    s, s2 = SensorGeneric(sensor_peak_function=p), SensorGeneric(sensor_peak_function=[p, q])
    x = e.reals('x', (2,), -V, V)
    a, b = s.sensor_response(x), s2.sensor_response(x)
    p.mu0 = mu0 + 1
    q.height = h + 3
    e.eq(s.sensor_response(x), a, 'changing the peak object of the caller does not change the sensor')
    e.eq(s2.sensor_response(x), b, 'changing the peak objects of the caller does not change the sensor')


def scenarios(tier):
    S = []
    for k in 'LG':
        for by in ('ctor', 'set'):
            S.append(Scenario(f'peak_{k}_{by}', shape_of_peak, dict(kind=k, by=by)))
    S.append(Scenario('lorentz_exact', lorentz_exact))
    S.append(Scenario('gauss_exact', gauss_exact))
    for kinds in ('L', 'G', 'LL', 'LG', 'GGL') + (('LLLL', 'GLGLG') if tier == 'thorough' else ()):
        for shape in ((2,), (2, 3), (3, 1)):
            S.append(Scenario(f'response_{kinds}_{"x".join(map(str, shape))}', response, dict(kinds=kinds, shape=shape)))
    S.append(Scenario('response_single', response, dict(kinds='L', shape=(2, 2), single=True)))
    S.append(Scenario('response_single_G', response, dict(kinds='G', shape=(2, 2), single=True)))
    for shape in ((2,), (2, 3)):
        S.append(Scenario(f'linear_{len(shape)}d', linear, dict(shape=shape)))
    S.append(Scenario('refused', refused))
    S.append(Scenario('owns', owns))
    return S
