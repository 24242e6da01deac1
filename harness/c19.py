"""C19 white and pink noise"""
import numpy as np

from symx.harness import Scenario
from symx.stubs import StubRNG
from . import scanworld as W

FUNCTIONS = ['SensorResponseWhiteNoise.noise_function', 'white_gaussian_noise', 'SensorPotentialPinkNoise.noise_function', 'pink_gaussian_noise', 'setters']
BOUNDS = 'data arbitrary reals in [-8, 8]; strengths in [0, 8]; every stream of normal values; 1D 1..5, 2D up to 3x4, stacked potentials (3, 2, 2); fixed or sampled strength; 1..2 repetitions'
OUTSIDE = 'rounding; larger images; colour of the noise (the pink noise generator is colorednoise.powerlaw_psd_gaussian: an arbitrary sequence here, called with exponent 1 and the configured cut-off)'
ASSUMPTIONS = ['colorednoise.powerlaw_psd_gaussian returns one sequence of the requested length']
V = 8


class Colored:
    """colorednoise.powerlaw_psd_gaussian: an arbitrary sequence of the requested length"""

    def __init__(self, e):
        self.e, self.calls = e, []
        e.colored = self

    def __call__(self, exponent, size, fmin=0, random_state=None):
        k = len(self.calls)
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(v) for v in size)
        vals = self.e.reals(f'pink{k}', shape, -V, V)
        self.calls.append(dict(exponent=exponent, shape=shape, fmin=fmin, rng=random_state, values=W.flat(vals.copy())))
        return vals


def cn_stub(e):
    return Colored(e)


def colored():
    import colorednoise
    return {colorednoise.powerlaw_psd_gaussian: cn_stub}


class Strength:
    def __init__(self, e):
        from simcats.support_functions import ParameterSamplingInterface

        class S(ParameterSamplingInterface):
            n, last = 0, None

            def sample_parameter(s):
                s.n += 1
                s.last = e.real(f'strength{s.n}', 0, V)
                return s.last

            def last_sample(s):
                return s.last
        self.s = S()


def noise(e, kind, shape, sampled=False, by='ctor', repeat=1):
    from simcats.distortions import SensorResponseWhiteNoise, SensorPotentialPinkNoise
    g = StubRNG(e, 'g')
    sigma = Strength(e).s if sampled else e.real('sigma', 0, V)
    fmin = e.real('fmin', 0, 0.5)
    if kind == 'white':
        D = SensorResponseWhiteNoise(sigma=sigma, rng=g) if by == 'ctor' else SensorResponseWhiteNoise(sigma=17.0)
    else:
        D = SensorPotentialPinkNoise(sigma=sigma, fmin=fmin, rng=g) if by == 'ctor' else SensorPotentialPinkNoise(sigma=17.0)
        if by != 'ctor':
            D.fmin = fmin
    if by != 'ctor':
        D.sigma, D.rng = sigma, g
    g1, g2 = e.reals('g1', 2, -V, V), e.reals('g2', 2, -V, V)
    for k in range(repeat):
        x = e.reals(f'x{k}', shape, -V, V)
        x0 = x.copy()
        start = len(g.values)
        r = D.noise_function(x, g1, g2)
        e.observe(f'r{k}', r)
        e.eq(np.shape(r), tuple(shape), 'noise keeps the shape of the data')
        e.eq(x, x0, 'the data passed in is left unchanged')
        s = e.real(f'strength{k + 1}', 0, V) if sampled else sigma
        if sampled:
            e.check(sigma.n == k + 1, 'the strength is sampled once per measurement')
        e.close(D.latest_sigma, s, 'the strength used is reported', 0)
        if kind == 'white':
            z = g.values[start:]
        else:
            c = e.colored.calls if hasattr(e, 'colored') else []
            e.check(len(c) == k + 1, 'one pink noise sequence per measurement')
            e.check(c[k]['exponent'] == 1, 'the noise is pink')
            e.check(c[k]['rng'] is g, 'the configured generator is used')
            e.close(c[k]['fmin'], fmin, 'the configured cut-off is used', 0)
            z = c[k]['values']
        e.check(len(z) == x0.size, 'one noise value per pixel')
        e.close(W.flat(r), [a + s * b for a, b in zip(W.flat(x0), z)],
                'output = data + strength * noise, the noise of consecutive pixels (row after row) being consecutive noise values', 1e-6)


def zero(e, kind, shape):
    from simcats.distortions import SensorResponseWhiteNoise, SensorPotentialPinkNoise
    D = (SensorResponseWhiteNoise if kind == 'white' else SensorPotentialPinkNoise)(sigma=e.choose('z', [0, 0.0]), rng=StubRNG(e, 'g'))
    x = e.reals('x', shape, -V, V)
    e.close(D.noise_function(x, np.array([0, 1]), np.array([0, 1])), x.copy(), 'zero strength leaves the data as is', 0)


def scenarios(tier):
    S = []
    f = colored()
    shapes = [(1,), (2,), (5,), (1, 1), (2, 3), (3, 4), (4, 1), (5, 2), (1, 3), (3, 2, 2), (3, 3)]
    if tier == 'thorough':
        shapes += [(40,), (9, 7), (3, 5, 4)]
    for kind in ('white', 'pink'):
        for s in shapes:
            n = 'x'.join(map(str, s))
            S.append(Scenario(f'{kind} {n}', noise, dict(kind=kind, shape=s), foreign=f, random=True))
            S.append(Scenario(f'{kind} {n} sampled twice', noise, dict(kind=kind, shape=s, sampled=True, repeat=2), foreign=f, random=True))
        for s in ((3,), (2, 2)):
            S.append(Scenario(f'{kind} setters {len(s)}D', noise, dict(kind=kind, shape=s, by='set', repeat=2), foreign=f, random=True))
            S.append(Scenario(f'{kind} setters, sampled {len(s)}D', noise, dict(kind=kind, shape=s, by='set', sampled=True), foreign=f, random=True))
            S.append(Scenario(f'{kind} zero {len(s)}D', zero, dict(kind=kind, shape=s), foreign=f, random=True))
    return S
