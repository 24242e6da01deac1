"""C20 random telegraph noise"""
import numpy as np

from symx import core
from symx.harness import Scenario
from symx.stubs import StubRNG
from . import scanworld as W

FUNCTIONS = ['SensorPotentialRTN.noise_function', 'SensorResponseRTN.noise_function', 'RandomTelegraphNoise.noise_function', 'random_telegraph_noise', 'setters']
BOUNDS = 'data and burst magnitudes arbitrary reals; every history of drawn segment lengths 1..n (n pixels, n <= 6), normal values and activation draws; shapes (n,), (1, n), (n, 1), (2, 2), (2, 3), (3, 2); arbitrary sweep ranges (either direction, g1 only, g2 only, both), scale any positive voltage (also below one pixel); fixed or sampled parameters'
OUTSIDE = 'more than 6 pixels; distribution of the drawn lengths (numpy); rounding'
ASSUMPTIONS = ['rng.geometric returns integers >= 1 and refuses p outside (0, 1]; rng.binomial(1, p) returns 0 or 1, 0 for p=0, 1 for p=1']
V = 8


def sampler(e, name, lo, hi, open=False):
    from simcats.support_functions import ParameterSamplingInterface

    class S(ParameterSamplingInterface):
        n, last = 0, None

        def sample_parameter(s):
            s.n += 1
            s.last = e.real(f'{name}{s.n}', lo, hi, open=open)
            return s.last

        def last_sample(s):
            return s.last
    return S()


def ranges(e, mode):
    g1, g2 = e.reals('g1', 2, -2, 2), e.reals('g2', 2, -2, 2)
    a, b = abs(g1[1] - g1[0]), abs(g2[1] - g2[0])
    if mode == 'g1':
        g2[1] = g2[0]
        e.assume(a >= 0.01)
    elif mode == 'g2':
        g1[1] = g1[0]
        e.assume(b >= 0.01)
    else:
        e.assume([a >= 0.01, b >= 0.01])
    return g1, g2, a, b


def per_volt(shape, mode, a, b):
    """(pixels, range) pairs of the swept gates; in 2D the larger ratio counts, in 1D the larger range"""
    ny, nx = (shape[0], shape[0]) if len(shape) == 1 else shape
    r = []
    if mode != 'g2':
        r.append((nx, a))
    if mode != 'g1':
        r.append((ny, b))
    return r


def build(e, cls, g, par, ratio, by):
    import simcats.distortions as d
    C = getattr(d, cls)
    if by == 'ctor':
        return C(ratio=ratio, rng=g, **par)
    D = C(scale=33.0, std=44.0, height=55.0, ratio=0.5)
    for k, v in par.items():
        setattr(D, k, v)
    D.ratio, D.rng = ratio, g
    return D


def rtn(e, cls, shape, mode, sampled=False, by='ctor', ratio=1, repeat=1, few=False):
    n = int(np.prod(shape))
    g1, g2, a, b = ranges(e, mode)
    if sampled:
        par = dict(scale=sampler(e, 'scale', 0, V, True), std=sampler(e, 'std', 0, V), height=sampler(e, 'height', -V, V))
    else:
        par = dict(scale=e.real('scale', 0, V, open=True), std=e.real('std', 0, V), height=e.real('height', -V, V))
    g = StubRNG(e, 'g')
    g.geo_max = n
    if ratio == 'any':
        ratio = e.real('ratio', 0, 1)
    D = build(e, cls, g, par, ratio, by)
    act = 0
    for k in range(repeat):
        x = e.reals(f'x{k}', shape, -V, V)
        x0 = x.copy()
        ng, nz, nc = len(g.by_kind.get('geometric', [])), len(g.by_kind.get('normal', [])), len(g.calls)
        r = D.noise_function(x, g1, g2)
        e.observe(f'r{k}', r)
        e.eq(np.shape(r), tuple(shape), 'noise keeps the shape of the data')
        e.eq(x, x0, 'the data passed in is left unchanged')
        on = D.activated
        if few:
            e.assume(g.by_kind['geometric'][0] >= n - 1)
        e.check(on is not None and np.ndim(on) == 0, 'activation is reported')
        on = bool(on)
        if not core.is_sym(ratio) and ratio in (0, 1):
            e.check(on == bool(ratio), 'ratio 1: always active, ratio 0: never active')
        if not on:
            e.check(core.implies(ratio == 1, False), 'ratio 1: always active')
            e.eq(r, x0, 'an inactive distortion leaves the data as is')
            continue
        e.check(core.implies(ratio == 0, False), 'ratio 0: never active')
        act += 1
        if sampled:
            e.check([par[p].n == act for p in par], 'parameters are sampled once per active measurement')
            sc, std, h = (e.real(f'{p}{act}') for p in ('scale', 'std', 'height'))
        else:
            sc, std, h = par['scale'], par['std'], par['height']
        rel = per_volt(shape, mode, a, b)
        ps = [c[1] for c in g.calls[nc:] if c[0] == 'geometric']
        e.check(len(ps) >= 1, 'segment lengths are geometrically distributed')
        L = g.by_kind['geometric'][ng:]
        Z = g.by_kind.get('normal', [])[nz:]
        R, X = W.flat(r), W.flat(x0)
        # lengths are decided by the path: segments in measurement order
        seg, pos, k2 = [], 0, 0
        while pos < n:
            l = int(L[k2])
            seg.append((pos, min(n, pos + l)))
            pos += l
            k2 += 1
        # mean length in pixels: max over swept gates of scale * pixels / range, at least one pixel
        for p in ps if len(seg) <= 2 else []:
            fits = []
            for m, d in rel:
                others = [(m * d2 >= m2 * d) if len(shape) == 2 else (d >= d2) for m2, d2 in rel]
                fits.append(core.and_(*others, core.or_(core.and_(sc * m >= d, abs(p * sc * m - d) <= 1e-7 * sc * m),
                                                        core.and_(sc * m <= d * (1 + 1e-9), abs(p - 1) <= 1e-7))))
            e.check(core.or_(*fits), 'mean segment length = scale times pixels per volt of the swept gate (at least one pixel)')
        quiet, burst = [], []
        for i, (s, t) in enumerate(seg):
            (quiet if i % 2 == 0 else burst).append((s, t))
        e.close([R[p] for s, t in quiet for p in range(s, t)], [X[p] for s, t in quiet for p in range(s, t)], 'undisturbed pixels keep their value')
        e.close([R[p] - X[p] for s, t in burst for p in range(s, t)], [R[s] - X[s] for s, t in burst for p in range(s, t)], 'within one burst a single constant is added')
        cs = []
        for i, (s, t) in enumerate(burst):
            near = [abs(R[s] - X[s] - (h + std * z)) <= 1e-6 for z in Z]
            cs.append(core.or_(*near) if near else False)
            for (s2, t2) in burst[i + 1:]:
                cs.append(core.or_(*[core.and_(near[j], abs(R[s2] - X[s2] - (h + std * Z[j2])) <= 1e-6) for j in range(len(Z)) for j2 in range(len(Z)) if j != j2]))
        if cs:
            e.check(cs, 'burst constants: height plus std times a normal value of their own')


def zero(e, cls, shape):
    import simcats.distortions as d
    D = getattr(d, cls)(scale=e.choose('z', [0, 0.0]), std=e.real('std', 0, V), height=e.real('height', -V, V), rng=StubRNG(e, 'g'))
    g1, g2, a, b = ranges(e, 'both')
    x = e.reals('x', shape, -V, V)
    e.close(D.noise_function(x, g1, g2), x.copy(), 'zero scale leaves the data as is', 0)


def scenarios(tier):
    S = []
    thorough = tier == 'thorough'
    P, Rr = 'SensorPotentialRTN', 'SensorResponseRTN'

    def add(name, **kw):
        S.append(Scenario(name, rtn, kw, random=True, max_paths=20000))
    for cls in (P, Rr):
        for shape, modes in (((4,), ('g1', 'g2', 'both')), ((1,), ('g1',)), ((1, 4), ('g1', 'both')), ((3, 1), ('g2', 'both')),
                             ((2, 2), ('both',)), ((2, 3), ('both',)), ((3, 2), ('both',))):
            for mode in modes:
                if cls == Rr and shape not in ((4,), (1, 4), (2, 2)) and not thorough:
                    continue
                add(f"{cls} {'x'.join(map(str, shape))} {mode}", cls=cls, shape=shape, mode=mode)
        for mode in ('g1', 'g2'):
            add(f'{cls} 2x3 {mode}', cls=cls, shape=(2, 3), mode=mode, few=not thorough)
        add(f'{cls} sampled, twice, any ratio', cls=cls, shape=(2,), mode='both', sampled=True, ratio='any', repeat=2)
        add(f'{cls} setters', cls=cls, shape=(3,), mode='g1', by='set')
        add(f'{cls} setters 2D sampled', cls=cls, shape=(1, 3), mode='both', by='set', sampled=True)
        add(f'{cls} ratio 0', cls=cls, shape=(2, 2), mode='both', ratio=0)
        S.append(Scenario(f'{cls} zero 1D', zero, dict(cls=cls, shape=(3,)), random=True))
        S.append(Scenario(f'{cls} zero 2D', zero, dict(cls=cls, shape=(2, 3)), random=True))
        if thorough:
            for shape in ((8,), (2, 4), (4, 2), (3, 3)):
                add(f"{cls} {'x'.join(map(str, shape))} both", cls=cls, shape=shape, mode='both')
    return S
