"""C27 reproducible randomness: every random choice comes from the generator handed in"""
import numpy as np

from symx.harness import Scenario
from symx.stubs import StubRNG

FUNCTIONS = ['NormalSamplingRange', 'UniformSamplingRange', 'LogNormalSamplingRange', 'ExponentialSamplingRange', 'SensorResponseWhiteNoise', 'white_gaussian_noise', 'SensorPotentialPinkNoise',
             'pink_gaussian_noise', 'SensorPotentialRTN', 'SensorResponseRTN', 'random_telegraph_noise', 'OccupationDotJumps', 'dot_jumps_blockwise', 'Simulation.measure']
BOUNDS = ('every stream of the generator handed in (the same for two objects) and every other source of randomness (numpy global functions, generators made inside, generators of other objects: independent '
          'arbitrary values in both runs); two uses per object, the uses of the second object interleaved with those of an object with another generator and with repr/last sample/property reads; '
          'sizes 1D 2..3, 2D 2x2; fixed and sampled parameters, generator given to the constructor or assigned later')
OUTSIDE = 'the random bits themselves; generators without the numpy.random.Generator interface; the configuration sampler (it takes no generator)'
ASSUMPTIONS = ['colorednoise.powerlaw_psd_gaussian draws from the random_state it is given and, without one, from numpy']
V = 8


class Colored:
    """a sequence made of normal values of the generator it is given; without one: arbitrary values"""

    def __init__(self, e):
        self.e, self.k = e, 0

    def __call__(self, exponent, size, fmin=0, random_state=None):
        if isinstance(random_state, StubRNG):
            return random_state.normal(size=size)
        self.k += 1
        return self.e.reals(f'pinkglobal{self.k}', int(np.prod(size)), -V, V).reshape(size if np.ndim(size) else (int(size),))


def foreign():
    import colorednoise
    return {colorednoise.powerlaw_psd_gaussian: Colored}


class Kind:
    """build(g): object using generator g; use(object, k): outputs of the k-th use"""
    def __init__(self, e, sampled=False, late=False, shape=(3,)):
        self.e, self.sampled, self.late, self.shape = e, sampled, late, shape
        self.g1, self.g2 = np.array([0.0, 3.0]), np.array([1.0, 2.5])
        self.data = [e.reals(f'x{k}', shape, -V, V) for k in (0, 1)]

    def strength(self, g, lo, hi):
        from simcats.support_functions import UniformSamplingRange
        return UniformSamplingRange((lo, hi), rng=g) if self.sampled else (lo + hi) / 2

    def make(self, cls, g, **k):
        if not self.late:
            return cls(rng=g, **k)
        o = cls(rng=self.first(), **k)
        o.rng = g
        return o

    def first(self):
        # the generator replaced later: different in every object
        self.n = getattr(self, 'n', 0) + 1
        return tuned(StubRNG(self.e, f'first{self.n}'))


def tuned(g):
    g.geo_max, g.poi_max = 2, 1
    return g


class Sampler(Kind):
    def build(self, g):
        from simcats import support_functions as sf
        kw = dict(sampling_range=2.0, rng=g)
        return {'normal': lambda: sf.NormalSamplingRange((0.0, 4.0), std=1.0, **kw), 'uniform': lambda: sf.UniformSamplingRange((0.0, 4.0), **kw),
                'lognormal': lambda: sf.LogNormalSamplingRange((0.0, 4.0), mean=0.0, sigma=1.0, **kw), 'exponential': lambda: sf.ExponentialSamplingRange((0.0, 4.0), scale=0.5, **kw),
                'exponential-': lambda: sf.ExponentialSamplingRange((4.0, 0.0), scale=0.5, **kw)}[self.kind]()

    def use(self, o, k):
        return [o.sample_parameter(), o.last_sample()]

    def look(self, o):
        repr(o), o.last_sample()


class White(Kind):
    def build(self, g):
        from simcats.distortions import SensorResponseWhiteNoise
        return self.make(SensorResponseWhiteNoise, g, sigma=self.strength(g, 0.5, 1.5))

    def use(self, o, k):
        return [o.noise_function(self.data[k].copy(), self.g1, self.g2), o.latest_sigma]

    def look(self, o):
        repr(o), o.sigma, o.rng, o.latest_sigma


class Pink(White):
    def build(self, g):
        from simcats.distortions import SensorPotentialPinkNoise
        return self.make(SensorPotentialPinkNoise, g, sigma=self.strength(g, 0.5, 1.5), fmin=0.0)


class Rtn(Kind):
    cls = 'SensorPotentialRTN'

    def build(self, g):
        import simcats.distortions as d
        return self.make(getattr(d, self.cls), g, scale=2.0, std=self.strength(g, 0.5, 1.5), height=self.e.real('height', -1, 1), ratio=self.e.real('ratio', 0, 1))

    def use(self, o, k):
        r = o.noise_function(self.data[k].copy(), self.g1, self.g2)
        return [r, 1.0 if bool(o.activated) else 0.0]

    def look(self, o):
        repr(o), o.scale, o.std, o.height, o.ratio, o.rng, o.activated


class RtnResponse(Rtn):
    cls = 'SensorResponseRTN'


class Jumps(Kind):
    axis = 1

    def build(self, g):
        from simcats.distortions import OccupationDotJumps
        return self.make(OccupationDotJumps, g, scale=2.0, lam=1.0, axis=self.axis, ratio=self.e.real('ratio', 0, 1))

    def use(self, o, k):
        e = self.e

        def gen(volt_limits_g1, volt_limits_g2, resolution):
            r = [int(v) for v in np.ravel(resolution)]
            s = (r[0],) if len(r) == 1 else (r[1], r[0])
            occ, lead = e.array(np.zeros(s + (2,))), e.array(np.zeros(s))
            for p in np.ndindex(*s):
                v1 = volt_limits_g1[0] + (volt_limits_g1[1] - volt_limits_g1[0]) * p[-1] / max(s[-1] - 1, 1)
                v2 = volt_limits_g2[0] + (volt_limits_g2[1] - volt_limits_g2[0]) * p[0] / max(s[0] - 1, 1)
                occ[p + (0,)], occ[p + (1,)], lead[p] = v1, 10 + v2, 3 * v1 + v2
            return occ, lead
        occ, lead = gen(self.g1, self.g2, self.shape[0] if len(self.shape) == 1 else (self.shape[1], self.shape[0]))
        r = o.noise_function(occupations=occ, lead_transitions=lead, volt_limits_g1=self.g1, volt_limits_g2=self.g2, generate_csd=gen)
        return [r[0], r[1], 1.0 if bool(o.activated) else 0.0]

    def look(self, o):
        repr(o), o.scale, o.lam, o.axis, o.ratio, o.rng, o.activated


class Jumps0(Jumps):
    axis = 0


class Function(Kind):
    """the functions behind the distortions, called directly"""

    def build(self, g):
        return g

    def use(self, g, k):
        import simcats.distortions as d
        x = self.data[k].copy()
        if self.name == 'white':
            return [d.white_gaussian_noise(x, 1.5, rng=g), d.white_gaussian_noise(original=x, sigma=0.5, rng=g)]
        if self.name == 'pink':
            return [d.pink_gaussian_noise(x, 1.5, fmin=0.0, rng=g)]
        if self.name == 'rtn':
            return [d.random_telegraph_noise(x, 2.0, 0.5, self.e.real('height', -1, 1), rng=g)]
        if self.name == 'jumps':
            return list(d.dot_jumps_blockwise(np.arange(np.prod(self.shape) * 1.0).reshape(self.shape), 2.0, 1.0, axis=k, rng=g))

    def look(self, g):
        pass


class Sim(Kind):
    """a whole measurement; all distortions share the generator"""

    def build(self, g):
        from simcats import Simulation
        from simcats.ideal_csd import IdealCSDInterface
        from simcats.sensor import SensorInterface
        import simcats.distortions as d
        e = self.e

        class Csd(IdealCSDInterface):
            def get_csd_data(s, volt_limits_g1, volt_limits_g2, resolution=100):
                n = int(np.ravel(resolution)[0])
                return np.ones((n, 2)), np.zeros(n)

        class Sensor(SensorInterface):
            def __init__(s):
                pass

            def sensor_potential(s, occupations, volt_limits_g1, volt_limits_g2):
                return self.data[0].copy()

            def sensor_response(s, mu_sens):
                return 2 * mu_sens

            def __deepcopy__(s, memo):
                return s
        return Simulation(ideal_csd_config=Csd(), sensor=Sensor(), sensor_potential_distortions=[Pink(e, True).build(g), Rtn(e).build(g)], sensor_response_distortions=[White(e).build(g)])

    def use(self, o, k):
        r = o.measure(sweep_range_g1=self.g1, sweep_range_g2=self.g2, resolution=self.shape[0])
        return [r[0], [1.0 if bool(o.sensor_potential_distortions[1].activated) else 0.0]]

    def look(self, o):
        repr(o), o.occupation_distortions, o.sensor_potential_distortions, o.sensor_response_distortions, o.sensor, o.ideal_csd_config


def equal_streams(e, cls, attrs=(), uses=2, **kw):
    K = cls(e, **kw)
    for a, v in attrs:
        setattr(K, a, v)

    def gen(tag):
        g = tuned(StubRNG(e, tag))
        if cls is Sampler:
            g.limit = 4 if K.kind != 'uniform' else 6
        return g
    if e.sym and hasattr(e, 'random_module'):
        e.random_module.factory = lambda e_, tag: gen(tag)
    a, b, c = gen('g'), gen('g'), gen('other')
    A = K.build(a)
    first = [K.use(A, k) for k in range(uses)]
    n = a.n
    C = K.build(c)
    B = K.build(b)
    if uses > 1 or cls is not Sampler:
        K.use(C, 0)
    second = []
    for k in range(uses):
        K.look(B)
        K.look(A)
        second.append(K.use(B, k))
        if k + 1 < uses and cls in (White, Pink, Function):
            K.use(C, 1)
    e.check(n == b.n, 'equal generators are used equally')
    e.check(a.n == n, 'an object draws from its own generator only')
    for k in range(uses):
        e.observe(f'first{k}', first[k][0])
        for x, y in zip(first[k], second[k]):
            e.close(x, y, 'equal generators give equal results, whatever other sources of randomness do', 0)


def scenarios(tier):
    S = []
    f = foreign()

    def add(name, cls, attrs=(), **kw):
        S.append(Scenario(name, equal_streams, dict(cls=cls, attrs=attrs, **kw), foreign=f, random=True, max_paths=20000))
    for k in ('normal', 'uniform', 'lognormal', 'exponential', 'exponential-'):
        add(f'sampler {k}', Sampler, attrs=(('kind', k),), uses=2 if k == 'uniform' or tier == 'thorough' else 1)
    for n, c in (('white', White), ('pink', Pink), ('telegraph potential', Rtn), ('telegraph response', RtnResponse)):
        r = 'telegraph' in n
        for s in ((3,), (2, 2)) if not r or tier == 'thorough' else ((2,),):
            for late in (False, True):
                add(f"{n} {len(s)}D{' assigned' if late else ''}", c, shape=s, late=late)
        add(f'{n} sampled', c, shape=(2,), sampled=True)
        add(f'{n} sampled 2D', c, shape=(2, 2), sampled=True, uses=1)
    for n, c in (('jumps axis 1', Jumps), ('jumps axis 0', Jumps0)):
        for s in ((2,), (2, 2)):
            for late in (False, True):
                add(f"{n} {len(s)}D{' assigned' if late else ''}", c, shape=s, late=late, uses=2 if tier == 'thorough' else 1)
    for n in ('white', 'pink', 'rtn', 'jumps'):
        for s in ((2,), (2, 2)) if n != 'jumps' else ((1, 2), (2, 2), (2, 3)):
            add(f"function {n} {'x'.join(map(str, s))}", Function, attrs=(('name', n),), shape=s, uses=2 if np.prod(s) < 4 or n in ('white', 'pink') or tier == 'thorough' else 1)
    add('simulation', Sim, shape=(2,), uses=1)
    if tier == 'thorough':
        add('simulation twice', Sim, shape=(2,), uses=2)
    return S
