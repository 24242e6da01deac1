"""C26 random configuration sampler"""
import math

import numpy as np

from symx import core
from symx.core import is_sym
from symx.harness import Scenario
from symx.stubs import StubRNG

M = 'simcats.config_samplers._GaAs_v1_random_variations_v3_config_sampler'
FUNCTIONS = ['sample_random_variations_v3_config', 'sample_IdealCSDGeometric', 'sample_SensorGeneric', 'sample_SensorScanSensorGeneric', 'sample_sensor_function',
             'sample_barrier_function', 'sample_occupation_distortions', 'sample_sensor_potential_distortions', 'sample_sensor_response_distortions',
             'NormalSamplingRange.sample_parameter', 'UniformSamplingRange.sample_parameter', 'ExponentialSamplingRange.sample_parameter']
BOUNDS = ('ideal CSD: slopes, lengths, interdot angle, interdot length and width each arbitrary (the other draws fixed), one rejected draw, up to 3 additional transitions; SensorGeneric: lever-arm draws arbitrary, '
          '3 and 4 peaks with all peak draws arbitrary, 5 and 6 peaks with the draws of one peak (thorough: two) arbitrary, rejected draws; SensorScanSensorGeneric: every value of each window of 3 consecutive draws '
          '(thorough: all windows, also of 4), the other draws fixed, number of peaks 20..30; distortions: every quality multiplier in (0, 1] and one rejected draw; full configuration: every quality multiplier (valid and invalid), all options')
OUTSIDE = ('more rejected draws; several windows at once for the scan sensor; the grids of 10^6 and 5*10^5 points used for the steepest point and the maximum of the sensor function '
           'are replaced by 5 and 9 points; distribution of the samples; rounding')
ASSUMPTIONS = ['Generator.uniform returns values in [low, high] and refuses low > high, normal any real (8 sigma), exponential non-negative']
PI = math.pi


def rngs(e, limit=None, lo=0, hi=10 ** 9):
    """draws number lo..hi-1 are arbitrary, the others spread over the range; histories with more than limit draws are outside"""
    class R(StubRNG):
        def _draw(s, kind, size, f):
            m = e.random_module
            m.total = getattr(m, 'total', -1) + 1
            if limit is not None and m.total >= limit:
                e.assume(False)
            if size is None and not lo <= m.total < hi:
                u = (0.5 + m.total * 0.6180339887498949) % 1
                v = dict(normal=(u - 0.5) / 4, uniform=u, exponential=u / 2).get(kind)
                if v is not None:
                    s.by_kind.setdefault(kind, []).append(v)
                    return v
            return StubRNG._draw(s, kind, size, f)

        def uniform(s, low=0.0, high=1.0, size=None):
            if not bool(high >= low):
                raise ValueError('high - low < 0')
            return StubRNG.uniform(s, low, high, size)

        def choice(s, a, size=None, replace=True, p=None):
            opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
            k = s.pinned(len(opts)) if size is None else None
            return opts[k] if k is not None else StubRNG.choice(s, a, size, replace, p)

        def integers(s, low, high=None, size=None, dtype=None, endpoint=False):
            if size is None and not is_sym(low) and not is_sym(high):
                a, b = (0, int(low)) if high is None else (int(low), int(high))
                k = s.pinned(b - a + bool(endpoint))
                if k is not None:
                    return a + k
            return StubRNG.integers(s, low, high, size, dtype, endpoint)

        def pinned(s, n):
            """which of the n options to take: the scenario says so when there are four (3..6 peaks)"""
            pick = getattr(e, 'pick', None)
            if pick is None or n != 4:
                return None
            e.picked = getattr(e, 'picked', 0) + 1
            return pick - 3
    e.random_module.factory = R


def sampler_module():
    import importlib
    return importlib.import_module(M)


def inside(e, v, lo, hi, label, tol=1e-9):
    e.check([v >= lo - tol * abs(lo), v <= hi + tol * abs(hi)], label)


LEN, WID, ILEN = (0.01, 0.025), (0.00043, 0.00814), (0.00261, 0.00987)
S1, S2 = (0.21429, 0.54688), (-0.44, -0.07692)
LEAD, INTER, REL = (0.43760867228, 1.6789624091), (0.58153916891, 1.396938844), (0.8692269873603532, 9.055385138137407)


def ideal(e, more, limit, lo=0, hi=999):
    from simcats.ideal_csd import IdealCSDGeometric
    f = sampler_module().sample_IdealCSDGeometric
    rngs(e, limit, lo, hi)
    if e.sym:
        for c in INTER + LEAD:
            core.CTX.point_lemmas.setdefault('cos', set()).add(core.Fraction(c))
        for c in LEAD:
            core.CTX.point_lemmas.setdefault('arccos', set()).add(core.Fraction(math.cos(c)))
    seen = []

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
        seen.append(([list(p) for p in self.tct_params], volt_limits_g1, volt_limits_g2))
        if len(seen) <= more:
            raise IndexError('not enough transitions')
        r = np.ravel(resolution)
        shape = (int(r[-1]), int(r[0])) if len(r) == 2 else (int(r[0]),)
        return np.zeros(shape + (2,)), np.zeros(shape)
    old = IdealCSDGeometric.get_csd_data
    IdealCSDGeometric.get_csd_data = get_csd_data
    try:
        r = f()
    finally:
        IdealCSDGeometric.get_csd_data = old
    P = [list(p) for p in r.tct_params]
    for i, p in enumerate(P):
        for j, v in enumerate(p):
            e.observe(f'p{i}_{j}', v)
    e.check(isinstance(r, IdealCSDGeometric), 'an ideal CSD configuration is returned')
    e.check(len(P) == more + 1, 'one transition is added for every failed attempt')
    e.eq(P, seen[-1][0], 'the returned transitions are those of the successful attempt')
    e.eq([list(seen[-1][1]), list(seen[-1][2])], [[-0.2, -0.06], [-0.2, -0.06]], 'the transitions cover the whole voltage range')
    ll, lr, s1, s2, x0, y0, x1, y1 = P[0]
    inside(e, ll, *LEN, 'lead length within its range')
    inside(e, lr, *LEN, 'lead length within its range')
    inside(e, s1, *S1, 'slope of the first lead within its range')
    inside(e, s2, *S2, 'slope of the second lead within its range')
    np_ = e.np
    lead = np_.arccos((1 + s1 * s2) / (np_.sqrt(1 + s1 * s1) * np_.sqrt(1 + s2 * s2)))
    inside(e, lead, *LEAD, 'angle between the leads within its range')
    e.close([x0, y0], [0.0, -0.14 * math.sqrt(2)], 'first anchor in the lower left corner of the rotated space')
    wx, wy = x1 - x0, y1 - y0
    inside(e, wx * wx + wy * wy, WID[0] ** 2, WID[1] ** 2, 'width of the first bend within its range', 1e-7)
    e.check(wx > 0, 'anchors are ordered')
    e.close(wy * 2, wx * (s1 + s2), 'the bend has the mean direction of the leads', 1e-9)
    if more:
        ix, iy = P[1][4] - x0 + lr, P[1][5] - y0 + lr * s2
        q = ix * ix + iy * iy
        inside(e, q, ILEN[0] ** 2, ILEN[1] ** 2, 'interdot length within its range', 1e-7)
        w2 = wx * wx + wy * wy
        e.check([q >= (REL[0] ** 2 - 1e-6) * w2, q <= (REL[1] ** 2 + 1e-6) * w2], 'interdot length to width within its range')
        e.check([ix + iy >= -1e-9, iy - ix >= -1e-9], 'interdot vector does not go backwards in voltage space')
    for i in range(1, len(P)):
        e.eq(P[i][:4], P[0][:4], 'all transitions share lengths and slopes')
        e.close([a - b for a, b in zip(P[i][4:], P[i - 1][4:])], [P[1][4] - x0, P[1][5] - y0] * 2, 'consecutive transitions are shifted by the same vector', 1e-9)
    e.check(r.lut_entries == 1000, 'lookup table size')


def dots(e, ad, ag, q, compensated, tag=''):
    lo = (0.0001, 0.0005) if compensated else (0.02805, 0.15093)
    inside(e, ag[0], *lo, 'lever-arm of gate 1 within its range')
    inside(e, ag[1], 0.5 * ag[0], 2 * ag[0], 'lever-arm of gate 2 within a factor of two of gate 1')
    m1, m2 = (-0.0007994, -0.0000961), (-0.0005214, -0.0000630)
    inside(e, ad[0], m1[0], m1[0] + q * (m1[1] - m1[0]), 'dot lever-arm 1 negative and within its quality limited range')
    inside(e, ad[1], m2[0], m2[0] + q * (m2[1] - m2[0]), 'dot lever-arm 2 negative and within its quality limited range')
    e.check(ad[0] <= 2 * ag[0] * -0.03 / 100 * (1 - 1e-9), 'an electron on dot 1 shifts the potential by at least two pixels of gate 1')
    e.check(ad[1] >= 2 * ad[0] * (1 + 1e-9), 'dot 2 couples at most twice as strong as dot 1')
    e.check(core.or_(ad[1] <= 2 * ag[1] * -0.03 / 100 * (1 - 1e-9), 2 * ag[1] * -0.03 / 100 < m2[0], 0.5 * ad[0] < m2[0]),
            'an electron on dot 2 shifts the potential by at least two pixels of gate 2 (where its range allows)')


def sensor_generic(e, compensated, q, num, lo, hi, extra, steep=False):
    from simcats.sensor import SensorGeneric, SensorPeakLorentzian
    f = sampler_module().sample_SensorGeneric
    rngs(e, 4 + 4 * num + extra if hi > 4 else None, lo, hi)
    e.pick = num
    q = e.real('q', 0.001, 1) if q is None else q
    kw = {'set_sensor_potential_offset_to_steepest_point': True} if steep else {}
    s = f(quality_multiplier=q, compensated_sensor=compensated, **kw)
    e.check(isinstance(s, SensorGeneric), 'a generic sensor is returned')
    ad, ag = list(s.alpha_dot), list(s.alpha_gate)
    e.observe('ad', s.alpha_dot)
    e.observe('ag', s.alpha_gate)
    dots(e, ad, ag, q, compensated)
    pk = list(s.sensor_peak_function)
    e.check(len(pk) == num if getattr(e, 'picked', 0) else 3 <= len(pk) <= 6, 'three to six peaks are configured, each number with one choice')
    num = len(pk)
    r0, r1 = -0.2 * (ag[0] + ag[1]), -0.06 * (ag[0] + ag[1]) + 5 * (ad[0] + ad[1])
    a, b = core.smin(r0, r1), core.smax(r0, r1)
    for i, p in enumerate(pk):
        e.check(isinstance(p, SensorPeakLorentzian), 'peaks are Lorentzian')
        e.observe(f'pk{i}', [p.mu0, p.gamma, p.height, p.offset])
        inside(e, p.gamma, 0.0009636, 0.0029509, 'peak width within its range')
        e.check([p.mu0 >= a - 1e-9, p.mu0 <= b + 1e-9], 'peaks lie inside the potential range between the empty and the five electron corner')
        if i == 0:
            inside(e, p.height, 0.02245, 0.19204, 'height of the first peak within its range')
            inside(e, p.offset, -0.42275, -0.0838, 'offset of the first peak within its range')
        else:
            inside(e, p.height, 0.8 * pk[0].height, 1.2 * pk[0].height, 'heights differ by at most 20 percent from the first')
            inside(e, p.offset, 1.2 * pk[0].offset, 0.8 * pk[0].offset, 'offsets differ by at most 20 percent from the first')
        for o in pk[:i]:
            e.check(abs(p.mu0 - o.mu0) * (2 * num) >= (b - a) * (1 - 1e-6), 'peaks are at least half a potential range per peak apart')
    if steep:
        g = e.grid
        r = s.sensor_response(g)
        g, r = list(g), list(r)
        n = len(g)
        e.check([g[0] >= a - 0.21 * (b - a), g[-1] <= b + 0.21 * (b - a)], 'operating point searched around the potential range')
        slope = [(r[min(i + 1, n - 1)] - r[max(i - 1, 0)]) / (min(i + 1, n - 1) - max(i - 1, 0)) for i in range(n)]
        for i in range(n):
            e.check(core.implies(s.offset_mu_sens == g[i], core.and_(*[slope[i] >= x - 1e-9 for x in slope])), 'operating point is the steepest point')
        e.check(core.or_(*[s.offset_mu_sens == x for x in g]), 'operating point is on the searched grid')
    else:
        e.eq(s.offset_mu_sens, 0, 'no potential offset without the steepest point option')


def linspace(n):
    def f(real, start, stop, num=50, **k):
        return real(start, stop, n if num > 1000 else num, **k)
    return f


def linspace_logged(n):
    def f(real, start, stop, num=50, **k):
        r = real(start, stop, n if num > 1000 else num, **k)
        if num > 1000 and E[0] is not None:
            E[0].grid = r
        return r
    return f


E = [None]


def steepest(e, **k):
    E[0] = e
    sensor_generic(e, steep=True, **k)


def scan_sensor(e, compensated, q, lo, hi):
    from simcats.sensor import SensorScanSensorGeneric, SensorPeakLorentzian, SensorRiseGLF
    from simcats.sensor.barrier_function import BarrierFunctionInterface
    f = sampler_module().sample_SensorScanSensorGeneric
    rngs(e, None, lo, hi)
    e.random_module.maxn = hi
    q = e.real('q', 0.001, 1) if q is None else q
    s = f(quality_multiplier=q, compensated_sensor=compensated)
    e.check(isinstance(s, SensorScanSensorGeneric), 'a scan sensor is returned')
    A = s.alpha_sensor_gate
    e.observe('ad', s.alpha_dot)
    e.observe('ag', s.alpha_gate)
    e.observe('A', A)
    for ad, ag in zip(np.reshape(s.alpha_dot, (-1, 2)), np.reshape(s.alpha_gate, (-1, 2))):
        dots(e, list(ad), list(ag), q, compensated)
    e.check([A[0][0] > 0, A[0][1] > 0, core.or_(abs(A[0][0] - 0.1) <= 1e-9, abs(A[0][1] - 0.1) <= 1e-9), A[0][0] <= 0.1 + 1e-9, A[0][1] <= 0.1 + 1e-9],
            'sensor dot lever-arms positive, the larger one 0.1')
    e.close([A[1][0], A[2][1]], [0.99, 0.99], 'each barrier couples to its own gate')
    inside(e, A[1][1], 0.1, 0.3, 'cross coupling of barrier 1 within its range')
    inside(e, A[2][0], 0.1, 0.3, 'cross coupling of barrier 2 within its range')
    e.eq(len(s.sensor_peak_deformations), 0, 'no deformations are configured')
    pk = list(s.sensor_peak_function)
    e.check(20 <= len(pk) <= 30, 'twenty to thirty peaks')
    e.check(all(isinstance(p, SensorPeakLorentzian) for p in pk), 'peaks are Lorentzian')
    e.check([p.gamma >= 0 for p in pk] + [p.gamma <= 0.0022 + 1e-12 for p in pk[2:]], 'peak width positive and limited')
    e.check([p.height >= -1e-12 for p in pk], 'peak height not negative')
    e.eq([p.offset for p in pk], [0] * len(pk), 'peaks start at zero conductance')
    D = [b.mu0 - a.mu0 for a, b in zip(pk, pk[1:])]
    e.check([d >= -1e-12 for d in D], 'peaks are ordered by potential')
    e.check([d <= D[0] * 1.1 + 1e-12 for d in D[1:]], 'peak distances do not exceed the first distance')
    # base point: both voltages in [-0.688, -0.509]
    o = pk[0].mu0 + 0.05
    sa = A[0][0] + A[0][1]
    e.check([o >= -0.688 * sa - 1e-9, o <= -0.509 * sa + 1e-9], 'the first peak lies the offset below the base point')
    fr = s.final_rise
    e.check(isinstance(fr, SensorRiseGLF), 'the function ends with a rise')
    e.eq(fr.asymptote_left, 0, 'the rise starts at zero')
    inside(e, fr.growth_rate, 400, 600, 'growth rate of the rise within its range')
    inside(e, fr.asymmetry, 0.01, 1, 'asymmetry of the rise within its range')
    inside(e, fr.shape_factor, 0.01, 100, 'shape factor of the rise within its range')
    x = np.linspace(-5, 5, 9)
    tot = [sum(p.sensor_function(e.array(np.array([v])))[0] for p in pk) for v in x]
    if lo >= 9 and hi <= 13:
        e.check([fr.asymptote_right >= t * (1.05 - 1e-9) for t in tot], 'the rise ends above the peaks')
    B = s.barrier_functions
    e.eq(len(B), 2, 'two barriers')
    for i, b in enumerate(B):
        e.check(isinstance(b, BarrierFunctionInterface), 'barrier functions are configured')
    return s


def distortions(e, kind, q, limit):
    import simcats.distortions as d
    from simcats.support_functions import NormalSamplingRange, ExponentialSamplingRange
    m = sampler_module()
    rngs(e, limit)
    q = e.real('q', 0, 1, open=True) if q is None else q
    if kind == 'occ':
        L = m.sample_occupation_distortions(quality_multiplier=q)
        e.check([isinstance(x, d.OccupationDistortionInterface) for x in L], 'occupation distortions')
        e.eq([type(x).__name__ for x in L], ['OccupationTransitionBlurringFermiDirac', 'OccupationDotJumps', 'OccupationDotJumps'], 'blurring and dot jumps')
        v = L[0].sigma.sample_parameter()
        e.observe('sigma', v)
        inside(e, v, 0.25 * 0.03 / 100, 2 * 0.03 / 100, 'blurring width within its range')
        e.eq(sorted(x.axis for x in L[1:]), [0, 1], 'dot jumps along both axes')
        for x in L[1:]:
            e.check([x.ratio >= 0, x.ratio <= 0.01 if x.axis == 0 else x.ratio <= 0.01 / 6 + 1e-12], 'jump ratio within its range')
            e.check([x.scale > 0, x.lam > 0, x.scale <= 0.03 + 1e-12, x.lam <= 0.0018 + 1e-12], 'jump parameters positive and within their range')
    elif kind == 'pot':
        L = m.sample_sensor_potential_distortions(quality_multiplier=q)
        e.check([isinstance(x, d.SensorPotentialDistortionInterface) for x in L], 'potential distortions')
        e.eq(sorted(type(x).__name__ for x in L), ['SensorPotentialPinkNoise', 'SensorPotentialRTN'], 'pink noise and random telegraph noise')
    else:
        L = m.sample_sensor_response_distortions(quality_multiplier=q)
        e.check([isinstance(x, d.SensorResponseDistortionInterface) for x in L], 'response distortions')
        e.eq(sorted(type(x).__name__ for x in L), ['SensorResponseRTN', 'SensorResponseWhiteNoise'], 'white noise and random telegraph noise')
    for x in L:
        if hasattr(x, 'sigma') and kind != 'occ':
            e.check(isinstance(x.sigma, ExponentialSamplingRange), 'noise strength is sampled')
            v = x.sigma.sample_parameter()
            e.observe('strength', v)
            inside(e, v, 1e-10, 0.0005, 'noise strength within its range')
            z = [c[1] for r in e.random_module.made for c in r.calls if c[0] == 'exponential']
            e.close(z[-1:], [0.6 * q / math.log(100)], '99 percent of the strengths within the quality limited range', 1e-9)
        if type(x).__name__.endswith('RTN'):
            top = (1 / 6 if kind == 'pot' else 0.01) * q
            e.check([x.ratio >= 0, x.ratio <= top + 1e-12], 'probability of random telegraph noise within its quality limited range')
            e.check([x.scale > 0, x.std >= 0, x.height > 0], 'burst parameters positive')


def full(e, kind, valid):
    """the parts get the options of the caller"""
    m = sampler_module()
    q = e.real('q', -1, 2)
    comp, steep = e.boolean('comp'), e.boolean('steep')
    comp, steep = bool(comp), bool(steep)
    got = {}
    names = dict(ideal_csd_config='sample_IdealCSDGeometric', occupation_distortions='sample_occupation_distortions', sensor_potential_distortions='sample_sensor_potential_distortions',
                 sensor_response_distortions='sample_sensor_response_distortions', generic='sample_SensorGeneric', scan='sample_SensorScanSensorGeneric')
    old = {n: getattr(m, n) for n in names.values()}

    def stub(k):
        def f(*a, **kw):
            import inspect
            b = inspect.signature(old[names[k]]).bind(*a, **kw)
            b.apply_defaults()
            got.setdefault(k, []).append(dict(b.arguments))
            return ('result', k)
        return f
    for k, n in names.items():
        setattr(m, n, stub(k))
    try:
        r, ex = e.catch(lambda: m.sample_random_variations_v3_config(sensor_type=kind, quality_multiplier=q, compensated_sensor=comp,
                                                                     set_sensor_potential_offset_to_steepest_point=steep), ValueError)
    finally:
        for n, o in old.items():
            setattr(m, n, o)
    ok = core.and_(q > 0, q <= 1)
    if ex is not None:
        e.check(core.not_(ok) if valid else True, 'only a quality outside (0, 1] or an unknown sensor type is refused')
        return
    e.check(valid, 'an unknown sensor type is refused with ValueError')
    e.check(ok, 'a quality outside (0, 1] is refused with ValueError')
    part = 'generic' if kind == 'SensorGeneric' else 'scan'
    for k in ('ideal_csd_config', 'occupation_distortions', 'sensor_potential_distortions', 'sensor_response_distortions'):
        e.eq(r[k], ('result', k), f'{k} is the sampled one')
        e.eq(len(got[k]), 1, 'each part is sampled once')
        if k != 'ideal_csd_config':
            e.check(got[k][0]['quality_multiplier'] == q, f'the quality limits the {k.replace("_", " ")}')
    e.eq(r['sensor'], ('result', part), 'the requested sensor is sampled')
    e.check(got[part][0]['quality_multiplier'] == q, 'the quality limits the sensor')
    e.eq(got[part][0]['compensated_sensor'], comp, 'compensation is passed on')
    if part == 'generic':
        e.eq(got[part][0]['set_sensor_potential_offset_to_steepest_point'], steep, 'the steepest point option is passed on')
    e.eq([list(r['volt_limits_g1']), list(r['volt_limits_g2']), list(r['volt_limits_sensor_g1']), list(r['volt_limits_sensor_g2'])],
         [[-0.2, -0.06], [-0.2, -0.06], [-1, 0], [-1, 0]], 'voltage limits')


def barrier(e, q):
    from simcats.support_functions import glf
    m = sampler_module()
    rngs(e)
    off, h = e.real('off', -2, 2), e.real('h', 0.01, 2)
    q = e.real('q', 0.001, 1) if q is None else q
    b = m.sample_barrier_function(offset=off, height=h, quality_multiplier=q)
    e.check(b.asymptote_left == 0, 'barriers pinch off completely')
    e.close(b.asymptote_right, h * q, 'barrier height limited by the quality', 1e-9)
    inside(e, b.growth_rate, 20, 40, 'growth rate of the barrier within its range')
    inside(e, b.asymmetry, 1e-6, 1e-4, 'asymmetry of the barrier within its range')
    inside(e, b.shape_factor, 0.01, 100, 'shape factor of the barrier within its range')
    e.close([b.pinch_off], [off], 'the barrier pinches off at the requested potential', 1e-6)


def content(x, objs, depth=0):
    """what an object is configured with, by its public face"""
    from simcats.support_functions import ParameterSamplingInterface
    if isinstance(x, (list, tuple)):
        return [content(v, objs, depth) for v in x]
    if isinstance(x, dict):
        return [content(x[k], objs, depth) for k in sorted(x, key=str)]
    if isinstance(x, np.ndarray):
        return [content(v, objs, depth) for v in x.ravel()]
    if not type(x).__module__.startswith('simcats') or depth > 4:
        return x if isinstance(x, (int, float, str, np.generic)) or core.is_sym(x) else 0.0
    objs.append(x)
    if isinstance(x, ParameterSamplingInterface):
        return [x.sample_parameter()]
    out = [type(x).__name__]
    names = [n for n in dir(type(x)) if isinstance(getattr(type(x), n, None), property)] + [n for n in vars(x) if not n.startswith('_')]
    for n in sorted(set(names)):
        if n.startswith('_') or 'rng' in n or n.startswith('latest') or n in ('activated', 'sensor'):
            continue
        try:
            v = getattr(x, n)
        except NotImplementedError:
            continue
        out.append(content(v, objs, depth + 1))
    return out


def flat(x):
    return [v for y in x for v in flat(y)] if isinstance(x, list) else [x]


def sequence(e, part, opts):
    """several configurations in a row: each is what it is alone, and none shares its parts with another"""
    rngs(e, None, 0, 0)
    e.random_module.maxn = 0
    a, b = [dict(o) for o in opts]
    if part in ('sample_occupation_distortions', 'sample_sensor_potential_distortions', 'sample_sensor_response_distortions', 'sample_barrier_function'):
        a['quality_multiplier'], b['quality_multiplier'] = e.real('qa', 0.01, 1), e.real('qb', 0.01, 1)
    if part == 'sample_SensorGeneric':
        e.pick = 3

    def run(o):
        e.random_module.total = -1
        for r in e.random_module.made:
            r.n = 0
        x = getattr(sampler_module(), part)(**o)
        objs = []
        return x, flat(content(x, objs)), objs
    e.reset()
    ra = run(a)[1]
    e.reset()
    rb = run(b)[1]
    e.reset()
    e.observe('a', [v for v in ra if not isinstance(v, str)])
    seen = []
    for o, want in ((a, ra), (b, rb), (a, ra), (b, rb)):
        x, got, objs = run(o)
        e.eq([v for v in got if isinstance(v, str)], [v for v in want if isinstance(v, str)], 'a configuration has the parts it has alone')
        e.close([v for v in got if not isinstance(v, str)], [v for v in want if not isinstance(v, str)], 'a configuration does not depend on configurations sampled before', 1e-9)
        e.check(not any(p is q for p in objs for q in seen), 'configurations do not share their parts')
        seen += objs


def zeros(n):
    def f(real, shape, *a, **k):
        return real(n if np.ndim(shape) == 0 and shape > 1000 else shape, *a, **k)
    return f


def scenarios(tier):
    S = []

    def add(name, fn, params, **k):
        S.append(Scenario(name, fn, params, random=True, functions=FUNCTIONS, **k))
    th = tier == 'thorough'
    for more in (0, 1, 3):
        add(f'ideal csd, {more} failed attempts, lengths', ideal, dict(more=more, lo=2, hi=4, limit=9))
    for lo, hi in ((0, 2), (4, 5), (5, 7)):
        add(f'ideal csd, draws {lo}..{hi - 1}', ideal, dict(more=1, lo=lo, hi=hi, limit=9))
        if hi == 7 or th:
            add(f'ideal csd, draws {lo}..{hi - 1}, one rejected', ideal, dict(more=1, lo=lo, hi=hi + 2, limit=11))
    for comp in (False, True):
        for lo, hi, q in ((0, 2, 1.0), (0, 2, 0.3), (2, 4, None), (1, 4, None)):
            add(f'generic sensor, lever-arms {lo}..{hi - 1}, compensated={comp}, quality {q}', sensor_generic, dict(compensated=comp, q=q, num=3, lo=lo, hi=hi, extra=0))
    for num in (3, 4):
        add(f'generic sensor, {num} peaks', sensor_generic, dict(compensated=False, q=1.0, num=num, lo=4, hi=999, extra=0))
    for num in (5, 6):
        for k in range(1, num):
            add(f'generic sensor, peak {k} of {num}', sensor_generic, dict(compensated=False, q=0.25, num=num, lo=4 + 4 * k, hi=8 + 4 * k, extra=20))
        for k in range(num - 1) if th else ():
            add(f'generic sensor, peaks {k}, {k + 1} of {num}', sensor_generic, dict(compensated=False, q=0.25, num=num, lo=4 + 4 * k, hi=12 + 4 * k, extra=20))
    add('generic sensor, 3 peaks, one rejected draw', sensor_generic, dict(compensated=False, q=0.5, num=3, lo=4, hi=999, extra=1))
    add('generic sensor, steepest point', steepest, dict(compensated=False, q=1.0, num=3, lo=13, hi=14, extra=999), np_over={'linspace': linspace_logged(5)})
    for kind in ('occ', 'pot', 'resp'):
        add(f'distortions {kind}', distortions, dict(kind=kind, q=None, limit=2))
        add(f'distortions {kind}, rejected draw', distortions, dict(kind=kind, q=0.5, limit=4))
    for kind, ok in (('SensorGeneric', True), ('SensorScanSensorGeneric', True), ('Sensor', False)):
        add(f'full configuration {kind}', full, dict(kind=kind, valid=ok))
    W = [(0, 1), (1, 3), (3, 5), (5, 7), (7, 9), (9, 10), (10, 11)] + [(k, k + 3) for k in ((11, 14, 20, 32, 44, 53, 62, 74) if not th else range(11, 80, 3))]
    if th:
        W += [(k, k + 4) for k in range(12, 80, 2)]
    for lo, hi in W:
        add(f'scan sensor, draws {lo}..{hi - 1}', scan_sensor, dict(compensated=lo % 2 == 0, q=0.5, lo=lo, hi=hi), np_over={'linspace': linspace(9), 'zeros': zeros(9)})
    add('barrier function', barrier, dict(q=None))
    q = lambda x, y, **k: (dict(quality_multiplier=x, **k), dict(quality_multiplier=y, **k))
    for n, part, opts in (('occupation distortions', 'sample_occupation_distortions', ({}, {})), ('potential distortions', 'sample_sensor_potential_distortions', ({}, {})),
                          ('response distortions', 'sample_sensor_response_distortions', ({}, {})), ('barriers', 'sample_barrier_function', (dict(offset=0.5, height=1.0), dict(offset=-0.5, height=2.0))),
                          ('generic sensors', 'sample_SensorGeneric', q(1.0, 0.5)), ('generic sensors compensated', 'sample_SensorGeneric', (dict(quality_multiplier=0.5, compensated_sensor=True), dict(quality_multiplier=0.5, compensated_sensor=False))),
                          ('scan sensors', 'sample_SensorScanSensorGeneric', (dict(quality_multiplier=0.5, compensated_sensor=True), dict(quality_multiplier=0.25, compensated_sensor=False)))):
        add(f'sequence of {n}', sequence, dict(part=part, opts=opts), np_over={'linspace': linspace(9), 'zeros': zeros(9)})
    return S
