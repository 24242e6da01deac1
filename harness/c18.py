"""C18 parameter samplers"""
import numpy as np

from symx.harness import Scenario
from symx.stubs import StubRNG

FUNCTIONS = ['NormalSamplingRange', 'UniformSamplingRange', 'LogNormalSamplingRange', 'ExponentialSamplingRange (constructor, sample_parameter, last_sample)']
BOUNDS = 'ranges, widths, means, standard deviations arbitrary reals in [-8, 8] (range at least 1/4 wide); every random stream with up to 3 rejected draws; sequences of 1..3 samples; two samplers sharing one generator, two samplers with narrowed ranges used alternately; zero width; ranges as tuple, list, array'
OUTSIDE = 'more rejected draws in a row; the distribution itself (a draw is an unconstrained value of the generator); rounding'
ASSUMPTIONS = ['numpy generators return values of the documented support; exp monotone and positive']
V = 8


GIVEN = [None]


def build(e, kind, width, rng, form='tuple', i='', mean=True):
    """-> sampler, (lo, hi) total range, sub(draw) -> sub-range, value(z) -> what a draw z is worth"""
    from simcats import support_functions as sf
    a, b = e.real('a' + i, -V, V), e.real('b' + i, -V, V)
    rev = kind == 'exponential-'
    e.assume(a - b >= 0.25 if rev else b - a >= 0.25)
    tot = {'tuple': tuple, 'list': list, 'array': lambda x: e.array(list(x))}[form]((a, b))
    GIVEN[0] = tot
    lo, hi = (b, a) if rev else (a, b)
    kw = {}
    w = None
    if width == 'narrow':
        w = e.real('w' + i, 0.0625, V)
        e.assume(w <= hi - lo - 0.0625)
    elif width == 'wide':
        w = e.real('w' + i, 0.0625, 2 * V + 2)
        e.assume(w >= hi - lo)
    elif width == 'zero':
        w = 0.0
    if w is not None:
        kw['sampling_range'] = w
    if rng is not None:
        kw['rng'] = rng
    m, s = e.real('m' + i, -V, V), e.real('s' + i, 0.125, V)
    if kind == 'normal':
        S = sf.NormalSamplingRange(tot, std=s, mean=m if mean else None, **kw)
        value = lambda z, r: m + s * z
    elif kind == 'uniform':
        S = sf.UniformSamplingRange(tot, **kw)
        value = lambda z, r: r[0] + (r[1] - r[0]) * z
    elif kind == 'lognormal':
        S = sf.LogNormalSamplingRange(tot, mean=m, sigma=s, **kw)
        value = lambda z, r: np.exp(m + s * z)
    else:
        S = sf.ExponentialSamplingRange(tot, scale=s, **kw)
        value = lambda z, r: (r[1] - s * z * (r[1] - r[0])) if rev else (r[0] + s * z * (r[1] - r[0]))
    return S, (lo, hi), w if width in ('narrow', 'zero') else None, value


def draws(e, rng, kinds, start):
    """the values the generator handed out so far, in order"""
    out = []
    for n in range(start + 1, rng.n + 1):
        for k, lo, hi in kinds:
            name = f'{rng.tag}.{k}{n}'
            src = e.inputs if e.sym else e.used
            if name in src:
                out.append(e.real(name, lo, hi))
    return out


KINDS = (('uniform', 0, 1), ('normal', -8, 8), ('exponential', 0, 40))


def sample(e, kind, width, n, form='tuple', own=False, mean=True):
    w0 = width if width in ('narrow', 'zero') else None
    rng = None if own else StubRNG(e, 'g')
    if rng is not None:
        rng.limit = n + (3 if n == 1 else 2) + (w0 is not None)
    S, (lo, hi), w, value = build(e, kind, width, rng, form, mean=mean)
    if own:
        rng = e.random_module.made[0]
        rng.limit = n + (3 if n == 1 else 2) + (w0 is not None)
    sub = (lo, hi)
    if w is not None:
        d = draws(e, rng, KINDS, 0)
        e.check(len(d) == 1, 'the sub-range is placed once')
        c = lo + w / 2 + (hi - lo - w) * d[0]
        sub = (c - w / 2, c + w / 2)
        e.check(e.and_(sub[0] >= lo - 1e-6, sub[1] <= hi + 1e-6), 'the sub-range lies in the total range')
    elif not own:
        e.check(rng.n == 0, 'without narrowing nothing is drawn at construction')
    e.check(S.last_sample() is None, 'no last sample before the first draw')
    got = []
    for k in range(n):
        start = rng.n
        x = S.sample_parameter()
        got.append(x)
        e.observe(f'x{k}', x)
        e.check(e.and_(x >= lo - 1e-6, x <= hi + 1e-6), 'every sample lies in the total range')
        e.check(e.and_(x >= sub[0] - 1e-6, x <= sub[1] + 1e-6), 'every sample lies in the sub-range')
        e.close(S.last_sample(), x, 'the last sample is the value most recently returned', 0)
        e.close(S.last_sample(), x, 'asking for the last sample changes nothing', 0)
        if not mean:
            continue
        vals = [value(z, sub) for z in draws(e, rng, KINDS, start)]
        e.check(len(vals) > 0, 'every sample is drawn')
        # the draws before the last one were outside, the last one is returned unchanged
        e.check([e.or_(v <= sub[0] + 1e-6, v >= sub[1] - 1e-6) for v in vals[:-1]], 'only draws outside the sub-range are rejected')
        e.close(x, vals[-1], 'the first draw inside the sub-range is returned unchanged', 1e-6)
    e.check([x is y or bool(x == y) for x, y in zip(GIVEN[0], (hi, lo) if kind == 'exponential-' else (lo, hi))], 'the range given is not modified')
    for i in range(n):
        for j in range(i):
            if w is not None:
                e.check(e.and_(got[i] - got[j] <= w + 1e-6, got[j] - got[i] <= w + 1e-6), 'samples vary by at most the configured width')


def two(e, kinds):
    """two samplers that share one generator stay independent"""
    rng = StubRNG(e, 'g')
    rng.limit = 6
    A, ra, _, va = build(e, kinds[0], None, rng, i='A')
    B, rb, _, vb = build(e, kinds[1], None, rng, i='B')
    x = A.sample_parameter()
    y = B.sample_parameter()
    e.observe('x', x)
    e.observe('y', y)
    e.close(A.last_sample(), x, 'samplers keep their own last sample', 0)
    e.close(B.last_sample(), y, 'samplers keep their own last sample', 0)
    e.check(e.and_(x >= ra[0] - 1e-6, x <= ra[1] + 1e-6, y >= rb[0] - 1e-6, y <= rb[1] + 1e-6), 'every sample lies in the total range')


def two_narrow(e, kind, other):
    """each sampler keeps its own sub-range and its own range, whatever is built or sampled in between"""
    rng, rng2 = StubRNG(e, 'g'), StubRNG(e, 'h')
    rng.limit, rng2.limit = 4, 2
    A, ra, wa, _ = build(e, kind, 'narrow', rng, i='A')
    c = ra[0] + wa / 2 + (ra[1] - ra[0] - wa) * draws(e, rng, KINDS, 0)[0]
    B, rb, wb, _ = build(e, other, 'narrow', rng2, i='B')
    d = rb[0] + wb / 2 + (rb[1] - rb[0] - wb) * draws(e, rng2, KINDS, 0)[0]
    for S, m, w, n in ((A, c, wa, 'x'), (B, d, wb, 'y'), (A, c, wa, 'z')):
        v = S.sample_parameter()
        e.observe(n, v)
        e.check(e.and_(v >= m - w / 2 - 1e-6, v <= m + w / 2 + 1e-6), 'every sample lies in the sub-range of its sampler')
        e.close(S.last_sample(), v, 'samplers keep their own last sample', 0)


def seeded(e, kind):
    """all draws come from the generator passed in: with the same values the same samples"""
    outs = []
    for _ in range(2):
        rng = StubRNG(e, 'g')
        rng.limit = 5
        S, *_r = build(e, kind, 'narrow', rng)
        outs.append([S.sample_parameter(), S.sample_parameter() if kind in ('uniform',) else 0.0])
    e.close(outs[0], outs[1], 'equal generators give equal samples', 0)


def scenarios(tier):
    S = []
    for k in ('normal', 'uniform', 'lognormal', 'exponential', 'exponential-'):
        for w in (None, 'narrow', 'wide'):
            for n in (1, 2) if k != 'uniform' else (1, 3):
                if w == 'wide' and n != 1 or (k == 'lognormal' and n == 2 and tier != 'thorough'):
                    continue
                S.append(Scenario(f'{k} {w or "total"} x{n}', sample, dict(kind=k, width=w, n=n), random=True))
        S.append(Scenario(f'{k} own generator', sample, dict(kind=k, width='narrow', n=1, own=True), random=True))
        S.append(Scenario(f'{k} list', sample, dict(kind=k, width=None, n=1, form='list'), random=True))
        S.append(Scenario(f'{k} array', sample, dict(kind=k, width='narrow', n=1, form='array'), random=True))
        S.append(Scenario(f'{k} seeded', seeded, dict(kind=k), random=True))
    for w in (None, 'narrow'):
        S.append(Scenario(f'normal default mean {w or "total"}', sample, dict(kind='normal', width=w, n=2, mean=False), random=True))
    for a, b in (('normal', 'uniform'), ('uniform', 'uniform'), ('exponential', 'normal')):
        S.append(Scenario(f'two samplers {a} {b}', two, dict(kinds=(a, b)), random=True))
    for k in ('uniform', 'exponential', 'exponential-'):
        S.append(Scenario(f'{k} zero width', sample, dict(kind=k, width='zero', n=2), random=True))
    for a, b in (('normal', 'normal'), ('uniform', 'uniform'), ('exponential', 'exponential-'), ('exponential-', 'uniform'), ('uniform', 'normal')):
        S.append(Scenario(f'two narrow samplers {a} {b}', two_narrow, dict(kind=a, other=b), random=True))
    if tier == 'thorough':
        for k in ('normal', 'uniform', 'exponential', 'exponential-'):
            S.append(Scenario(f'{k} narrow x4', sample, dict(kind=k, width='narrow', n=4 if k == 'uniform' else 3), random=True))
    return S
