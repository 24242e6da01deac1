"""C21 dot jumps"""
import warnings
from functools import partial

import numpy as np

from symx import core
from symx.harness import Scenario
from symx.stubs import StubRNG
from .c20 import sampler

FUNCTIONS = ['OccupationDotJumps.noise_function', '_noise_function_1d', '_noise_function_2d', 'generate_dot_jumps_blockwise', 'dot_jumps_blockwise', 'setters']
BOUNDS = 'jump axis of 1..4 pixels, other axis 1..3; every history of block lengths (1..n) and jump distances (0..2 pixels; 256 in one scenario); arbitrary sweep ranges in every direction, 1D sweeps of g1, g2 or both; arbitrary scale and lam; a second (frozen) application; two chained distortions along different axes'
OUTSIDE = 'more pixels; distribution of lengths and distances (numpy); 1D scans without a function generating outside data; two distortions along the same axis; rounding'
ASSUMPTIONS = ['the undistorted system is represented by a structure whose values identify the voltages (the code only moves values)',
               'rng.geometric >= 1, rng.poisson >= 0, rng.binomial(1, p) in {0, 1}']
V = 8
EPS = 1e-6


def lin(g, n):
    return [g[0] + (g[1] - g[0]) * i / (n - 1) if n > 1 else g[0] * 1 for i in range(n)]


def structure(v1, v2):
    return v1, v2, 2 * v1 - 3 * v2 + 1


class System:
    """the undistorted system: occupations and lead labels identify the voltages they belong to"""

    def __init__(self, e):
        self.e, self.calls = e, 0

    def __call__(self, volt_limits_g1, volt_limits_g2, resolution=None):
        self.calls += 1
        if np.ndim(resolution) == 0:
            n = int(resolution)
            volts = list(zip(lin(volt_limits_g1, n), lin(volt_limits_g2, n)))
            return self.pack(volts, (n,))
        nx, ny = (int(v) for v in resolution)
        return self.pack([(a, b) for b in lin(volt_limits_g2, ny) for a in lin(volt_limits_g1, nx)], (ny, nx))

    def pack(self, volts, shape):
        occ, lead = np.empty(shape + (2,), dtype=object), np.empty(shape, dtype=object)
        for p, v in zip(np.ndindex(*shape), volts):
            occ[p + (0,)], occ[p + (1,)], lead[p] = structure(*v)
        return self.e.array(occ), self.e.array(lead)


def sweep(e, dirs):
    """dirs: direction of g1 and g2: '+', '-', '0'"""
    out = []
    for name, d in zip(('g1', 'g2'), dirs):
        g = e.reals(name, 2, -2, 2)
        if d == '0':
            g[1] = g[0]
        else:
            e.assume(g[1] - g[0] >= 0.01 if d == '+' else g[0] - g[1] >= 0.01)
        out.append(g)
    return out


def make(e, g, axis, par, ratio=1, by='ctor'):
    from simcats.distortions import OccupationDotJumps
    if by == 'ctor':
        return OccupationDotJumps(axis=axis, ratio=ratio, rng=g, **par)
    D = OccupationDotJumps(scale=33.0, lam=44.0, axis=1 - axis, ratio=0.5)
    D.scale, D.lam, D.axis, D.ratio, D.rng = par['scale'], par['lam'], axis, ratio, g
    return D


def params(e, sampled, tag=''):
    if sampled:
        return dict(scale=sampler(e, f'scale{tag}', 0, V, True), lam=sampler(e, f'lam{tag}', 0, V))
    return dict(scale=e.real(f'scale{tag}', 0, V, open=True), lam=e.real(f'lam{tag}', 0, V))


def run(D, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return D.noise_function(*a, **k)


def axis_info(shape, axis, g1, g2):
    """(pixels along the jump axis, range of the gate of that axis)"""
    g = g1 if axis == 1 else g2
    return (shape[0] if len(shape) == 1 else shape[axis]), g


def blocks(g, n, start):
    seg, pos, k = [], 0, start
    L = g.by_kind['geometric']
    while pos < n:
        l = int(L[k])
        seg.append((pos, min(n, pos + l)))
        pos += l
        k += 1
    return seg


def shifts(e, occ, lead, shape, axis, g1, g2, n):
    """terms of the voltage displacement of every pixel along the jump axis, per position (ascending voltage) of the axis;
    checks that nothing moves along the other axis and that occupations and lead labels move together"""
    comp = 0 if axis == 1 else 1
    if len(shape) == 1:
        volts = {(i,): v for i, v in enumerate(zip(lin(g1, n), lin(g2, n)))}
    else:
        a, b = lin(g1, shape[1]), lin(g2, shape[0])
        volts = {(y, x): (a[x], b[y]) for y in range(shape[0]) for x in range(shape[1])}
    g = (g1, g2)[comp]
    down = bool(g[0] > g[1])
    out = {j: [] for j in range(n)}
    same, together = [], []
    for p, v in volts.items():
        o = (occ[p + (0,)], occ[p + (1,)])
        same.append(abs(o[1 - comp] - v[1 - comp]) <= EPS)
        together.append(abs(lead[p] - structure(*o)[2]) <= EPS)
        i = p[0] if len(shape) == 1 else p[axis]
        out[n - 1 - i if down else i].append(v[comp] - o[comp])
    e.check(same, 'nothing moves along the other axis')
    e.check(together, 'lead transitions and the occupations of both dots are displaced by the same amount')
    return out, down


def dimensionless(e, seg, out, n, g, P, size, label=''):
    """displacements: none in the quiet blocks; one drawn number of pixels per jump block"""
    R = abs(g[1] - g[0])
    quiet = [s for i, s in enumerate(seg) if i % 2 == 0]
    jump = [s for i, s in enumerate(seg) if i % 2 == 1]
    e.check([abs(d) <= EPS for s, t in quiet for j in range(s, t) for d in out[j]], label + 'pixels outside the jump blocks stay as they were')
    fits = []
    for s, t in jump:
        fits.append([core.or_(*[core.and_(P[k] == m, *[abs(d * (n - 1) - m * R) <= EPS * n for j in range(s, t) for d in out[j]]) for m in size]) for k in range(len(P))])
    cs = [core.or_(*f) if f else False for f in fits]
    for a in range(len(fits)):
        for b in range(a + 1, len(fits)):
            cs.append(core.or_(*[core.and_(fits[a][k], fits[b][l]) for k in range(len(P)) for l in range(len(P)) if k != l]))
    if cs:
        e.check(cs, label + 'every pixel of a jump block takes the structure of the same system, the drawn number of pixels lower along the axis')


def jumps(e, shape, axis, dirs, sampled=False, ratio=1, repeat=1, by='ctor', size=(0, 1, 2), geo=None, frozen=True):
    g1, g2 = sweep(e, dirs)
    n, g = axis_info(shape, axis, g1, g2)
    rng = StubRNG(e, 'g')
    rng.geo_max, rng.poi_max = geo or n, max(size)
    par = params(e, sampled)
    if ratio == 'any':
        ratio = e.real('ratio', 0, 1)
    D = make(e, rng, axis, par, ratio, by)
    system = System(e)
    res = shape[0] if len(shape) == 1 else (shape[1], shape[0])
    act = 0
    for k in range(repeat):
        occ, lead = system(g1, g2, res)
        o0, l0 = occ.copy(), lead.copy()
        ng, npo, nc = len(rng.by_kind.get('geometric', [])), len(rng.by_kind.get('poisson', [])), len(rng.calls)
        o, l = run(D, occ, lead, g1, g2, system)
        e.observe(f'o{k}', o)
        e.observe(f'l{k}', l)
        on = D.activated
        e.check(on is not None and np.ndim(on) == 0, 'activation is reported')
        on = bool(on)
        e.eq(np.shape(o), tuple(shape) + (2,), 'occupations keep their shape')
        e.eq(np.shape(l), tuple(shape), 'lead transitions keep their shape')
        draws = rng.n
        if not on:
            e.check(core.implies(ratio == 1, False) if '0' != dirs[1 - axis] else True, 'ratio 1: always active')
            e.eq(o, o0, 'an inactive distortion changes nothing')
            e.eq(l, l0, 'an inactive distortion changes nothing')
        else:
            e.check(core.implies(ratio == 0, False), 'ratio 0: never active')
            act += 1
            P = rng.by_kind.get('poisson', [])[npo:]
            if dirs[1 - axis] == '0':
                e.close(o, o0, 'no jumps along an axis that is not swept')
                e.close(l, l0, 'no jumps along an axis that is not swept')
            else:
                seg = blocks(rng, n, ng)
                out, down = shifts(e, o, l, shape, axis, g1, g2, n)
                dimensionless(e, seg, out, n, g, P, size)
                if len(seg) <= 2:
                    scaling(e, rng.calls[nc:], par, act, n, g, sampled)
        if frozen:
            # the same distortion again, frozen: same jumps, no new draws
            occ, lead = system(g1, g2, res)
            o2, l2 = run(D, occ, lead, g1, g2, system, freeze=True)
            e.check(rng.n == draws, 'a frozen application draws nothing')
            e.close(o2, o, 'a frozen application repeats the same jumps')
            e.close(l2, l, 'a frozen application repeats the same jumps')
    if sampled:
        e.check([par[p].n == act for p in par], 'parameters are sampled once per active measurement')


def scaling(e, calls, par, act, n, g, sampled):
    sc = e.real(f'scale{act}') if sampled else par['scale']
    lam = e.real(f'lam{act}') if sampled else par['lam']
    R = abs(g[1] - g[0])
    for c in calls:
        if c[0] == 'geometric':
            p = c[1]
            e.check(core.or_(core.and_(sc * n >= R, abs(p * sc * n - R) <= 1e-7 * sc * n), core.and_(sc * n <= R * (1 + 1e-9), abs(p - 1) <= 1e-7)),
                    'mean block length = scale times pixels per volt of the jump axis (at least one pixel)')
        if c[0] == 'poisson':
            e.check(abs(c[1] * R - lam * n) <= 1e-6, 'mean jump distance = lam times pixels per volt of the jump axis')


def chained(e, shape, axes, dirs, size=(0, 1, 2)):
    """jumps along one axis, then along the other one; outside data of the second contain the first (frozen)"""
    g1, g2 = sweep(e, dirs)
    rngs = [StubRNG(e, 'a'), StubRNG(e, 'b')]
    system = System(e)
    gen = system
    res = shape[0] if len(shape) == 1 else (shape[1], shape[0])
    o, l = system(g1, g2, res)
    segs, Ps, ns = {}, {}, {}
    for ax, rng in zip(axes, rngs):
        n, g = axis_info(shape, ax, g1, g2)
        rng.geo_max, rng.poi_max = n, max(size)
        D = make(e, rng, ax, params(e, False, f'_{ax}'))
        o, l = run(D, o, l, g1, g2, gen)

        def nxt(volt_limits_g1, volt_limits_g2, resolution, generate_csd, f):
            a, b = generate_csd(volt_limits_g1, volt_limits_g2, resolution)
            return f(a, b, volt_limits_g1, volt_limits_g2, generate_csd, freeze=True)
        gen = partial(nxt, generate_csd=gen, f=partial(run, D))
        segs[ax], Ps[ax], ns[ax] = blocks(rng, n, 0), rng.by_kind['poisson'], n
    e.observe('o', o)
    a, b = lin(g1, ns[1]), lin(g2, ns[0])
    volts = {(i,): (a[i], b[i]) for i in range(ns[0])} if len(shape) == 1 else {(y, x): (a[x], b[y]) for y in range(shape[0]) for x in range(shape[1])}
    e.check([abs(l[p] - structure(o[p + (0,)], o[p + (1,)])[2]) <= EPS for p in volts], 'lead transitions and the occupations of both dots are displaced by the same amount')
    for ax in (0, 1):
        g, c = (g2, 1) if ax == 0 else (g1, 0)
        n = ns[ax]
        out = {j: [] for j in range(n)}
        for p, v in volts.items():
            i = p[0] if len(shape) == 1 else p[ax]
            out[n - 1 - i if bool(g[0] > g[1]) else i].append(v[c] - o[p + (c,)])
        dimensionless(e, segs[ax], out, n, g, Ps[ax], size, 'chained: ')


def edge(e, shape, axis):
    """without a function generating outside data the structure at the edge is continued; large distances"""
    g1, g2 = sweep(e, '++')
    n, g = axis_info(shape, axis, g1, g2)
    rng = StubRNG(e, 'g')
    rng.geo_max, rng.poi_max = n, 256
    D = make(e, rng, axis, params(e, False))
    system = System(e)
    occ, lead = system(g1, g2, (shape[1], shape[0]))
    o0, l0 = occ.copy(), lead.copy()
    far = []
    orig = rng.poisson

    def poisson(lam=1.0, size=None):
        r = orig(lam, size)
        e.assume(core.or_(r == 0, r == 1, r == 256))
        far.append(r)
        return r
    rng.poisson = poisson
    o, l = run(D, occ, lead, g1, g2, None)
    e.observe('o', o)
    seg = blocks(rng, n, 0)
    take = lambda a, j: (a[:, j] if axis == 1 else a[j])
    for i, (s, t) in enumerate(seg):
        for j in range(s, t):
            if i % 2 == 0:
                e.close(take(o, j), take(o0, j), 'pixels outside the jump blocks stay as they were')
                e.close(take(l, j), take(l0, j), 'pixels outside the jump blocks stay as they were')
            else:
                alts = [core.and_(r == m, *[abs(x - y) <= EPS for x, y in zip(list(np.ravel(take(o, j))) + list(np.ravel(take(l, j))), list(np.ravel(take(o0, max(0, j - m)))) + list(np.ravel(take(l0, max(0, j - m)))))]) for r in far for m in (0, 1, 256)]
                e.check(core.or_(*alts), 'without outside data the displaced structure is continued from the edge')


def scenarios(tier):
    S = []
    thorough = tier == 'thorough'

    def add(name, fn=jumps, **kw):
        S.append(Scenario(name, fn, kw, random=True, max_paths=20000))
    D2 = ('++', '-+', '+-', '--')
    for axis in (1, 0):
        for d in D2:
            add(f'2D 2x3 axis {axis} {d}', shape=(2, 3) if axis == 1 else (3, 2), axis=axis, dirs=d)
            add(f'1D 3 axis {axis} {d}', shape=(3,), axis=axis, dirs=d)
        for s in ('+', '-'):
            own = (s + '0') if axis == 1 else ('0' + s)
            oth = ('0' + s) if axis == 1 else (s + '0')
            add(f'1D 3 axis {axis} {own}', shape=(3,), axis=axis, dirs=own)
            add(f'1D 3 axis {axis} {oth}', shape=(3,), axis=axis, dirs=oth)
        add(f'2D other shape axis {axis}', shape=(3, 2) if axis == 1 else (2, 3), axis=axis, dirs='++')
        add(f'2D single line axis {axis}', shape=(1, 4) if axis == 1 else (4, 1), axis=axis, dirs='++', size=(0, 1), geo=None if thorough else 2)
        add(f'1D 4 axis {axis}', shape=(4,), axis=axis, dirs='++', size=(0, 1), geo=None if thorough else 2)
        add(f'one pixel axis {axis}', shape=(2, 1) if axis == 1 else (1, 2), axis=axis, dirs='++')
        add(f'1D one pixel axis {axis}', shape=(1,), axis=axis, dirs='++')
        add(f'sampled, twice, any ratio axis {axis}', shape=(1, 2) if axis else (2, 1), axis=axis, dirs='++', sampled=True, ratio='any', repeat=2, size=(0, 1))
        add(f'1D sampled axis {axis}', shape=(2,), axis=axis, dirs='++', sampled=True, size=(0, 1))
        add(f'setters axis {axis}', shape=(2, 2), axis=axis, dirs='+-', by='set', size=(0, 1))
        add(f'ratio 0 axis {axis}', shape=(2, 2), axis=axis, dirs='++', ratio=0)
        add(f'edge axis {axis}', edge, shape=(2, 2), axis=axis)
        ax = (axis, 1 - axis)
        for d in (D2 if thorough else ('++', '-+' if axis else '+-')):
            add(f'chain {ax} 2D {d}', chained, shape=(2, 2), axes=ax, dirs=d, size=(0, 1, 2) if d == '++' or thorough else (0, 1))
        add(f'chain {ax} 1D', chained, shape=(2,), axes=ax, dirs='+-', size=(0, 1, 2) if thorough else (0, 1))
        if thorough:
            for shape in ((3, 3), (2, 4), (4, 2)):
                for d in D2:
                    add(f"2D {'x'.join(map(str, shape))} axis {axis} {d}", shape=shape, axis=axis, dirs=d)
            add(f'chain {ax} 2x3', chained, shape=(2, 3), axes=ax, dirs='++')
    return S
