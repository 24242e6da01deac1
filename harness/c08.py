"""C08 transition curve: one continuous wavefront made of straight parts and bends"""
import numpy as np

from symx import core
from symx.harness import Scenario
from . import tctworld as T
from .c09 import row, curve_stub

FUNCTIONS = ['tct_bezier (lookup table and exact mode)', 'initialize_tct_functions']
BOUNDS = ('x any real (|x| up to 12); eight shapes of the bends (concave, convex, symmetric, one-sided, touching, none) with fixed or symbolic centre; 1..4 peaks and no limit '
          '(4 periods in both directions); lookup tables with 2, 3, 5 and 9 entries; arrays of up to three values in any order; every accepted parameter layout')
OUTSIDE = 'rounding; longer arrays (values are computed one by one); more peaks (the curve is periodic); bends outside the eight shapes'
ASSUMPTIONS = ['bezier.Curve.evaluate_multi returns the Bezier polynomial (executed by the library when the nodes are concrete)']
# dl, dr, p0, p1, p2, p3
SHAPES = {
    'concave': (0.25, 0.5, 1.5, 2.0, 0.5, -0.25), 'convex': (0.5, 0.25, 2.0, 1.5, -0.5, 0.25), 'symmetric': (0.375, 0.375, 2.0, 2.5, 0.375, -0.375),
    'left only': (0.5, 0.0, 1.5, 2.0, 0.25, -0.5), 'right only': (0.0, 0.5, 2.0, 1.5, 0.25, -0.5), 'touching': (0.25, 0.5, 0.5, 1.0, 0.5, -0.75),
    'none': (0.0, 0.0, 1.5, 1.0, 0.5, -0.25), 'same sign': (0.5, 0.25, 2.0, 1.5, -0.25, -1.0),
}
CENTRE = (-0.75, 0.5)


def shape(name, centre=CENTRE):
    dl, dr, p0, p1, p2, p3 = SHAPES[name]
    return (*centre, dl, dr, p0, p1, p2, p3)


def corner(r, k):
    """k-th corner of the zigzag (any integer)"""
    cx, cy, dl, dr, p0, p1, p2, p3 = r
    m, odd = divmod(k, 2)
    x, y = cx + m * (p0 + p1), cy + m * (p0 * p2 + p1 * p3)
    return (x + p1, y + p1 * p3) if odd else (x, y)


def bend(r, k):
    cx, cy, dl, dr, p0, p1, p2, p3 = r
    c = corner(r, k)
    if k % 2:
        return (c[0] - dr, c[1] - dr * p3), c, (c[0] + dl, c[1] + dl * p2)
    return (c[0] - dl, c[1] - dl * p2), c, (c[0] + dr, c[1] + dr * p3)


def bez(n, t):
    if not core.is_sym(n[0][0]) and n[0] == n[1] == n[2]:
        return n[0]
    return tuple(n[0][i] * (1 - t) * (1 - t) + 2 * n[1][i] * t * (1 - t) + n[2][i] * t * t for i in (0, 1))


def point(e, name, r, part):
    """a point of the reference curve on the given part: ('left'|'right'|'bend'|'line', k)"""
    kind, k = part
    u = e.real(name, 0, 1)
    if kind == 'bend':
        return bez(bend(r, k), u)
    if kind == 'line':
        a, b = bend(r, k)[2], bend(r, k + 1)[0]
        return a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1])
    a, d, s = (bend(r, 0)[0], -4, r[6]) if kind == 'left' else (bend(r, k)[2], 4, r[7])
    return a[0] + d * u, a[1] + d * u * s


def tolerance(r, lut):
    """half the widest gap between neighbouring table entries times the steepest slope"""
    if not lut:
        return 1e-6
    n = bend(r, 0)
    x = [bez([(p[0], 0) for p in n], i / (lut - 1))[0] for i in range(lut)]
    if core.is_sym(x[0]):
        dl, dr = r[2], r[3]
        x = [bez([(-dl, 0), (0, 0), (dr, 0)], i / (lut - 1))[0] for i in range(lut)]
    return max(b - a for a, b in zip(x, x[1:])) / 2 * max(abs(r[6]), abs(r[7])) + 1e-6


def within(e, v, y, tol, label):
    if tol <= 1e-6:
        return e.close(v, y, label, tol)
    d = v - y
    e.le([d, -d], [tol, tol], label)


def parts(peaks):
    k = 2 * peaks - 1
    out = [('left', 0), ('right', k - 1)]
    for i in range(k):
        out.append(('bend', i))
        if i < k - 1:
            out.append(('line', i))
    return out


def one(e, name, part, lut=None, peaks=1, scalar=False, sym_centre=False):
    from simcats.ideal_csd.geometric import tct_bezier
    r = shape(name)
    if sym_centre:
        r = shape(name, (e.real('cx', -2, 2), e.real('cy', -2, 2)))
    p = e.array(row(*r))
    p0 = p.copy()
    x, y = point(e, 'u', r, part)
    kw = {} if peaks is None else {'max_peaks': peaks}
    if lut:
        kw['lut_entries'] = lut
    if scalar:
        v = tct_bezier(p, x, **kw)
        e.check(np.ndim(v) == 0, 'a single x value yields a single y value')
        v = [v]
    else:
        xa = e.array([x])
        v = tct_bezier(tct_params=p, x_eval=xa, **kw)
        e.eq(np.shape(v), (1,), 'one y value per x value')
        e.eq(xa, [x], 'the x values are not modified')
    e.observe('v', v)
    if part[0] == 'bend':
        within(e, v[0], y, tolerance(r, lut), 'value on a bend')
    else:
        e.close(v, [y], 'value on a straight part', 1e-6)
    e.eq(p, p0, 'the parameters are not modified')


def many(e, name, pts, lut=None, peaks=2):
    """values of an array are those of its points, in any order"""
    from simcats.ideal_csd.geometric import tct_bezier
    r = shape(name)
    p = e.array(row(*r))
    xy = [point(e, f'u{i}', r, q) for i, q in enumerate(pts)]
    xa = e.array([q[0] for q in xy])
    x0 = xa.copy()
    v = tct_bezier(p, xa, lut, peaks)
    e.observe('v', v)
    e.eq(np.shape(v), np.shape(xa), 'one y value per x value')
    for i, (q, part) in enumerate(zip(xy, pts)):
        within(e, v[i], q[1], tolerance(r, lut) if part[0] == 'bend' else 1e-6, 'every value depends on its own x only')
    e.eq(xa, x0, 'the x values are not modified')


def integer(e, name, form):
    from simcats.ideal_csd.geometric import tct_bezier
    r = shape(name)
    x = e.choose('x', [-4, -3, 0, 1, 2, 6])
    p = e.array(row(*r))
    xi = x if form == 'int' else np.int64(x) if form == 'int64' else np.array([x, 1, -2])
    v = tct_bezier(p, xi, lut_entries=5, max_peaks=2)
    w = tct_bezier(p, np.array([float(q) for q in np.ravel(xi)]), lut_entries=5, max_peaks=2)
    e.close(np.ravel(v) if form == 'array' else [v], w, 'integer x values', 1e-9)


def layouts(e, how):
    """every layout accepted by initialize_tct_functions gives functions of the same curves"""
    from simcats.ideal_csd.geometric import initialize_tct_functions
    names = ['concave', 'convex', 'touching']
    n = 1 if how in ('array', 'list') else 3
    rows = [row(*shape(q, (0.25, float(i)))) for i, q in enumerate(names[:n])]
    ints = how == 'integers'
    if ints:
        rows = [[4, 4, 1, -1, -1, 0, 2, 0]]        # centre at 0.5, 1.5
    arg = {'array': lambda: np.array(rows[0]), 'list': lambda: list(rows[0]), 'arrays': lambda: [np.array(r) for r in rows], 'lists': lambda: [list(r) for r in rows],
           '2d': lambda: np.array(rows), 'integers': lambda: np.array(rows[0])}[how]()
    before = [float(v) for v in np.ravel(arg)]
    peaks = e.choose('peaks', [1, 2])
    fs = initialize_tct_functions(arg, max_peaks=peaks) if peaks != 1 or how == '2d' else initialize_tct_functions(arg)
    e.check(sorted(fs) == list(range(peaks, peaks + len(rows))), 'one function per transition, numbered from the limit given for the first one')
    for i in [e.choose('row', list(range(len(rows))))]:
        r = (0.5, 1.5, 1.5, 1.5, 4, 4, 1, -1) if ints else shape(names[i], (0.25, float(i)))
        for part in [e.choose(f'part{i}', [('left', 0), ('right', 2 * (peaks + i - 1)), ('bend', 0)])]:
            x, y = point(e, f'u{part[0]}', r, part)
            v = fs[peaks + i](x_eval=x, lut_entries=5)
            within(e, v, y, tolerance(r, 5) if part[0] == 'bend' else 1e-6, 'functions of all accepted parameter layouts describe the configured curves')
    e.eq([float(v) for v in np.ravel(arg)], before, 'the parameters are not modified')


def continuous(e, name, lut, peaks):
    """no jumps: the rise between any two x values is limited by the slopes (up to the resolution of the lookup table)"""
    from simcats.ideal_csd.geometric import tct_bezier
    r = shape(name)
    p = e.array(row(*r))
    x, d = e.real('x', -3, 6), e.real('d', 0, 0.25)
    v = tct_bezier(p, e.array([x, x + d]), lut, peaks)
    e.observe('v', v)
    lo, hi = min(r[6], r[7]), max(r[6], r[7])
    t = 2 * tolerance(r, lut)
    e.le(v[1] - v[0], hi * d, 'no steeper than the steeper lead', t)
    e.le(lo * d, v[1] - v[0], 'no flatter than the flatter lead', t)


def invalid(e, which):
    """bends that reach beyond their own lead section are refused"""
    from simcats.ideal_csd.geometric import tct_bezier
    r = list(shape('concave'))
    x = e.real('x', -3, 3)
    k = e.real('k', 0.0, 0.999)
    if which == 'left':
        r[4] = 2 * r[2] * k
    else:
        r[5] = 2 * r[3] * k
    _, err = e.catch(lambda: tct_bezier(e.array(row(*r)), x, 3, 1), AssertionError, ValueError)
    e.check(err is not None, 'bends longer than half of their lead section are refused')


def scenarios(tier):
    import bezier
    S = []
    G = {bezier.Curve: curve_stub}

    def add(n, f, p, **k):
        S.append(Scenario(n, f, p, **k))
    for name in SHAPES:
        for part in (parts(2) if name in ('concave', 'convex') else parts(1) + [('bend', 1), ('line', 1)]):
            pk = 2 if part[1] >= 1 or part[0] == 'line' or (name == 'touching' and part[0] == 'bend') else 1
            if part[0] == 'right':
                pk = (part[1] + 2) // 2
            add(f'{name}, exact, {part[0]} {part[1]}', one, dict(name=name, part=part, peaks=pk), foreign=T.BEZIER)
        add(f'{name}, table', one, dict(name=name, part=('bend', 0), lut=5, peaks=1), foreign=T.BEZIER)
        add(f'{name}, table, second bend', one, dict(name=name, part=('bend', 1), lut=5, peaks=2, scalar=True), foreign=T.BEZIER)
    add('table of nine', one, dict(name='concave', part=('bend', 2), lut=9, peaks=3), foreign=T.BEZIER)
    add('table of two', one, dict(name='convex', part=('bend', 3), lut=2, peaks=3), foreign=T.BEZIER)
    for k in (-4, -3, 2, 5):
        add(f'no limit, bend {k}', one, dict(name='concave', part=('bend', k), peaks=None, scalar=k == 2), foreign=T.BEZIER)
        add(f'no limit, line {k}', one, dict(name='convex', part=('line', k), peaks=None, lut=3), foreign=T.BEZIER)
    for part in (('left', 0), ('line', 0), ('line', 1), ('right', 4)):
        add(f'symbolic centre, {part[0]} {part[1]}', one, dict(name='concave', part=part, lut=3, peaks=(part[1] + 2) // 2 if part[0] == 'right' else 3, sym_centre=True), foreign=G)
    add('symbolic centre, bend', one, dict(name='convex', part=('bend', 2), peaks=2, sym_centre=True), foreign=G)
    add('right line after four peaks', one, dict(name='touching', part=('right', 6), peaks=4, lut=3), foreign=T.BEZIER)
    add('array, falling', many, dict(name='concave', pts=[('right', 2), ('line', 0), ('left', 0)], lut=3), foreign=T.BEZIER)
    add('array, mixed', many, dict(name='convex', pts=[('bend', 1), ('left', 0), ('line', 1)], lut=None), foreign=T.BEZIER)
    add('array, no limit, mixed', many, dict(name='concave', pts=[('bend', 0), ('line', -3), ('bend', 3)], lut=3, peaks=None), foreign=T.BEZIER)
    add('array, only outside', many, dict(name='touching', pts=[('right', 2), ('left', 0)], lut=3), foreign=T.BEZIER)
    add('array, only inside', many, dict(name='none', pts=[('line', 1), ('line', 0)], lut=None), foreign=T.BEZIER)
    for form in ('int', 'int64', 'array'):
        add(f'integer x, {form}', integer, dict(name='concave', form=form), foreign=T.BEZIER)
    for how in ('array', 'list', 'arrays', 'lists', '2d', 'integers'):
        add(f'layout {how}', layouts, dict(how=how), foreign=T.BEZIER)
    for name in ('concave', 'same sign', 'none'):
        add(f'continuity, {name}', continuous, dict(name=name, lut=3, peaks=2), foreign=T.BEZIER, max_paths=600)
    add('refused left', invalid, dict(which='left'), foreign=G)
    add('refused right', invalid, dict(which='right'), foreign=G)
    if tier == 'thorough':
        for name in SHAPES:
            for part in parts(4):
                add(f'{name}, exact, four peaks, {part[0]} {part[1]}', one, dict(name=name, part=part, peaks=4, scalar=True), foreign=T.BEZIER)
                add(f'{name}, table 9, four peaks, {part[0]} {part[1]}', one, dict(name=name, part=part, peaks=4, lut=9), foreign=T.BEZIER)
            for k in range(-6, 7):
                add(f'{name}, no limit, bend {k}', one, dict(name=name, part=('bend', k), peaks=None), foreign=T.BEZIER)
                add(f'{name}, no limit, line {k}', one, dict(name=name, part=('line', k), peaks=None), foreign=T.BEZIER)
            for pk in (None, 1, 3):
                add(f'continuity, {name}, limit {pk}', continuous, dict(name=name, lut=None, peaks=pk), foreign=T.BEZIER, max_paths=2000)
    return S
