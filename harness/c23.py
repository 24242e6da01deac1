"""C23 geometry helpers"""
import numpy as np

from symx.harness import Scenario

FUNCTIONS = ['rotate_points', 'signed_dist_points_line', 'line_line_intersection', 'line_circle_intersection',
             'is_point_below_line', 'pixel_to_volt_1d']
BOUNDS = 'points/lines: coordinates in [-8, 8] (reals), 2 points per array; radius in [-4, 4]; angle any real in [-7, 7] plus the default pi/4; 1..40 pixels'
OUTSIDE = 'rounding of the float operations; larger point arrays (the functions act point by point)'
ASSUMPTIONS = ['sin/cos: sin^2+cos^2=1, odd/even symmetry, |f|<=1']

B = 8


def sf():
    import simcats.support_functions as s
    return s


def la():
    import simcats.support_functions._linear_algebra as m
    return m


def rotate(e, default, n=2):
    from simcats.support_functions import rotate_points
    p = e.reals('p', (n, 2), -B, B)
    p0 = p.copy()
    if default:
        q = rotate_points(p)
        ang = np.pi / 4
        back = rotate_points(q, -ang)
        c = s = np.sqrt(0.5)
    else:
        ang = e.real('angle', -7, 7)
        q = rotate_points(p, ang)
        back = rotate_points(points=q, angle=-ang)
        c, s = e.np.cos(ang), e.np.sin(ang)
    e.observe('q', q)
    for i in range(n):
        e.close(q[i, 0], p[i, 0] * c - p[i, 1] * s, 'rotated x is x cos - y sin')
        e.close(q[i, 1], p[i, 0] * s + p[i, 1] * c, 'rotated y is x sin + y cos')
        e.close(q[i, 0] ** 2 + q[i, 1] ** 2, p[i, 0] ** 2 + p[i, 1] ** 2, 'rotation preserves the distance to the origin', 1e-5)
    e.close(back, p, 'rotating by the negative angle restores the points', 1e-5)
    e.eq(p, p0, 'input points untouched')


def signed(e, n=2):
    from simcats.support_functions import signed_dist_points_line
    ln = e.reals('l', (2, 2), -B, B)
    p = e.reals('p', (n, 2), -B, B)
    d = ln[1] - ln[0]
    e.assume(d[0] * d[0] + d[1] * d[1] >= 0.01)
    r = signed_dist_points_line(points=p, line_points=ln)
    e.observe('r', r)
    nn = e.np.sqrt(d[0] * d[0] + d[1] * d[1])
    e.eq(np.shape(r), (n,), 'one distance per point')
    for i in range(n):
        cr = (p[i, 0] - ln[0, 0]) * d[1] - (p[i, 1] - ln[0, 1]) * d[0]
        e.close(r[i] * nn, cr, 'distance times line length is the (right-positive) cross product', 1e-5)
    sw = signed_dist_points_line(p, ln[::-1])
    e.close(r * nn, -sw * nn, 'swapping the line points flips the sign', 1e-5)


def on_line(e, n=1):
    """points on the line have distance zero; the endpoints in particular"""
    from simcats.support_functions import signed_dist_points_line
    ln = e.reals('l', (2, 2), -B, B)
    t = e.real('t', -4, 4)
    d = ln[1] - ln[0]
    e.assume(d[0] * d[0] + d[1] * d[1] >= 0.01)
    p = e.array([[ln[0, 0] + t * d[0], ln[0, 1] + t * d[1]], [ln[1, 0], ln[1, 1]]])
    r = signed_dist_points_line(p, ln)
    nn = e.np.sqrt(d[0] * d[0] + d[1] * d[1])
    e.close(r * nn, r * 0.0, 'points on the line have distance zero', 1e-5)


def lines(e, kind, seq):
    f = la().line_line_intersection
    mk = {'tuple': lambda m, b: (m, b), 'list': lambda m, b: [m, b], 'array': lambda m, b: e.array([m, b])}[seq]
    m1, b1, m2, b2 = (e.real(k, -B, B) for k in ('m1', 'b1', 'm2', 'b2'))
    x1, x2 = e.real('x1', -B, B), e.real('x2', -B, B)
    a = mk(m1, b1) if kind[0] == 's' else x1
    b = mk(m2, b2) if kind[1] == 's' else x2
    r, ex = e.catch(lambda: f(a, b), ValueError)
    if kind == 'ss':
        par = m1 == m2
    elif kind == 'vv':
        par = True
    else:
        par = False
    if ex is not None:
        e.check(par, 'intersection refused only for parallel or identical lines')
        return
    e.check(e.not_(par), 'parallel or identical lines are refused')
    e.observe('r', r)
    x, y = r[0], r[1]
    for k, v in ((kind[0], (m1, b1, x1)), (kind[1], (m2, b2, x2))):
        if k == 's':
            if kind == 'ss':
                e.close((y - v[0] * x - v[1]) * (m1 - m2), 0.0, 'intersection lies on both lines', 1e-6)
            else:
                e.close(y, v[0] * x + v[1], 'intersection lies on both lines')
        else:
            e.close(x, v[2], 'intersection lies on the vertical line')


def lines_bad(e):
    f = la().line_line_intersection
    v = e.real('v', -B, B)
    for bad in ((v,), (v, v, v), e.array([v, v, v]), []):
        for args in ((bad, (v, v)), ((v, v), bad), (bad, v)):
            r, ex = e.catch(lambda: f(*args), Exception)
            e.check(isinstance(ex, ValueError), 'a line that is neither a number nor a pair is refused')


def circle(e, vertical):
    f = la().line_circle_intersection
    cx, cy = e.real('cx', -B, B), e.real('cy', -B, B)
    rad = e.real('rad', -4, 4)
    if vertical:
        c = e.real('c', -B, B)
        line = c
        d2, n2 = (cx - c) ** 2, 1
    else:
        m, b = e.real('m', -B, B), e.real('b', -B, B)
        line = (m, b)
        d2, n2 = (m * cx - cy + b) ** 2, m * m + 1
    r, ex = e.catch(lambda: f(line, (cx, cy), rad), ValueError)
    if ex is not None:
        e.check(rad <= 0, 'only a non-positive radius is refused')
        return
    e.check(rad > 0, 'a non-positive radius is refused')
    q = rad * rad * n2
    if len(r) == 0:
        e.lt(q, d2, 'no intersection point only when the line misses the circle', 1e-6)
    elif len(r) == 1:
        e.close(d2, q, 'one intersection point only for a tangent line', 1e-6)
    else:
        e.check(len(r) == 2, 'at most two intersection points')
        e.lt(d2, q, 'two intersection points only when the line cuts the circle', 1e-6)
    for p in r:
        e.close((p[0] - cx) ** 2 + (p[1] - cy) ** 2, rad * rad, 'points lie on the circle', 1e-5)
        if vertical:
            e.close(p[0], c, 'points lie on the line', 1e-5)
        else:
            e.close(p[1], m * p[0] + b, 'points lie on the line', 1e-5)
    if len(r) == 2:
        a0, a1 = r
        e.check(e.or_(a0[0] != a1[0], a0[1] != a1[1]), 'the two points differ')


def below(e):
    f = la().is_point_below_line
    x, y, m, b = (e.real(k, -B, B) for k in 'xymb')
    r = f((x, y), (m, b))
    e.check(bool(r) == bool(y < m * x + b), 'below means y < m x + b')
    h = e.integer('h', -5, 5)
    r = f((x, y), h)
    e.check(bool(r) == bool(y < h), 'below a horizontal line means y < b')


def below_float(e):
    f = la().is_point_below_line
    x, y, b = (e.real(k, -B, B) for k in 'xyb')
    r = f((x, y), b)
    e.check(bool(r) == bool(y < b), 'below a horizontal line given as a number means y < b')


def pix(e):
    from simcats.support_functions import pixel_to_volt_1d
    lim = e.reals('v', 2, -B, B)
    n = e.choose('n', [1, 2, 7, 40])
    k = e.integer('k', 0, 40)
    e.assume(k <= n)
    r = pixel_to_volt_1d(k, n, lim)
    e.observe('r', r)
    e.close(r * n, lim[0] * (n - k) + lim[1] * k, 'pixel k of n maps linearly: start at 0, end at n', 1e-6)


def scenarios(tier):
    S = []
    S.append(Scenario('rotate_default', rotate, dict(default=True)))
    S.append(Scenario('rotate_angle', rotate, dict(default=False)))
    S.append(Scenario('signed_distance', signed))
    S.append(Scenario('signed_distance_on_line', on_line))
    for k in ('ss', 'sv', 'vs', 'vv'):
        for q in ('tuple', 'list', 'array') if k != 'vv' else ('tuple',):
            S.append(Scenario(f'line_line_{k}_{q}', lines, dict(kind=k, seq=q)))
    S.append(Scenario('line_line_invalid', lines_bad))
    S.append(Scenario('line_circle', circle, dict(vertical=False)))
    S.append(Scenario('line_circle_vertical', circle, dict(vertical=True)))
    S.append(Scenario('below', below))
    S.append(Scenario('below_float', below_float))
    S.append(Scenario('pixel_to_volt', pix))
    return S
