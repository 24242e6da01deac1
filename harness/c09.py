"""C09 anchor table of all inter-dot transitions"""
import math

import numpy as np

from symx.harness import Scenario
from . import tctworld as T

FUNCTIONS = ['calculate_all_bezier_anchors', 'rotate_points', 'tct_bezier (agreement with the curve)']
BOUNDS = ('1..3 transitions with up to 4 peaks (7 inter-dot transitions); all lengths, anchor positions and bend sizes real, slopes real or fixed; rotations -pi/4, 0, pi/4, 0.3; '
          'every accepted layout of the parameters')
OUTSIDE = 'rounding; more than 4 peaks (the recurrence repeats with period two)'
ASSUMPTIONS = []


def row(cx, cy, dl, dr, p0, p1, p2, p3):
    return [p0, p1, p2, p3, cx - dl, cy - dl * p2, cx + dr, cy + dr * p3]


def sym_row(e, i, slopes=None, size=None, lengths=None):
    cx, cy = e.real(f'cx{i}', -4, 4), e.real(f'cy{i}', -4, 4)
    if slopes is None:
        p2, p3 = e.real(f's{i}', -2, 2), e.real(f't{i}', -2, 2)
        e.assume(e.or_(p2 - p3 >= 0.0625, p3 - p2 >= 0.0625))
    else:
        p2, p3 = slopes
    if size is None:
        dl, dr = e.real(f'dl{i}', 0, 1), e.real(f'dr{i}', 0, 1)
    else:
        dl, dr = size
    if lengths is None:
        p0, p1 = e.real(f'p{i}', 0, 4), e.real(f'q{i}', 0, 4)
        e.assume(p0 >= 2 * dl)
        e.assume(p1 >= 2 * dr)
    else:
        p0, p1 = lengths
    return (cx, cy, dl, dr, p0, p1, p2, p3)


def reference(r, count, angle):
    """[(L, C, R)] of the inter-dot transitions: corners of the zigzag with the two lead slopes, bends cut off symmetrically"""
    cx, cy, dl, dr, p0, p1, p2, p3 = r
    out = []
    for i in range(count):
        if i % 2 == 0:
            l, rr, nxt = (cx - dl, cy - dl * p2), (cx + dr, cy + dr * p3), (p1, p3)
        else:
            l, rr, nxt = (cx - dr, cy - dr * p3), (cx + dl, cy + dl * p2), (p0, p2)
        out.append([T.rot(q, angle) for q in (l, (cx, cy), rr)])
        cx, cy = cx + nxt[0], cy + nxt[0] * nxt[1]
    return out


def layout(e, how, rows):
    ps = [row(*r) for r in rows]
    if how == 'arrays':
        return [e.array(p) for p in ps]
    if how == 'lists':
        return ps
    if how == '2d':
        return e.array([v for p in ps for v in p]).reshape(len(ps), 8)
    if how == 'single array':
        return e.array(ps[0])
    return ps[0]


def table(e, n=1, peaks=1, angle=None, how='arrays', slopes=None, size=None, lengths=None, tol=1e-6):
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors
    rows = [sym_row(e, i, slopes and slopes[i], size, lengths) for i in range(n)]
    p = layout(e, how, rows)
    before = [v for v in e.flat(p)]
    kw = {} if peaks == 1 else {'max_peaks': peaks}
    if angle is not None:
        kw['rotation'] = angle
    got = calculate_all_bezier_anchors(p, **kw)
    a = -math.pi / 4 if angle is None else angle
    e.check(sorted(got.keys()) == list(range(peaks, peaks + n)), 'one table per transition, numbered from the limit given for the first one')
    for i, r in enumerate(rows):
        t = got[peaks + i]
        k = 2 * (peaks + i) - 1
        e.eq(np.shape(t), (k, 3, 2), 'transition n has 2n-1 inter-dot transitions with three anchors each')
        e.observe(f't{i}', t)
        ref = reference(r, k, a)
        for j in range(k):
            e.close([t[j, q, x] for q in range(3) for x in range(2)], [v for q in ref[j] for v in q],
                    f'anchors of an inter-dot transition: middle at the corner of the zigzag, outer ones on the lead lines meeting there', tol)
    e.eq(e.flat(p), before, 'the parameters are not modified')


def uncoupled(e, angle, peaks=2):
    """no coupling region at all: the three anchors coincide"""
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors
    r = sym_row(e, 0, (0.4, -0.3), (0.0, 0.0))
    got = calculate_all_bezier_anchors(e.array(row(*r)), peaks, angle)[peaks]
    ref = reference(r, 2 * peaks - 1, angle)
    for j in range(2 * peaks - 1):
        for q in range(3):
            e.close([got[j, q, 0], got[j, q, 1]], list(ref[j][1]), 'without coupling all three anchors lie on the corner', 1e-6)


def order(e, perm):
    """row number i determines table entry i: permuting rows permutes what the entries describe, nothing else"""
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors
    rows = [sym_row(e, i, (0.4 + 0.1 * i, -0.3), (0.125, 0.25)) for i in range(len(perm))]
    a = calculate_all_bezier_anchors([e.array(row(*r)) for r in rows], rotation=0.3)
    b = calculate_all_bezier_anchors([e.array(row(*rows[i])) for i in perm], rotation=0.3)
    for k, i in enumerate(perm):
        m = min(2 * (k + 1) - 1, 2 * (i + 1) - 1)
        e.close(b[k + 1][:m], a[i + 1][:m], 'an entry depends on its own row only', 1e-6)


def agree(e, peaks, slopes, size, lengths, seg):
    """lead lines of the table are the straight parts of the transition curve"""
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors, initialize_tct_functions
    r = sym_row(e, 0, slopes, size, lengths)
    p = e.array(row(*r))
    t = calculate_all_bezier_anchors(p, peaks, 0.0)[peaks]
    f = initialize_tct_functions(p, peaks)[peaks]
    w = e.real('w', 0, 1)
    if seg == 'left':
        x, y = t[0, 0, 0] - 3 * w, t[0, 0, 1] - 3 * w * slopes[0]
    elif seg == 'right':
        x, y = t[-1, 2, 0] + 3 * w, t[-1, 2, 1] + 3 * w * slopes[1]
    else:
        q, s = t[seg, 2], t[seg + 1, 0]
        x, y = q[0] + w * (s[0] - q[0]), q[1] + w * (s[1] - q[1])
    v = f(x_eval=e.array([x]), lut_entries=3)
    e.observe('v', v)
    e.close(v, [y], 'straight parts of the transition curve connect the outer anchors of the table', 1e-6)


SL = [(0.4, -0.3), (0.25, -0.5), (0.3, -0.7)]


def curve_stub(e):
    class C:
        def __init__(s, nodes):
            s.n = nodes

        @classmethod
        def from_nodes(cls, nodes):
            return cls(nodes)

        def evaluate_multi(s, t):
            return e.array([[s.n[c, 0] * (1 - u) * (1 - u) + 2 * s.n[c, 1] * u * (1 - u) + s.n[c, 2] * u * u for u in e.flat(t)] for c in range(2)])
    return C


curve_stub.conc = False


def scenarios(tier):
    import bezier
    S = []
    for how in ('arrays', 'lists', '2d'):
        S.append(Scenario(f'three transitions, {how}', table, dict(n=3, how=how, slopes=SL)))
    for how in ('single array', 'flat list'):
        S.append(Scenario(f'one transition, {how}', table, dict(n=1, peaks=2, how=how, slopes=SL)))
    for a in (0.0, math.pi / 4, 0.3):
        S.append(Scenario(f'rotation {a:.2f}', table, dict(n=2, peaks=2, angle=a, slopes=SL)))
    S.append(Scenario('four peaks', table, dict(n=1, peaks=4, slopes=[(-0.2, 0.6)])))
    S.append(Scenario('symbolic slopes', table, dict(n=1, peaks=2, angle=0.0, size=(0.25, 0.125)), check_timeout=60000))
    S.append(Scenario('symbolic slopes, rotated', table, dict(n=1, peaks=1, size=(0.25, 0.125)), check_timeout=60000))
    S.append(Scenario('no coupling', uncoupled, dict(angle=0.3)))
    S.append(Scenario('rows exchanged', order, dict(perm=(2, 0, 1))))
    for seg in ('left', 0, 1, 'right'):
        S.append(Scenario(f'agreement with the curve, part {seg}', agree, dict(peaks=2, slopes=(0.5, -0.25), size=(0.25, 0.125), lengths=(1.5, 2.0), seg=seg),
                          foreign={bezier.Curve: curve_stub}))
    S.append(Scenario('agreement with the curve, part 3 of a long one', agree, dict(peaks=3, slopes=(-0.5, 0.25), size=(0.125, 0.375), lengths=(1.5, 2.0), seg=3),
                      foreign={bezier.Curve: curve_stub}))
    if tier == 'thorough':
        for a in (0.0, -math.pi / 4):
            S.append(Scenario(f'everything symbolic {a:.2f}', table, dict(n=1, peaks=2, angle=a), check_timeout=200000))
        S.append(Scenario('two transitions, six peaks', table, dict(n=2, peaks=6, slopes=SL)))
        for seg in range(4):
            S.append(Scenario(f'agreement with the curve, symbolic bends, part {seg}', agree, dict(peaks=3, slopes=(0.5, -0.25), size=None, lengths=(2.0, 2.5), seg=seg),
                              foreign={bezier.Curve: curve_stub}))
    return S
