"""Shared pieces of the ideal-CSD harnesses: transition curves given as (kinked) lines with symbolic offsets, anchor tables, reference
counting, and a converter that hands concrete images to diplib."""
import math

import bezier
import diplib as dip
import numpy as np

from symx import core
from symx.arr import SymArray, asarr


# ---- diplib on concrete images --------------------------------------------------------------------------------------
def native(x):
    """SymArray with concrete content -> real numpy array (the label image never depends on symbolic data on one path)"""
    if isinstance(x, SymArray):
        return np.array([core.CTX.concretise_real(v) if core.is_sym(v) and hasattr(core.CTX, 'concretise_real') else v
                         for v in np.ndarray.ravel(x).tolist()], dtype={'b': bool, 'i': np.int64}.get(x.sdt, float)).reshape(np.shape(x))
    if isinstance(x, DipImage):
        return x.real
    return x


class DipImage:
    def __init__(self, *a, **k):
        self.real = a[0] if len(a) == 1 and isinstance(a[0], _REAL) else dip.Image(*[native(v) for v in a], **k)

    def __getattr__(self, n):
        v = getattr(self.real, n)
        if callable(v):
            return lambda *a, **k: wrap(v(*[native(x) for x in a], **k))
        return v

    def __invert__(self):
        return wrap(~self.real)

    def __array__(self, *a, **k):
        return np.array(self.real)


_REAL = dip.Image


def wrap(v):
    return DipImage(v) if isinstance(v, _REAL) else v


def _fn(f):
    def stub(e):
        return lambda *a, **k: wrap(f(*[native(x) for x in a], **k))
    stub.conc = False
    return stub


def _img(e):
    return DipImage


_img.conc = False
DIP = {dip.Image: _img, dip.Label: _fn(dip.Label), dip.GetObjectLabels: _fn(dip.GetObjectLabels)}


# ---- bezier on concrete nodes -----------------------------------------------------------------------------------------
class NativeCurve:
    """bezier.Curve with concrete nodes: executed by the library itself"""

    def __init__(self, nodes, *a, **k):
        self.real = nodes if isinstance(nodes, bezier.Curve) else bezier.Curve(np.asfortranarray(native(nodes)), *a, **k)

    @classmethod
    def from_nodes(cls, nodes, *a, **k):
        return cls(bezier.Curve.from_nodes(np.asfortranarray(native(nodes)), *a, **k))

    def __getattr__(self, n):
        v = getattr(self.real, n)
        return (lambda *a, **k: v(*[native(x) for x in a], **k)) if callable(v) else v


def _curve(e):
    return NativeCurve


_curve.conc = False
BEZIER = {bezier.Curve: _curve}


# ---- transition curves --------------------------------------------------------------------------------------------
class Line:
    """y = c + s x (+ t |x - k|): any accepted evaluation interface of a transition curve"""

    def __init__(self, c, s=0.0, t=0.0, k=0.0):
        self.c, self.s, self.t, self.k = c, s, t, k

    def at(self, x):
        y = self.c + self.s * x
        if self.t:
            d = x - self.k
            y = y + self.t * core.ite(d >= 0, d, -d)
        return y

    def __call__(self, x_eval, lut_entries=None):
        if np.ndim(x_eval) == 0:
            return self.at(x_eval)
        out = np.empty(np.shape(x_eval), dtype=object)
        for p in np.ndindex(*np.shape(x_eval)):
            out[p] = self.at(x_eval[p])
        if isinstance(x_eval, SymArray):
            return asarr(out)
        return out.astype(float)


def lines(e, n, slopes=(0.0,), kink=0.0, lo=-4, hi=4, gap=0.0625, close=None):
    """n ordered curves with symbolic offsets"""
    out = []
    for i in range(n):
        c = e.real(f'c{i}', lo, hi)
        k = e.real(f'k{i}', lo, hi) if kink else 0.0
        out.append(Line(c, slopes[min(i, len(slopes) - 1)], kink, k))
    for a, b in zip(out, out[1:]):
        if kink:
            # equal shape below/above: shifted kinks stay ordered when the offset exceeds the shift
            d = a.k - b.k
            e.assume(b.c - a.c >= gap + abs(kink) * core.ite(d >= 0, d, -d))
        else:
            e.assume(b.c - a.c >= gap)
    return out


def rot(p, angle):
    """counter-clockwise rotation of a point by a concrete angle"""
    c, s = math.cos(angle), math.sin(angle)
    return p[0] * c - p[1] * s, p[0] * s + p[1] * c


def count(curves, point, rotation):
    """number of transitions between the point and the empty region (below all curves in the rotated frame)"""
    x, y = rot(point, -rotation)
    n = 0.0
    for c in curves:
        n = n + core.ite(c.at(x) <= y, 1.0, 0.0)
    return n


def dist_right(p, a, b):
    """distance of p to the line a-b (concrete a, b), positive on the right-hand side of a->b"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    return ((p[0] - a[0]) * dy - (p[1] - a[1]) * dx) / math.hypot(dx, dy)


def anchors(n, rotation, seed=0):
    """concrete anchor tables 1..n (2i-1 inter-dot transitions of three points each), of the kind calculate_all_bezier_anchors makes"""
    rnd = np.random.RandomState(seed)
    out = {}
    s1, s2 = 0.3 + 0.2 * rnd.rand(), -0.3 - 0.2 * rnd.rand()
    w1, w2 = 0.6 + 0.3 * rnd.rand(), 0.7 + 0.3 * rnd.rand()
    bl, br = 0.06 + 0.05 * rnd.rand(), 0.05 + 0.05 * rnd.rand()
    cx, cy = -0.2 * rnd.rand(), -2 + 0.5 * rnd.rand()
    for i in range(1, n + 1):
        t = np.empty((2 * i - 1, 3, 2))
        x, y = cx - (i - 1) * w1, cy + (i - 1) * 0.7
        for k in range(2 * i - 1):
            sl, sr = (s1, s2) if k % 2 == 0 else (s2, s1)
            l, r = (bl, br) if k % 2 == 0 else (br, bl)
            for q, pt in enumerate(((x - l, y - l * sl), (x, y), (x + r, y + r * sr))):
                t[k, q] = rot(pt, rotation)
            w, s = (w2, s2) if k % 2 == 0 else (w1, s1)
            x, y = x + w, y + w * s
        out[i] = t
    return out


def lin(lo, hi, n):
    return [lo if n == 1 else (lo * (n - 1 - k) + hi * k) / (n - 1) for k in range(n)]


def components(mask):
    """4-connected components of the zero pixels"""
    seen, out = set(), []
    h, w = mask.shape
    for p in np.ndindex(h, w):
        if mask[p] or p in seen:
            continue
        todo, comp = [p], []
        seen.add(p)
        while todo:
            i, j = todo.pop()
            comp.append((i, j))
            for q in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                if 0 <= q[0] < h and 0 <= q[1] < w and q not in seen and not mask[q]:
                    seen.add(q)
                    todo.append(q)
        out.append(sorted(comp))
    return out
