"""Stand-in for the numpy module inside the code under test: array creation yields symbolic-capable arrays, element
functions work on symbolic scalars, everything else is numpy's own implementation."""
import builtins
import math
import numbers
import operator
import types

import numpy as np
import z3

from . import core, arr
from .arr import SymArray, MaskedSel, asarr, vec1, vecn, any_sym, sdt_of_dtype, cast_scalar
from .core import Sym, SymBool, is_sym, ite, Unsupported


def wrap_result(r):
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArray):
        return r.view(SymArray)
    if isinstance(r, tuple):
        return type(r)(wrap_result(x) for x in r) if type(r) is tuple else r
    if isinstance(r, list):
        return [wrap_result(x) for x in r]
    return r


def unbox(x):
    """SymArray without symbolic entries -> plain numpy array (for foreign libraries)"""
    if isinstance(x, MaskedSel):
        x = x.concrete()
    if isinstance(x, np.ndarray) and x.dtype == object:
        flat = np.ndarray.ravel(x).tolist()
        if any(is_sym(e) for e in flat):
            return x
        if flat and all(isinstance(e, (bool, np.bool_)) for e in flat):
            return np.array(flat, dtype=bool).reshape(x.shape)
        if flat and all(core.as_int_like(e) for e in flat) and getattr(x, 'sdt', None) not in ('f',):
            return np.array(flat, dtype=int).reshape(x.shape)
        if all(core.is_num(e) for e in flat):
            return np.array(flat, dtype=float).reshape(x.shape)
    return x


OV = {}          # numpy function -> override
NAMES = {}       # name -> override (for the module proxy)


def ov(*names, mod=np):
    def deco(f):
        for n in names:
            NAMES[(mod, n)] = f
            real = getattr(mod, n, None)
            if real is not None and not isinstance(real, type):
                try:
                    OV[real] = f
                except TypeError:
                    pass
        return f
    return deco


def override_for(func):
    return OV.get(func)


def _mk(shape, fillv, dtype):
    s = sdt_of_dtype(dtype) if dtype is not None else None
    if isinstance(shape, (Sym,)):
        shape = operator.index(shape)
    if isinstance(shape, np.ndarray):
        shape = tuple(operator.index(i) for i in shape)
    elif isinstance(shape, (list, tuple)):
        shape = tuple(operator.index(i) for i in shape)
    r = np.empty(shape, dtype=object)
    r[...] = cast_scalar(fillv, s) if s else fillv
    r = r.view(SymArray)
    r.sdt = s
    return r


@ov('zeros')
def zeros(shape, dtype=float, order='C', **k):
    return _mk(shape, 0.0, dtype)


@ov('ones')
def ones(shape, dtype=float, order='C', **k):
    return _mk(shape, 1.0, dtype)


@ov('empty')
def empty(shape, dtype=float, order='C', **k):
    return _mk(shape, 0.0, dtype)


@ov('full')
def full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None and not is_sym(fill_value) and not isinstance(fill_value, np.ndarray):
        dtype = np.asarray(fill_value).dtype
    if np.ndim(fill_value):
        r = _mk(shape, 0.0, dtype)
        r[...] = fill_value
        return r
    return _mk(shape, fill_value, dtype)


def _like_dtype(a, dtype):
    if dtype is not None:
        return dtype, None
    if isinstance(a, SymArray):
        return None, a.sdt
    if isinstance(a, np.ndarray):
        return a.dtype, None
    return float, None


def _like(a, v, dtype, shape=None):
    dt, s = _like_dtype(a, dtype)
    shp = np.shape(a) if shape is None else shape
    r = _mk(shp, v, dt)
    if s is not None:
        r[...] = cast_scalar(v, s)
        r.sdt = s
    return r


@ov('zeros_like')
def zeros_like(a, dtype=None, order='K', subok=True, shape=None, **k): return _like(a, 0.0, dtype, shape)


@ov('ones_like')
def ones_like(a, dtype=None, order='K', subok=True, shape=None, **k): return _like(a, 1.0, dtype, shape)


@ov('empty_like')
def empty_like(a, dtype=None, order='K', subok=True, shape=None, **k): return _like(a, 0.0, dtype, shape)


@ov('full_like')
def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None, **k):
    return _like(a, fill_value, dtype, shape)


@ov('array')
def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    if isinstance(x, (map, filter, types.GeneratorType, set)):
        x = list(x) if not isinstance(x, set) else x
    if not any_sym(x) and not isinstance(x, SymArray):
        try:
            r0 = np.array(x, dtype=getattr(dtype, 'dtype', dtype), ndmin=ndmin)
        except (ValueError, TypeError):
            raise
        if r0.dtype.kind in 'fiub':
            r = asarr(r0)
            return r.copy() if r.base is None else r
        return r0
    r = asarr(x)
    if dtype is not None:
        r = r.astype(dtype)
    elif copy is not False:
        s = r.sdt
        r = r.copy()
        r.sdt = s
        if s is None and r.size:
            r.sdt = None
    while r.ndim < ndmin:
        r = r[None]
    return r


@ov('asarray', 'asanyarray', 'ascontiguousarray')
def asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArray):
        return x if dtype is None or sdt_of_dtype(dtype) == x.sdt else x.astype(dtype)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x if dtype is None else x.astype(getattr(dtype, 'dtype', dtype))
    return array(x, dtype=dtype)


@ov('copy')
def copy_(a, *x, **k):
    return array(a)


@ov('linspace')
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    num = operator.index(num)
    if num < 0:
        raise ValueError(f"Number of samples, {num}, must be non-negative.")
    if not any_sym([start, stop]):
        r = np.linspace(unbox(start), unbox(stop), num, endpoint=endpoint, retstep=retstep,
                        dtype=getattr(dtype, 'dtype', dtype), axis=axis)
        if retstep:
            return asarr(r[0]), r[1]
        return asarr(r)
    div = num - 1 if endpoint else num
    a, b = asarr(start), asarr(stop)
    delta = b - a
    rows = []
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            rows.append(asarr(b * 1.0 + a * 0.0 if a.ndim != b.ndim else b * 1.0))
        elif div > 0:
            # i/div as an exact fraction: a + delta * i / div
            rows.append(asarr(a + delta * i / div if i else a * 1.0 + (b * 0.0 if b.ndim != a.ndim else 0.0)))
        else:
            rows.append(asarr(a * 1.0))
    if rows:
        r = np.empty((num,) + np.broadcast_shapes(a.shape, b.shape), dtype=object)
        for i, x in enumerate(rows):
            r[i] = x if x.ndim else x[()]
        r = r.view(SymArray)
    else:
        r = np.empty((0,) + np.broadcast_shapes(a.shape, b.shape), dtype=object).view(SymArray)
    r = vec1(lambda x: cast_scalar(x, 'f'), r)
    if axis != 0:
        r = np.moveaxis(r, 0, axis)
    if dtype is not None:
        r = r.astype(dtype)
    if retstep:
        return r, delta / div
    return r


@ov('arange')
def arange(*args, dtype=None, **k):
    if not any_sym(args):
        return asarr(np.arange(*args, dtype=getattr(dtype, 'dtype', dtype), **k))
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    else:
        start, stop = args[:2]
        step = args[2] if len(args) > 2 else 1
    n = operator.index(core.ceil((stop - start) / step * 1.0) if not isinstance(stop - start, int) else
                       -((start - stop) // step))
    return asarr([start + i * step for i in range(max(n, 0))])


@ov('where')
def where(c, x=None, y=None):
    if x is None and y is None:
        m = arr.concretise_mask(asarr(c))
        return np.nonzero(m)
    if all(isinstance(v, (bool, int, float, np.generic)) for v in (c, x, y)):
        return np.where(c, x, y)
    return vecn(ite, c, x, y)


@ov('any')
def any_(a, axis=None, out=None, keepdims=False, **k): return asarr(a).any(axis, keepdims=keepdims)
@ov('all')
def all_(a, axis=None, out=None, keepdims=False, **k): return asarr(a).all(axis, keepdims=keepdims)
@ov('sum')
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k): return asarr(a).sum(axis, keepdims=keepdims)
@ov('nansum')
def nansum_(a, axis=None, **k): return vecn(lambda v: v if is_sym(v) or v == v else 0.0, asarr(a)).sum(axis)
@ov('nanmean')
def nanmean_(a, axis=None, **k):
    a = asarr(a)
    return nansum_(a, axis) / vecn(lambda v: 1 if is_sym(v) or v == v else 0, a).sum(axis)
@ov('prod')
def prod_(a, axis=None, dtype=None, out=None, keepdims=False, **k): return asarr(a).prod(axis, keepdims=keepdims)
@ov('mean', 'average')
def mean_(a, axis=None, dtype=None, out=None, keepdims=False, weights=None, **k):
    if weights is not None:
        w = asarr(weights)
        return (asarr(a) * w).sum(axis) / w.sum(axis)
    return asarr(a).mean(axis, keepdims=keepdims)
@ov('std')
def std_(a, axis=None, **k): return asarr(a).std(axis, **{x: k[x] for x in k if x in ('ddof', 'keepdims')})
@ov('var')
def var_(a, axis=None, **k): return asarr(a).var(axis, **{x: k[x] for x in k if x in ('ddof', 'keepdims')})
@ov('max', 'amax', 'nanmax')
def max_(a, axis=None, out=None, keepdims=False, **k): return asarr(a).max(axis, keepdims=keepdims)
@ov('min', 'amin', 'nanmin')
def min_(a, axis=None, out=None, keepdims=False, **k): return asarr(a).min(axis, keepdims=keepdims)
@ov('ptp')
def ptp_(a, axis=None, **k): return asarr(a).ptp(axis)
@ov('cumsum')
def cumsum_(a, axis=None, dtype=None, out=None): return asarr(a).cumsum(axis)
@ov('cumprod')
def cumprod_(a, axis=None, dtype=None, out=None): return asarr(a).cumprod(axis)
@ov('argmin', 'nanargmin')
def argmin_(a, axis=None, **k): return asarr(a).argmin(axis)
@ov('argmax', 'nanargmax')
def argmax_(a, axis=None, **k): return asarr(a).argmax(axis)
@ov('argsort')
def argsort_(a, axis=-1, **k): return arr.argsort(a, axis)
@ov('sort')
def sort_(a, axis=-1, **k):
    if not any_sym(a):
        return asarr(np.sort(unbox(asarr(a)), axis=axis))
    return arr.sort(a, axis)
@ov('median')
def median_(a, axis=None, **k):
    s = asarr(a)
    s = arr.sort(s.ravel() if axis is None else s, 0 if axis is None else axis)
    s = np.moveaxis(s, 0 if axis is None else axis, 0)
    n = s.shape[0]
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
@ov('percentile', 'quantile', 'nanpercentile', 'nanquantile')
def quantile_(a, q, axis=None, **k):
    raise Unsupported('quantiles of symbolic values')
@ov('block')
def block_(xs):
    def depth(v): return 1 + max(map(depth, v)) if isinstance(v, list) else 0
    def join(v, ax):
        return asarr(np.concatenate([join(w, ax + 1) for w in v], axis=ax)) if isinstance(v, list) else at_least(v)
    d = depth(xs)
    nd = []
    def scan(v):
        for w in (v if isinstance(v, list) else []):
            scan(w)
        if not isinstance(v, list):
            nd.append(np.ndim(v))
    scan(xs)
    n = max([d] + nd)
    def at_least(v):
        v = asarr(v)
        return v.reshape((1,) * (n - v.ndim) + v.shape)
    return join(xs, n - d)
@ov('take_along_axis')
def take_along_axis_(a, indices, axis=-1):
    a, idx = asarr(a), asarr(indices)
    m, j = np.moveaxis(a, axis, 0), np.moveaxis(idx, axis, 0)
    r = np.empty(j.shape, dtype=object).view(SymArray)
    for p in np.ndindex(*j.shape):
        r[p] = asarr(m[(slice(None),) + p[1:]])[j[p]]
    return np.moveaxis(r, 0, axis)


@ov('round', 'around')
def round_(a, decimals=0, out=None): return arr.np_round(asarr(a) if np.ndim(a) else a, decimals)
@ov('fix')
def fix_(a, out=None): return vecn(lambda x: cast_scalar(x, 'i') * 1.0, a)
@ov('clip')
def clip_(a, a_min=None, a_max=None, out=None, **k):
    return arr.clip(a, k.get('min', a_min), k.get('max', a_max))


@ov('isclose')
def isclose_(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return builtins.bool(np.isclose(x, y, rtol, atol, equal_nan))
        return abs(x - y) <= atol + rtol * abs(y)
    return vecn(f, a, b)


@ov('allclose')
def allclose_(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return asarr(isclose_(a, b, rtol, atol, equal_nan)).all()


@ov('array_equal')
def array_equal_(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return asarr(a == b).all()


@ov('array_equiv')
def array_equiv_(a, b):
    return asarr(asarr(a) == asarr(b)).all()


@ov('nonzero')
def nonzero_(a): return asarr(a).nonzero()
@ov('flatnonzero')
def flatnonzero_(a): return asarr(a).ravel().nonzero()[0]
@ov('argwhere')
def argwhere_(a): return np.transpose(asarr(a).nonzero())
@ov('count_nonzero')
def count_nonzero_(a, axis=None, **k): return asarr(vec1(lambda x: cast_scalar(x, 'b'), a)).sum(axis)


@ov('diff')
def diff_(a, n=1, axis=-1, **k):
    a = asarr(a)
    ext = [asarr(k[w]) if w in k and k[w] is not None else None for w in ('prepend', 'append')]
    if any(w is not None for w in ext):
        shp = a.shape[:axis % a.ndim] + (1,) + a.shape[axis % a.ndim + 1:]
        pre, app = [[] if w is None else [np.broadcast_to(w, shp) if w.ndim == 0 else w] for w in ext]
        a = asarr(np.concatenate(pre + [a] + app, axis=axis))
    for _ in range(n):
        b = np.moveaxis(a, axis, 0)
        isb = b.size and any(isinstance(x, (bool, SymBool)) for x in np.ndarray.ravel(b).tolist())
        d = (b[1:] != b[:-1]) if isb else b[1:] - b[:-1]
        a = np.moveaxis(d, 0, axis)
    return a


@ov('dot')
def dot_(a, b, out=None): return arr.matmul(a, b, dot=True)
@ov('vdot', 'inner')
def vdot_(a, b): return arr.matmul(asarr(a), asarr(b).T, dot=True)
@ov('matmul')
def matmul_(a, b, **k): return arr.matmul(a, b)
@ov('outer')
def outer_(a, b, out=None): return vecn(operator.mul, asarr(a).ravel()[:, None], asarr(b).ravel()[None, :])


@ov('cross')
def cross_(a, b, *x, **k):
    a, b = asarr(a), asarr(b)
    if a.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return np.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                     a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)


@ov('norm', mod=np.linalg)
def norm_(x, ord=None, axis=None, keepdims=False):
    if not any_sym(x) and not isinstance(x, SymArray):
        return np.linalg.norm(x, ord, axis, keepdims)
    x = asarr(x)
    if ord in (None, 2, 'fro') and (ord != 2 or x.ndim == 1 or axis is not None):
        if x.ndim == 1 and x.shape[0] == 1:
            return abs(x[0])
        return arr.np_sqrt((x * x).sum(axis, keepdims=keepdims))
    if ord == 1 and (x.ndim == 1 or axis is not None):
        return abs(x).sum(axis)
    if ord == np.inf and (x.ndim == 1 or axis is not None):
        return abs(x).max(axis)
    raise Unsupported("norm ord")


def _det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    return builtins.sum(((-1) ** j) * m[0, j] * _det(np.delete(m[1:], j, axis=1)) for j in range(n))


@ov('det', mod=np.linalg)
def det_(m): return _det(asarr(m))


@ov('solve', mod=np.linalg)
def solve_(a, b):
    a, b = asarr(a), asarr(b)
    n = a.shape[0]
    if n > 3:
        raise Unsupported('linalg.solve n>3')
    d = _det(a)
    if builtins.bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    b2 = b[:, None] if b.ndim == 1 else b
    out = np.empty(b2.shape, dtype=object)
    for c in range(b2.shape[1]):
        for i in range(n):
            m = a.copy()
            for r in range(n):
                m[r, i] = b2[r, c]
            out[i, c] = _det(m) / d
    out = out.view(SymArray)
    return out[:, 0] if b.ndim == 1 else out


@ov('inv', mod=np.linalg)
def inv_(a):
    a = asarr(a)
    return solve_(a, eye(a.shape[0]))


@ov('eye', 'identity')
def eye(n, m=None, *x, **k):
    return asarr(np.eye(n, m))


@ov('diag')
def diag_(v, k=0):
    return wrap_result(np.diag.__wrapped__(asarr(v), k)) if hasattr(np.diag, '__wrapped__') else wrap_result(
        np.diag._implementation(asarr(v), k))


@ov('interp')
def interp_(x, xp, fp, left=None, right=None, period=None):
    if not any_sym([x, xp, fp]):
        return asarr(np.interp(unbox(x), unbox(xp), unbox(fp), left, right, period)) if np.ndim(x) else \
            np.interp(unbox(x), unbox(xp), unbox(fp), left, right, period)
    if period is not None:
        raise Unsupported("interp period")
    xp, fp = asarr(xp), asarr(fp)
    n = xp.shape[0]
    def f(v):
        r = fp[n - 1]
        for i in range(n - 2, -1, -1):
            r = ite(v < xp[i + 1], fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i]), r)
        r = ite(v < xp[0], fp[0] if left is None else left, r)
        return ite(v > xp[n - 1], fp[n - 1] if right is None else right, r)
    return vecn(f, x)


@ov('searchsorted')
def searchsorted_(a, v, side='left', sorter=None):
    a = asarr(a)
    cmp = (lambda x, y: x < y) if side == 'left' else (lambda x, y: x <= y)
    def f(y):
        return builtins.sum((ite(cmp(x, y), 1, 0) for x in np.ndarray.ravel(a).tolist()), 0)
    return vecn(f, v)


@ov('digitize')
def digitize_(x, bins, right=False):
    return searchsorted_(bins, x, side='left' if right else 'right')


@ov('select')
def select_(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = vecn(ite, c, v, r)
    return r


@ov('piecewise')
def piecewise_(x, condlist, funclist, *args, **kw):
    r = funclist[len(condlist)] if len(funclist) > len(condlist) else 0.0
    r = r(x, *args, **kw) if callable(r) else r
    for c, fn in reversed(list(zip(condlist, funclist))):
        v = fn(x, *args, **kw) if callable(fn) else fn
        r = vecn(ite, c, v, r)
    return r


@ov('unique')
def unique_(a, *x, **k):
    if not any_sym(a):
        r = np.unique(unbox(asarr(a)), *x, **k)
        return r
    if x or k:
        raise Unsupported("unique with options")
    s = arr.sort(a, None)
    out = []
    for v in np.ndarray.ravel(s).tolist():
        if not out or builtins.bool(v != out[-1]):
            out.append(v)
    return asarr(out)


@ov('isin', 'in1d')
def isin_(a, test, *x, **k):
    t = np.ndarray.ravel(asarr(test)).tolist()
    inv = k.get('invert', False)
    def f(v):
        r = core.or_(*[v == y for y in t]) if t else False
        return core.not_(r) if inv else r
    return vecn(f, a)


@ov('nan_to_num')
def nan_to_num_(x, copy=True, nan=0.0, posinf=None, neginf=None):
    return vecn(lambda v: v if is_sym(v) else float(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)), x)


@ov('isscalar')
def isscalar_(x): return is_sym(x) or np.isscalar(x)
@ov('ndim')
def ndim_(x): return 0 if is_sym(x) else asarr(x).ndim
@ov('shape')
def shape_(x): return asarr(x).shape
@ov('size')
def size_(x, axis=None): return asarr(x).size if axis is None else asarr(x).shape[axis]
@ov('iscomplexobj')
def iscomplexobj_(x): return False
@ov('real')
def real_(x): return x
@ov('isreal')
def isreal_(x): return vecn(lambda v: True, x)


@ov('vectorize')
class Vectorize:
    def __init__(self, f, *a, **k):
        self.f = f
    def __call__(self, *args):
        return vecn(lambda *x: self.f(*x), *args)


@ov('apply_along_axis')
def apply_along_axis_(f, axis, a, *args, **kw):
    b = np.moveaxis(asarr(a), axis, -1)
    outs = {}
    for p in np.ndindex(b.shape[:-1]):
        outs[p] = asarr(f(b[p], *args, **kw))
    sh = outs[next(iter(outs))].shape
    r = np.empty(b.shape[:-1] + sh, dtype=object)
    for p, v in outs.items():
        r[p] = v if v.ndim else v[()]
    r = r.view(SymArray)
    return np.moveaxis(r, -1, axis) if sh else r


@ov('fromiter')
def fromiter_(it, dtype=None, count=-1): return array(list(it), dtype=dtype)
@ov('trapz', 'trapezoid')
def trapz_(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    d = dx if x is None else diff_(x)
    return (d * (y[..., 1:] + y[..., :-1]) / 2).sum(axis)


@ov('polyval')
def polyval_(p, x):
    r = 0
    for c in np.ndarray.ravel(asarr(p)).tolist():
        r = r * x + c
    return r


@ov('tile')
def tile_(a, reps): return wrap_result(np.tile._implementation(asarr(a), reps))
@ov('meshgrid')
def meshgrid_(*xi, **k):
    return [wrap_result(m) for m in np.meshgrid._implementation(*[asarr(x) for x in xi], **k)]
@ov('convolve')
def convolve_(a, v, mode='full'):
    a, v = asarr(a), asarr(v)
    if v.shape[0] > a.shape[0]:
        a, v = v, a
    n, m = a.shape[0], v.shape[0]
    full_ = [builtins.sum((a[j] * v[i - j] for j in range(max(0, i - m + 1), builtins.min(n, i + 1))), 0) for i in range(n + m - 1)]
    r = asarr(full_)
    if mode == 'full':
        return r
    if mode == 'same':
        s = (m - 1) // 2
        return r[s:s + n]
    return r[m - 1:n]


@ov('bincount')
def bincount_(x, weights=None, minlength=0): return np.bincount(unbox(asarr(x)), weights, minlength)


# types ----------------------------------------------------------------------------------------------------------------


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._sym_real) or cls._symcheck(x)

    def __subclasscheck__(cls, c):
        c = getattr(c, '_sym_real', c)
        return issubclass(c, cls._sym_real)

    def __eq__(cls, o):
        return cls is o or cls._sym_real is getattr(o, '_sym_real', o)

    def __hash__(cls):
        return hash(cls._sym_real)

    def __getattr__(cls, n):
        return getattr(cls._sym_real, n)

    def __or__(cls, o):
        return cls._sym_real | getattr(o, '_sym_real', o)

    def __ror__(cls, o):
        return getattr(o, '_sym_real', o) | cls._sym_real

    def __repr__(cls):
        return repr(cls._sym_real)


def _shimtype(real, check, cast, dt=None):
    ns = {'_sym_real': real, '_symcheck': staticmethod(check)}
    if dt is not None:
        ns['dtype'] = np.dtype(dt)

    def __new__(cls, *a, **k):
        if a and (is_sym(a[0]) or (isinstance(a[0], np.ndarray) and a[0].dtype == object)):
            x = a[0]
            if isinstance(x, np.ndarray) and x.size == 1:
                x = np.ndarray.item(x)
            if isinstance(x, np.ndarray):
                return x.astype(real)
            if is_sym(x):
                return cast(x)
            return real(x)
        return real(*a, **k)
    ns['__new__'] = __new__
    return _TypeMeta(getattr(real, '__name__', 'shim'), (), ns)


_isf = lambda x: isinstance(x, Sym) and not x.is_int
_isi = lambda x: isinstance(x, Sym) and x.is_int
_isb = lambda x: isinstance(x, SymBool)
_no = lambda x: False
_toint = lambda x: cast_scalar(x, 'i')
_tofloat = lambda x: cast_scalar(x, 'f')
_tobool = lambda x: cast_scalar(x, 'b')

FLOAT = _shimtype(float, _isf, _tofloat, float)
INT = _shimtype(int, _isi, _toint, int)
BOOL = _shimtype(bool, _isb, _tobool, bool)
TYPES = {
    'float64': _shimtype(np.float64, _isf, _tofloat, np.float64), 'float32': _shimtype(np.float32, _no, _tofloat, np.float32),
    'floating': _shimtype(np.floating, _isf, _tofloat), 'number': _shimtype(np.number, lambda x: isinstance(x, Sym), lambda x: x),
    'integer': _shimtype(np.integer, _isi, _toint), 'int64': _shimtype(np.int64, _isi, _toint, np.int64),
    'int32': _shimtype(np.int32, _no, _toint, np.int32), 'int_': _shimtype(np.int_, _isi, _toint, np.int_),
    'intp': _shimtype(np.intp, _isi, _toint, np.intp),
    'bool_': _shimtype(np.bool_, _isb, _tobool, np.bool_), 'bool': _shimtype(np.bool_, _isb, _tobool, np.bool_),
    'uint8': _shimtype(np.uint8, _no, lambda x: cast_scalar(x, 'u8'), np.uint8),
    'double': _shimtype(np.float64, _isf, _tofloat, np.float64),
    'generic': _shimtype(np.generic, is_sym, lambda x: x),
}


class ModProxy:
    """proxy of a numpy (sub)module"""

    def __init__(self, real, extra=None):
        self.__dict__['_real'] = real
        self.__dict__['_extra'] = extra or {}

    def __getattr__(self, n):
        if n in self._extra:
            return self._extra[n]
        if (self._real, n) in NAMES:
            return NAMES[(self._real, n)]
        if self._real is np and n in TYPES:
            return TYPES[n]
        v = getattr(self._real, n)
        if isinstance(v, np.ufunc):
            return UfuncProxy(v)
        if self._real is np and n == 'linalg':
            return LINALG
        if isinstance(v, types.FunctionType) or callable(v) and type(v).__name__ in (
                '_ArrayFunctionDispatcher', 'builtin_function_or_method'):
            return FuncProxy(v)
        return v


class FuncProxy:
    """numpy function without override: box symbolic scalars in arrays, wrap the result"""

    def __init__(self, f):
        self._f = f
        self.__name__ = getattr(f, '__name__', 'f')

    def __call__(self, *a, **k):
        box = lambda x: asarr(x) if (isinstance(x, (list, tuple)) and any_sym(x) and not any(
            isinstance(e, np.ndarray) for e in x)) or is_sym(x) else x
        return wrap_result(self._f(*[box(x) for x in a], **{n: box(v) for n, v in k.items()}))

    def __getattr__(self, n):
        return getattr(self._f, n)


class UfuncProxy:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if any_sym(a):
            a = tuple(asarr(x) if isinstance(x, (list, tuple)) else x for x in a)
            return arr.ufunc_dispatch(self._u, '__call__', a, {**k, 'out': (k['out'],)} if k.get('out') is not None else k)
        if 'dtype' in k:
            k = {**k, 'dtype': getattr(k['dtype'], 'dtype', k['dtype'])}
        return self._u(*a, **k)

    def __getattr__(self, n):
        v = getattr(self._u, n)
        if n in ('reduce', 'accumulate', 'outer', 'at'):
            def m(*a, **k):
                if any_sym(a):
                    return arr.ufunc_dispatch(self._u, n, a, k)
                return v(*a, **k)
            return m
        return v


LINALG = ModProxy(np.linalg)


# math module ----------------------------------------------------------------------------------------------------------


def _m(symf, real):
    def f(*a):
        a = tuple(np.ndarray.item(x) if isinstance(x, np.ndarray) and x.size == 1 else x for x in a)
        if any(is_sym(x) for x in a):
            old = core.CTX.divzero
            core.CTX.divzero = 'raise'
            try:
                return symf(*a)
            finally:
                core.CTX.divzero = old
        return real(*a)
    return f


MATHF = {
    'exp': core.fn_exp, 'sqrt': core.fn_sqrt, 'tanh': core.fn_tanh, 'atan': core.fn_arctan, 'sin': core.fn_sin,
    'cos': core.fn_cos, 'tan': core.fn_tan, 'asin': core.fn_arcsin, 'acos': core.fn_arccos, 'erf': core.fn_erf,
    'log': lambda x, b=None: core.fn_log(x) if b is None else core.fn_log(x) / core.fn_log(b),
    'floor': core.floor, 'ceil': core.ceil, 'trunc': lambda x: cast_scalar(x, 'i'), 'fabs': lambda x: abs(x) * 1.0,
    'pow': lambda a, b: a ** b, 'hypot': core.fn_hypot, 'isnan': lambda x: False, 'isinf': lambda x: False,
    'isfinite': lambda x: True, 'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0:
    abs(a - b) <= core.smax(rel_tol * core.smax(abs(a), abs(b)), abs_tol), 'atan2': arr._arctan2,
    'radians': lambda x: x * (math.pi / 180), 'degrees': lambda x: x * (180 / math.pi),
    'copysign': lambda a, b: ite(b < 0, -abs(a), abs(a)), 'log10': lambda x: core.fn_log(x) / math.log(10),
    'fsum': lambda x: builtins.sum(x), 'dist': lambda p, q: core.fn_sqrt(builtins.sum((a - b) ** 2 for a, b in zip(p, q))),
}


def _seq(x):
    return x if is_sym(x) or np.ndim(x) == 0 and not hasattr(x, '__next__') else list(x)


def _math_seq(n, a):
    a = [_seq(x) for x in a]
    if n == 'fsum':
        return builtins.sum(a[0])
    if n == 'prod':
        r = 1
        for x in a[0]:
            r = r * x
        return r
    if n == 'sumprod':
        return builtins.sum(x * y for x, y in zip(*a))
    return core.fn_sqrt(builtins.sum((x - y) ** 2 for x, y in zip(*a)) if n == 'dist' else builtins.sum(x * x for x in a))


class MathProxy:
    def __getattr__(self, n):
        v = getattr(math, n)
        if n in ('fsum', 'dist', 'prod', 'hypot', 'sumprod'):
            return lambda *a, **k: _math_seq(n, a) if arr.any_sym(list(map(_seq, a))) and not k else v(*a, **k)
        if n == 'isclose':
            return lambda a, b, **k: MATHF['isclose'](a, b, **k) if is_sym(a) or is_sym(b) else math.isclose(a, b, **k)
        return _m(MATHF[n], v) if n in MATHF else v


# builtins -------------------------------------------------------------------------------------------------------------


def _extreme(real, pick):
    def f(*a, **k):
        if 'key' in k:
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs and 'default' in k:
            return k['default']
        if not any(is_sym(x) for x in xs):
            return real(xs)
        r = xs[0]
        for x in xs[1:]:
            r = pick(r, x)
        return r
    return f


b_min, b_max = _extreme(builtins.min, core.smin), _extreme(builtins.max, core.smax)


def b_any(it):
    xs = list(it)
    return core.or_(*xs) if any(is_sym(x) for x in xs) else builtins.any(xs)


def b_all(it):
    xs = list(it)
    return core.and_(*xs) if any(is_sym(x) for x in xs) else builtins.all(xs)


BUILTINS = {'float': FLOAT, 'int': INT, 'bool': BOOL, 'min': b_min, 'max': b_max}
