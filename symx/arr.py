"""Object arrays of symbolic scalars that behave like numpy float/int/bool arrays."""
import math
import numbers
import operator
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import Sym, SymBool, is_sym, ite, Unsupported


def sdt_of_dtype(dt):
    """numpy dtype spec -> symbolic dtype letter"""
    if dt is None:
        return None
    if isinstance(dt, str) and dt in ('O',):
        return None
    if dt is object or dt == np.dtype(object):
        return None
    dt = getattr(dt, '_sym_real', dt)
    dt = np.dtype(dt)
    if dt.kind == 'b':
        return 'b'
    if dt.kind == 'u':
        return 'u%d' % (dt.itemsize * 8)
    if dt.kind == 'i':
        return 'i'
    if dt.kind == 'f':
        return 'f'
    return None


def cast_scalar(x, dt):
    s = dt if isinstance(dt, str) and (dt in ('b', 'i', 'f') or dt[0] == 'u' and dt[1:].isdigit()) else sdt_of_dtype(dt)
    if s is None:
        return x
    if s == 'b':
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Sym):
            return core.mkbool(core.simp(core.bterm(x)))
        return bool(x)
    if s == 'f':
        if isinstance(x, SymBool):
            x = x.num()
        if isinstance(x, Sym):
            return Sym(core.to_real(x.t)) if x.is_int else x
        return float(x) if core.is_num(x) else x
    # integer
    if isinstance(x, SymBool):
        x = x.num()
    elif isinstance(x, Sym):
        if not x.is_int:
            x = core.mknum(core.simp(core._trunc(x.t)))
    elif core.is_num(x):
        if isinstance(x, float) and not math.isfinite(x):
            return x
        x = int(x)
    else:
        return x
    if s[0] == 'u':
        x = x % (1 << int(s[1:]))
    return x


def _pyscalar(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


class SymArray(np.ndarray):
    sdt = None

    def __array_finalize__(self, obj):
        self.sdt = getattr(obj, 'sdt', None)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, types, args, kwargs)

    # indexing --------------------------------------------------------------------------------------------------------
    def __getitem__(self, idx):
        idx = fix_index(idx, self.shape)
        r = np.ndarray.__getitem__(self, idx)
        if not isinstance(r, np.ndarray):
            # numpy scalars, as indexing a real array gives
            if type(r) is float:
                return np.float64(r)
            if type(r) is bool:
                return np.bool_(r)
            if type(r) is int:
                return np.int64(r) if abs(r) < 2 ** 62 else r
        return r

    def __setitem__(self, idx, val):
        idx0 = idx
        if _has_symmask(idx):
            return self._masked_set(idx, val)
        idx = fix_index(idx, self.shape)
        if isinstance(val, MaskedSel):
            val = val.concrete()
        if isinstance(val, np.ndarray) and val.ndim == 0:
            val = np.ndarray.item(val)
        if isinstance(val, np.ndarray) and val.dtype != object:
            val = val.astype(object)
        if self.sdt is not None:
            if isinstance(val, (np.ndarray, list, tuple)):
                val = asarr(val)
                val = vec1(lambda x: cast_scalar(x, self.sdt), val)
            else:
                val = cast_scalar(_pyscalar(val), self.sdt)
        else:
            val = _pyscalar(val) if not isinstance(val, np.ndarray) else val
        if is_sym(val):
            # numpy would try to iterate/convert; wrap in a 0-d object array
            tmp = np.empty((), dtype=object)
            tmp[()] = val
            t = idx if isinstance(idx, tuple) else (idx,)
            if all(isinstance(i, (int, np.integer)) for i in t) and len(t) == self.ndim:
                np.ndarray.__setitem__(self, idx, val)
                return
            val = tmp
        np.ndarray.__setitem__(self, idx, val)

    def _masked_set(self, idx, val):
        """a[mask] = v with a symbolic mask: merge, no forking, when v is scalar or was selected with the same mask"""
        target = self
        mask = idx
        if isinstance(idx, tuple):
            raise Unsupported("symbolic mask inside an index tuple")
        mask = asarr(mask)
        if isinstance(val, MaskedSel) and same_mask(val.mask, mask):
            full = val.full
        elif np.ndim(val) == 0 and not isinstance(val, MaskedSel):
            v = val.item() if isinstance(val, np.ndarray) else val
            v = cast_scalar(_pyscalar(v), self.sdt) if self.sdt else _pyscalar(v)
            full = None
        else:
            # fork on the mask
            m = concretise_mask(mask)
            np.ndarray.__setitem__(self, m, asarr(val.concrete() if isinstance(val, MaskedSel) else val))
            return
        base = np.ndarray.view(self, np.ndarray)
        for pos in np.ndindex(mask.shape):
            m = np.ndarray.__getitem__(mask, pos)
            nv = v if full is None else np.ndarray.__getitem__(full, pos)
            if mask.ndim < base.ndim:
                sub = base[pos]
                for p2 in np.ndindex(sub.shape):
                    sub[p2] = ite(m, nv[p2] if isinstance(nv, np.ndarray) else nv, sub[p2])
            else:
                if self.sdt:
                    nv = cast_scalar(nv, self.sdt)
                base[pos] = ite(m, nv, base[pos])

    # methods ----------------------------------------------------------------------------------------------------------
    def astype(self, dt, *a, **k):
        s = sdt_of_dtype(dt)
        r = vec1(lambda x: cast_scalar(x, s), self) if s else self.copy()
        r.sdt = s
        return r

    @property
    def dtype_sym(self):
        return self.sdt

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(operator.add, self, axis, 0, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(operator.mul, self, axis, 1, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else np.prod([self.shape[a] for a in np.atleast_1d(axis)])
        if int(n) == 0:
            return reduce_(operator.add, self, axis, 0, keepdims) * float('nan')
        return reduce_(operator.add, self, axis, 0, keepdims) / int(n)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(core.smax, self, axis, None, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(core.smin, self, axis, None, keepdims)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(core.or_, self, axis, False, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(core.and_, self, axis, True, keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumulative(operator.add, self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return cumulative(operator.mul, self, axis)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np_sqrt(self.var(axis, ddof=ddof, keepdims=keepdims))

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        m = self.mean(axis, keepdims=True)
        n = self.size if axis is None else self.shape[axis]
        d = self - m
        return reduce_(operator.add, d * d, axis, 0, keepdims) / (n - ddof)

    def argmin(self, axis=None, out=None, **k):
        return arg_ext(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, out=None, **k):
        return arg_ext(self, axis, lambda a, b: a > b)

    def argsort(self, axis=-1, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = sort(self, axis)

    def nonzero(self):
        return np.ndarray.nonzero(concretise_mask(self))

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return clip(self, min, max)

    def dot(self, b, out=None):
        return matmul(self, asarr(b), dot=True)

    def item(self, *a):
        r = np.ndarray.item(self, *a)
        return r

    def tolist(self):
        return np.ndarray.tolist(self)

    def fill(self, v):
        self[...] = v

    def __contains__(self, x):
        return bool((self == x).any())

    def __bool__(self):
        if self.size == 1:
            return bool(np.ndarray.item(self))
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        return float(np.ndarray.item(self))

    def __int__(self):
        return int(np.ndarray.item(self))

    def __index__(self):
        return operator.index(np.ndarray.item(self))

    def __deepcopy__(self, memo):
        r = self.copy()
        r.sdt = self.sdt
        return r

    def __matmul__(self, o):
        return matmul(self, asarr(o))

    def __rmatmul__(self, o):
        return matmul(asarr(o), self)

    def __round__(self, nd=0):
        return np_round(self, nd)

    def __repr__(self):
        return f"SymArray{self.shape}({np.ndarray.tolist(self)})"[:300]

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


class MaskedSel:
    """result of a[mask] with a symbolic mask, kept lazy: element-wise operations act on the full array, a store with the
    same mask merges.  Anything else forks on the mask."""
    __array_priority__ = 2000

    def __init__(self, full, mask):
        self.full, self.mask = full, mask
        self._c = None

    def concrete(self):
        if self._c is None:
            m = concretise_mask(self.mask)
            self._c = np.ndarray.__getitem__(asarr(self.full), m)
        return self._c

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == '__call__' and not kw.get('out'):
            m = self.mask
            ok = all((not isinstance(i, MaskedSel)) or same_mask(i.mask, m) for i in inputs) and \
                all(isinstance(i, MaskedSel) or np.ndim(i) == 0 for i in inputs)
            if ok:
                # elements outside the mask are computed too; a division by zero there must not fork: guard
                r = ufunc_dispatch(ufunc, method, [i.full if isinstance(i, MaskedSel) else i for i in inputs], kw)
                return MaskedSel(r, m)
        return ufunc_dispatch(ufunc, method, [i.concrete() if isinstance(i, MaskedSel) else i for i in inputs], kw)

    def __array_function__(self, func, types, args, kwargs):
        args = [a.concrete() if isinstance(a, MaskedSel) else a for a in args]
        return func(*args, **kwargs)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return getattr(self.concrete(), n)

    def __len__(self): return len(self.concrete())
    def __iter__(self): return iter(self.concrete())
    def __getitem__(self, i): return self.concrete()[i]
    def __bool__(self): return bool(self.concrete())


for _n, _u in dict(add=np.add, sub=np.subtract, mul=np.multiply, truediv=np.true_divide, pow=np.power, lt=np.less,
                   le=np.less_equal, gt=np.greater, ge=np.greater_equal, eq=np.equal, ne=np.not_equal,
                   floordiv=np.floor_divide, mod=np.remainder, and_=np.logical_and, or_=np.logical_or).items():
    _nm = _n.strip('_')
    setattr(MaskedSel, f'__{_nm}__', (lambda u: lambda a, b: u(a, b))(_u))
    if _nm in ('add', 'sub', 'mul', 'truediv', 'pow', 'floordiv', 'mod', 'and', 'or'):
        setattr(MaskedSel, f'__r{_nm}__', (lambda u: lambda a, b: u(b, a))(_u))
MaskedSel.__neg__ = lambda a: np.negative(a)
MaskedSel.__abs__ = lambda a: np.abs(a)
MaskedSel.__invert__ = lambda a: np.logical_not(a)


def same_mask(a, b):
    if a is b:
        return True
    if np.shape(a) != np.shape(b):
        return False
    for x, y in zip(np.ndarray.ravel(a), np.ndarray.ravel(b)):
        if x is y:
            continue
        if is_sym(x) != is_sym(y):
            return False
        if is_sym(x):
            if not x.t.eq(y.t):
                return False
        elif bool(x) != bool(y):
            return False
    return True


LAZY_MASK = True


def _has_symmask(idx):
    return isinstance(idx, SymArray) and idx.size > 0 and any(isinstance(x, SymBool) for x in np.ndarray.ravel(idx).tolist())


def concretise_mask(m):
    m = np.asarray(m).view(np.ndarray) if not isinstance(m, SymArray) else m.view(np.ndarray)
    out = np.zeros(m.shape, dtype=bool)
    for pos in np.ndindex(m.shape):
        out[pos] = bool(m[pos])
    return out


def _fix1(i):
    if isinstance(i, MaskedSel):
        i = i.concrete()
        if i.size == 0:
            return np.zeros(i.shape, dtype=int)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, Sym):
        return operator.index(i)
    if isinstance(i, slice):
        f = lambda v: operator.index(v) if isinstance(v, Sym) else v
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, MaskedSel):
        i = i.concrete()
    if isinstance(i, list):
        if any(is_sym(x) or isinstance(x, (list, np.ndarray)) for x in i):
            i = asarr(i)
        else:
            return i
    if isinstance(i, np.ndarray) and i.dtype == object:
        flat = np.ndarray.ravel(i.view(np.ndarray)).tolist()
        if i.ndim == 0:
            return _fix1(flat[0])
        if len(flat) == 0:
            return np.asarray(i.view(np.ndarray)).astype(bool if getattr(i, 'sdt', None) == 'b' else int)
        if all(isinstance(x, (bool, np.bool_, SymBool)) for x in flat):
            return concretise_mask(i)
        vals = [operator.index(x) for x in flat]
        return np.array(vals, dtype=int).reshape(i.shape)
    return i


class _SymMaskIndex(Exception):
    pass


def fix_index(idx, shape):
    if isinstance(idx, tuple):
        return tuple(_fix1(i) for i in idx)
    return _fix1(idx)


_plain_getitem = SymArray.__getitem__


def _getitem(self, idx):
    if LAZY_MASK and _has_symmask(idx) and idx.shape == self.shape:
        return MaskedSel(self.copy(), idx)
    return _plain_getitem(self, idx)


SymArray.__getitem__ = _getitem


# --------------------------------------------------------------------------------------------------------------------


def asarr(x, sdt=None):
    """anything -> SymArray (object dtype) holding python scalars / symbolic scalars"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, MaskedSel):
        return asarr(x.concrete())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            r = x.view(SymArray)
        else:
            r = x.astype(object).view(SymArray)
            r.sdt = sdt_of_dtype(x.dtype)
        return r
    if is_sym(x) or core.is_num(x) or x is None or isinstance(x, str):
        r = np.empty((), dtype=object)
        r[()] = _pyscalar(x)
        return r.view(SymArray)
    # nested sequences
    shp = _seq_shape(x)
    r = np.empty(shp, dtype=object)
    _fill(r, x, ())
    out = r.view(SymArray)
    return out


def _seq_shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, MaskedSel):
        return x.concrete().shape
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return (0,)
        shps = [_seq_shape(e) for e in x]
        if any(s != shps[0] for s in shps):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(x),) + shps[0]
    return ()


def _fill(r, x, pos):
    if isinstance(x, MaskedSel):
        x = x.concrete()
    if isinstance(x, np.ndarray):
        for p in np.ndindex(x.shape):
            r[pos + p] = _pyscalar(np.ndarray.__getitem__(x, p))
    elif isinstance(x, (list, tuple, range)):
        for i, e in enumerate(x):
            _fill(r, e, pos + (i,))
    else:
        r[pos] = _pyscalar(x)


def vec1(f, a):
    a = asarr(a)
    out = np.empty(a.shape, dtype=object)
    b = a.view(np.ndarray)
    for p in np.ndindex(a.shape):
        out[p] = f(b[p])
    return out.view(SymArray)


def vecn(f, *arrs):
    arrs = [asarr(a).view(np.ndarray) for a in arrs]
    if all(a.ndim == 0 for a in arrs):
        return f(*[a[()] for a in arrs])
    bc = np.broadcast_arrays(*arrs)
    out = np.empty(bc[0].shape, dtype=object)
    for p in np.ndindex(bc[0].shape):
        out[p] = f(*[b[p] for b in bc])
    return out.view(SymArray)


def _norm_axis(axis, nd):
    if axis is None:
        return None
    axs = axis if isinstance(axis, tuple) else (axis,)
    return tuple(operator.index(a) % nd for a in axs)


def reduce_(f, a, axis, init, keepdims=False):
    a = asarr(a)
    b = a.view(np.ndarray)
    axs = _norm_axis(axis, a.ndim)
    if axs is None:
        axs = tuple(range(a.ndim))
    keep = [i for i in range(a.ndim) if i not in axs]
    t = np.transpose(b, keep + list(axs)).reshape([b.shape[i] for i in keep] + [-1])
    out = np.empty(t.shape[:-1], dtype=object)
    for p in np.ndindex(t.shape[:-1]):
        row = list(t[p])
        if not row:
            if init is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            out[p] = init
            continue
        if f is core.or_ or f is core.and_:
            out[p] = f(*row)
            continue
        if f is operator.add and any(isinstance(x, SymBool) for x in row) or \
                f is operator.add and any(isinstance(x, (bool, np.bool_)) for x in row):
            row = [x.num() if isinstance(x, SymBool) else (int(x) if isinstance(x, (bool, np.bool_)) else x) for x in row]
        acc = row[0]
        for x in row[1:]:
            acc = f(acc, x)
        out[p] = acc
    if keepdims:
        out = out.reshape([1 if i in axs else b.shape[i] for i in range(a.ndim)])
    if out.ndim == 0:
        return out[()]
    return out.view(SymArray)


def cumulative(f, a, axis):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis = axis % a.ndim
    b = np.moveaxis(a.view(np.ndarray), axis, 0)
    out = np.empty(b.shape, dtype=object)
    for p in np.ndindex(b.shape[1:]):
        acc = None
        for i in range(b.shape[0]):
            x = b[(i,) + p]
            if isinstance(x, SymBool):
                x = x.num()
            elif isinstance(x, (bool, np.bool_)):
                x = int(x)
            acc = x if acc is None else f(acc, x)
            out[(i,) + p] = acc
    return np.moveaxis(out, 0, axis).view(SymArray)


def arg_ext(a, axis, better):
    a = asarr(a)
    if axis is None:
        row = list(np.ndarray.ravel(a.view(np.ndarray)))
        if not row:
            raise ValueError("attempt to get argmin of an empty sequence")
        bi, bv = 0, row[0]
        for i in range(1, len(row)):
            c = better(row[i], bv)
            bi, bv = ite(c, i, bi), ite(c, row[i], bv)
        return bi
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for p in np.ndindex(b.shape[:-1]):
        out[p] = arg_ext(b[p], None, better)
    if out.ndim == 0:
        return out[()]
    return out.view(SymArray)


def _argsort1(row):
    """stable insertion sort by forking comparisons"""
    idx = []
    for i, x in enumerate(row):
        j = len(idx)
        while j > 0 and bool(x < row[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def argsort(a, axis=-1):
    a = asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(b.shape, dtype=int)
    for p in np.ndindex(b.shape[:-1]):
        out[p] = _argsort1(list(b[p]))
    return np.moveaxis(out, -1, axis)


def sort(a, axis=-1):
    """compare-exchange network: merges instead of forking"""
    a = asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for p in np.ndindex(b.shape[:-1]):
        row = list(b[p])
        n = len(row)
        for i in range(n):
            for j in range(n - 1 - i):
                c = row[j + 1] < row[j]
                row[j], row[j + 1] = ite(c, row[j + 1], row[j]), ite(c, row[j], row[j + 1])
        for i, x in enumerate(row):
            out[p + (i,)] = x
    return np.moveaxis(out, -1, axis).view(SymArray)


def np_sqrt(a):
    if isinstance(a, np.ndarray):
        return vec1(core.fn_sqrt, a)
    return core.fn_sqrt(a)


def np_round(a, decimals=0):
    decimals = int(decimals)
    def f(x):
        if not is_sym(x):
            return float(np.round(x, decimals)) if isinstance(x, float) else int(np.round(x, decimals))
        if isinstance(x, SymBool) or x.is_int:
            return x
        if decimals == 0:
            return core.round_half_even(x) * 1.0
        return core.round_half_even(x * 10 ** decimals) * 1.0 / 10 ** decimals
    return vec1(f, a) if isinstance(a, np.ndarray) else f(a)


def clip(a, lo=None, hi=None):
    def f(x, l, h):
        if l is not None:
            x = core.smax(l, x) if not (is_sym(x) or is_sym(l)) else ite(x < l, l, x)
        if h is not None:
            x = core.smin(h, x) if not (is_sym(x) or is_sym(h)) else ite(x > h, h, x)
        return x
    return vecn(f, a, lo, hi)


def matmul(a, b, dot=False):
    a, b = asarr(a), asarr(b)
    if dot and (a.ndim == 0 or b.ndim == 0):
        return vecn(operator.mul, a, b)
    A, B = a.view(np.ndarray), b.view(np.ndarray)
    if a.ndim <= 2 and b.ndim <= 2:
        A2 = A[None, :] if a.ndim == 1 else A
        B2 = B[:, None] if b.ndim == 1 else B
        if A2.shape[1] != B2.shape[0]:
            raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
        out = np.empty((A2.shape[0], B2.shape[1]), dtype=object)
        for i in range(A2.shape[0]):
            for j in range(B2.shape[1]):
                acc = 0
                for k in range(A2.shape[1]):
                    acc = acc + A2[i, k] * B2[k, j]
                out[i, j] = acc
        if a.ndim == 1:
            out = out[0]
        if b.ndim == 1:
            out = out[..., 0]
        return out[()] if out.ndim == 0 else out.view(SymArray)
    if dot:
        if b.ndim == 1:
            out = np.empty(A.shape[:-1], dtype=object)
            for p in np.ndindex(out.shape):
                out[p] = matmul(A[p], B)
            return out.view(SymArray)
        Bm = np.moveaxis(B, -2, 0)
        out = np.empty(A.shape[:-1] + Bm.shape[1:], dtype=object)
        for p in np.ndindex(A.shape[:-1]):
            for q in np.ndindex(Bm.shape[1:]):
                acc = 0
                for k in range(A.shape[-1]):
                    acc = acc + A[p + (k,)] * Bm[(k,) + q]
                out[p + q] = acc
        return out.view(SymArray)
    # stacked matmul
    if a.ndim == 1 or b.ndim == 1:
        r = matmul(A[None, :] if a.ndim == 1 else A, B[:, None] if b.ndim == 1 else B)
        return r[..., 0, :] if a.ndim == 1 else r[..., 0]
    lead = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, lead + A.shape[-2:])
    B = np.broadcast_to(B, lead + B.shape[-2:])
    out = np.empty(lead + (A.shape[-2], B.shape[-1]), dtype=object)
    for p in np.ndindex(lead):
        out[p] = matmul(A[p], B[p]).view(np.ndarray)
    return out.view(SymArray)


# ufuncs ---------------------------------------------------------------------------------------------------------------


def _wrap1(symf, ufunc):
    def f(x):
        if is_sym(x):
            return symf(x)
        with np.errstate(all='ignore'):
            return _pyscalar(ufunc(x))
    return f


def _isfin(x):
    return True


def _sign(x):
    if isinstance(x, SymBool):
        return x.num()
    r = ite(x > 0, 1, ite(x < 0, -1, 0))
    return r if x.is_int else r * 1.0


def _n(x):
    return x.num() if isinstance(x, SymBool) else x


def _np_div(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all='ignore'):
            return _pyscalar(np.true_divide(a, b))
    old = core.CTX.divzero
    core.CTX.divzero = 'np'
    try:
        if not is_sym(b) and b == 0:
            return core._divzero(_n(a))
        return _n(a) / _n(b)
    finally:
        core.CTX.divzero = old


def _bool2(f):
    def g(a, b):
        return f(a, b)
    return g


def _cmpw(op):
    def f(a, b):
        r = op(a, b)
        if isinstance(r, np.bool_):
            r = bool(r)
        return r
    return f


def _minmax(sm):
    def f(a, b):
        for x in (a, b):
            if isinstance(x, float) and math.isnan(x):
                return x
        return sm(a, b)
    return f


def _bitwise(op, bop):
    def f(a, b):
        isb = lambda v: isinstance(v, (bool, np.bool_, SymBool))
        if isb(a) and isb(b):
            return bop(a, b)
        if is_sym(a) or is_sym(b):
            if isb(b):
                a, b = b, a
            if isb(a) and core.as_int_like(b) if not is_sym(b) else isb(a) and isinstance(b, Sym) and b.is_int:
                low = b % 2
                if op is operator.and_:
                    return ite(a, low, 0)
                return ite(a, b + 1 - low if op is operator.or_ else b + 1 - 2 * low, b)
            raise Unsupported("bitwise operation on symbolic integers")
        return op(a, b)
    return f


def _xor(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) != bool(b)
    return core.mkbool(core.simp(z3.Xor(core.bterm(a), core.bterm(b))))


def _mul2(a, b):
    isb = lambda v: isinstance(v, (bool, np.bool_, SymBool))
    if isb(a) and isb(b):
        return core.and_(a, b)
    return a * b


def _add2(a, b):
    isb = lambda v: isinstance(v, (bool, np.bool_, SymBool))
    if isb(a) and isb(b):
        return core.or_(a, b)
    return a + b


def _power(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all='ignore'):
            return _pyscalar(np.power(float(a), b))
    return _n(a) ** _n(b)


def _expm1(x): return core.fn_exp(_n(x)) - 1
def _log1p(x): return core.fn_log(_n(x) + 1)


def _arctan2(y, x):
    if not is_sym(x) and not is_sym(y):
        return math.atan2(y, x)
    if x > 0:
        return core.fn_arctan(y / x)
    if x < 0:
        return core.fn_arctan(y / x) + (math.pi if y >= 0 else -math.pi)
    return math.pi / 2 if y > 0 else (-math.pi / 2 if y < 0 else 0.0)


U1 = {
    'negative': lambda x: -_n(x), 'positive': lambda x: x, 'absolute': lambda x: abs(_n(x)), 'fabs': lambda x: abs(_n(x)),
    'exp': lambda x: core.fn_exp(_n(x)), 'log': lambda x: core.fn_log(_n(x)), 'sqrt': core.fn_sqrt,
    'tanh': core.fn_tanh, 'arctan': core.fn_arctan, 'sin': core.fn_sin, 'cos': core.fn_cos, 'tan': core.fn_tan,
    'arcsin': core.fn_arcsin, 'arccos': core.fn_arccos, 'square': lambda x: _n(x) * _n(x),
    'sign': _sign, 'floor': lambda x: core.floor(x) * 1.0, 'ceil': lambda x: core.ceil(x) * 1.0,
    'trunc': lambda x: cast_scalar(x, 'i') * 1.0, 'rint': lambda x: core.round_half_even(x) * 1.0,
    'isnan': lambda x: not is_sym(x) and math.isnan(x), 'isfinite': lambda x: is_sym(x) or math.isfinite(x),
    'isinf': lambda x: not is_sym(x) and math.isinf(x),
    'logical_not': core.not_, 'invert': lambda x: ~x, 'conjugate': lambda x: x, 'expm1': _expm1, 'log1p': _log1p,
    'log10': lambda x: core.fn_log(_n(x)) / math.log(10), 'log2': lambda x: core.fn_log(_n(x)) / math.log(2),
    'deg2rad': lambda x: x * (math.pi / 180), 'radians': lambda x: x * (math.pi / 180),
    'rad2deg': lambda x: x * (180 / math.pi), 'degrees': lambda x: x * (180 / math.pi),
    'reciprocal': lambda x: _np_div(1.0, x), 'cosh': lambda x: (core.fn_exp(x) + core.fn_exp(-x)) / 2,
    'sinh': lambda x: (core.fn_exp(x) - core.fn_exp(-x)) / 2, 'erf': core.fn_erf, 'expit': core.fn_expit,
    'signbit': lambda x: x < 0, 'exp2': lambda x: core.fn_exp(_n(x) * math.log(2)),
}
U2 = {
    'add': _add2, 'subtract': operator.sub, 'multiply': _mul2, 'true_divide': _np_div, 'divide': _np_div,
    'power': _power, 'float_power': _power, 'floor_divide': operator.floordiv, 'remainder': operator.mod,
    'maximum': _minmax(core.smax), 'minimum': _minmax(core.smin), 'fmax': core.smax, 'fmin': core.smin,
    'less': _cmpw(operator.lt), 'less_equal': _cmpw(operator.le), 'greater': _cmpw(operator.gt),
    'greater_equal': _cmpw(operator.ge), 'equal': _cmpw(operator.eq), 'not_equal': _cmpw(operator.ne),
    'logical_and': core.and_, 'logical_or': core.or_, 'logical_xor': _xor,
    'bitwise_and': _bitwise(operator.and_, core.and_), 'bitwise_or': _bitwise(operator.or_, core.or_),
    'bitwise_xor': _bitwise(operator.xor, _xor), 'hypot': core.fn_hypot, 'arctan2': _arctan2,
    'copysign': lambda a, b: ite(b < 0, -abs(a), abs(a)),
    'fmod': lambda a, b: a - b * cast_scalar(_np_div(a, b), 'i'),
    'heaviside': lambda a, b: ite(a < 0, 0.0, ite(a > 0, 1.0, b)),
}
RED = {'add': (operator.add, 0), 'multiply': (operator.mul, 1), 'maximum': (core.smax, None),
       'minimum': (core.smin, None), 'logical_and': (core.and_, True), 'logical_or': (core.or_, False)}
BOOLRES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
           'logical_not', 'isnan', 'isfinite', 'isinf', 'signbit', 'logical_xor'}


def _guarded_div(w, a, b, o):
    """np.divide(a, b, out=o, where=w) for one element: a division that the mask keeps away from zero does not fork"""
    if not is_sym(w):
        return _np_div(a, b) if w else o
    if not is_sym(b) or core._nonfinite(a) or not (is_sym(a) or core.is_num(a)):
        return ite(w, _np_div(a, b), o)
    if core.CTX.branch(z3.And(core.bterm(w), core.term(b, True) == 0)):
        return _np_div(a, b)
    return ite(w, core.mknum(core.CTX.quotient(core.term(a, True), core.term(b, True))), o)


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop('out', None)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    where = kw.pop('where', True)
    inputs = [i.concrete() if isinstance(i, MaskedSel) else i for i in inputs]
    if method == '__call__':
        if name == 'matmul':
            r = matmul(inputs[0], inputs[1])
        elif len(inputs) == 1 and name in U1:
            f = _wrap1(U1[name], ufunc)
            r = vec1(f, inputs[0]) if isinstance(inputs[0], np.ndarray) and inputs[0].ndim else \
                f(_pyscalar(inputs[0].item() if isinstance(inputs[0], np.ndarray) else inputs[0]))
        elif len(inputs) == 2 and name in U2:
            if not all(isinstance(i, np.ndarray) or is_sym(i) or core.is_num(i) or isinstance(i, (list, tuple))
                       for i in inputs):
                if name == 'equal':
                    r = vecn(lambda a, b: a == b, *[asarr_any(i) for i in inputs])
                elif name == 'not_equal':
                    r = vecn(lambda a, b: a != b, *[asarr_any(i) for i in inputs])
                else:
                    return NotImplemented
            elif name in ('divide', 'true_divide') and where is not True and out is not None and out[0] is not None:
                r, where = vecn(_guarded_div, where, inputs[0], inputs[1], out[0]), True
            else:
                r = vecn(U2[name], *inputs)
        elif name == 'divmod' and not out and where is True:
            q = np.floor_divide(*inputs)
            return q, np.remainder(*inputs)
        elif name == 'modf' and not out and where is True:
            q = np.trunc(inputs[0])
            return inputs[0] - q, q
        elif name in ('modf', 'divmod'):
            raise Unsupported(name)
        else:
            raise Unsupported(f"ufunc {name}")
        if where is not True:
            if out is None or out[0] is None:
                raise Unsupported("ufunc where= without out=")
            r = vecn(ite, where, r, out[0])
        if out is not None and out[0] is not None:
            o = out[0]
            if not isinstance(o, SymArray):
                if any_sym(r):
                    raise Unsupported(f"in-place {name} on a concrete array with a symbolic operand")
                np.asarray(o)[...] = np.asarray(r).astype(o.dtype)
                return o
            o[...] = r
            return o
        if isinstance(r, SymArray):
            r.sdt = 'b' if name in BOOLRES else None
        return r
    if method == 'reduce':
        if name not in RED:
            raise Unsupported(f"ufunc {name}.reduce")
        f, init = RED[name]
        return reduce_(f, inputs[0], kw.get('axis', 0), init, kw.get('keepdims', False))
    if method == 'accumulate':
        f = {'maximum': core.smax, 'minimum': core.smin, 'add': operator.add, 'multiply': operator.mul}[name]
        return cumulative(f, inputs[0], kw.get('axis', 0))
    if method == 'outer':
        a, b = asarr(inputs[0]), asarr(inputs[1])
        return vecn(U2[name], a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, idx, b = inputs
        for i, v in zip(np.atleast_1d(idx), np.broadcast_to(asarr(b), np.shape(np.atleast_1d(idx)))):
            a[i] = U2[name](a[i], v)
        return None
    raise Unsupported(f"ufunc {name}.{method}")


def asarr_any(x):
    if isinstance(x, np.ndarray):
        return asarr(x)
    r = np.empty((), dtype=object)
    r[()] = x
    return r.view(SymArray)


def any_sym(x, depth=0):
    if is_sym(x) or isinstance(x, MaskedSel):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and (isinstance(x, SymArray) or
                                      any(is_sym(e) for e in np.ndarray.ravel(x).tolist()))
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(any_sym(e, depth + 1) for e in x)
    if isinstance(x, dict) and depth < 2:
        return any(any_sym(e, depth + 1) for e in x.values())
    return False


def function_dispatch(func, types, args, kwargs):
    from . import npshim
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    ov = npshim.override_for(func)
    if ov is not None:
        return ov(*args, **kwargs)
    args = tuple(a.concrete() if isinstance(a, MaskedSel) else a for a in args)
    if any(is_sym(a) for a in args):
        args = tuple(asarr(a) if is_sym(a) else a for a in args)
    r = func._implementation(*args, **kwargs) if hasattr(func, '_implementation') else \
        np.ndarray.__array_function__(asarr(args[0]), func, types, args, kwargs)
    return npshim.wrap_result(r)
