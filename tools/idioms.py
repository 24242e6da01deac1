"""Development helper: numpy idioms that a rewrite of the code may use, evaluated through the stand-in for numpy with symbolic
inputs pinned to values, against numpy itself.  Lists idioms the stand-in gets wrong or does not support."""
import sys, time, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import numpy as np
import symx
from symx import patch
from symx.harness import Scenario, Explorer
X = [0.5, -1.25, 2.0, 0.75]
Y = [1.5, 0.25, -0.5, 3.0]
A = [[1.0, -2.0, 0.5], [0.25, 3.0, -1.5]]
I = [3, 0, 2, 1]
IDIOMS = '''
np.einsum('i,i->', x, y)
np.einsum('ij,j->i', A, x[:3])
np.einsum('...k,k->...', A, x[:3])
np.tensordot(A, x[:3], axes=1)
np.tensordot(A, x[:3], axes=([1], [0]))
A @ x[:3]
x @ y
A.T @ y[:2]
np.inner(x, y)
np.vdot(x, y)
np.outer(x, y)
np.multiply.outer(x, y)
np.add.outer(x, y)
np.add.reduce(A, axis=0)
np.logical_or.reduce(A > 0, axis=0)
np.maximum.reduce([x, y, -x])
np.minimum.reduce([x, y])
np.maximum.accumulate(x)
np.add.accumulate(x)
np.cumsum(x)
np.sum(A)
np.sum(A, axis=-1, keepdims=True)
A.sum(axis=1)
A.mean(axis=0)
np.mean(A, axis=1)
np.average(x)
np.average(x, weights=[1, 2, 3, 4])
np.ptp(x)
np.ptp(A, axis=1)
x.max() - x.min()
np.amax(A, axis=0)
np.max(x, initial=1.0)
min(x), max(x)
max(*x)
max(x, key=lambda v: -v)
sorted(x)
sorted(range(4), key=lambda k: x[k])
sorted(x, reverse=True)
sum(x)
sum(x, 1.0)
np.sort(x)
x[np.argsort(x)]
np.argsort(x)
np.argsort(-x, kind='stable')
np.argmin(np.abs(x - 0.7))
np.abs(x).argmin()
np.nanargmin(np.abs(x))
np.argmax(A, axis=1)
np.where(x > 0, x, 0.0)
np.where(x > 0)[0]
np.nonzero(x > 0)[0]
(x > 0).nonzero()[0]
np.flatnonzero(x < 1)
np.argwhere(x > 0).ravel()
x[x > 0]
x[(x > 0) & (y > 0)]
x[~(x > 0)]
np.count_nonzero(x > 0)
(x > 0).sum()
np.sum(x > 0)
np.any(x > 1), np.all(x > -2)
(x > 1).any(), (x > 1).all()
np.select([x < 0, x < 0.6], [0.0, 1.0], default=2.0)
np.piecewise(x, [x < 0, x >= 0], [lambda v: -v, lambda v: v * 2])
np.choose([0, 1, 0, 1], [x, y])
np.clip(x, 0, 1)
x.clip(0, 1)
np.clip(x, None, 1)
np.minimum(np.maximum(x, 0), 1)
np.fmax(x, 0)
np.sign(x)
np.copysign(1.0, x)
np.heaviside(x, 0.5)
np.signbit(x)
np.floor(x), np.ceil(x), np.trunc(x), np.rint(x)
np.round(x, 1)
x.round()
np.fix(x)
np.mod(x, 1)
np.divmod(x, 0.5)
divmod(2.3, 0.5)
np.remainder(x, 0.7)
np.fmod(x, 0.7)
x // 0.3
np.floor_divide(x, 0.3).astype(int)
x.astype(int)
np.rint(x).astype(int)
np.asarray(x, dtype=float)
np.asfarray(x) if hasattr(np, 'asfarray') else x
x.astype(np.float64)
np.float64(x[0])
float(x[0])
int(x[2])
int(np.floor(x[2]))
x[0].item()
x.item(1)
x.tolist()
list(x)
tuple(x)
np.hypot(x, y)
np.sqrt(x ** 2 + y ** 2)
np.square(x)
np.power(x, 2)
np.reciprocal(x)
np.linalg.norm(x)
np.linalg.norm(A, axis=1)
np.linalg.norm(A)
np.negative(x)
np.subtract(x, y)
np.true_divide(x, y)
np.divide(x, y, out=np.zeros(4), where=y > 0)
np.add(x, y, out=np.zeros(4))
np.exp(0.0 * x)
np.abs(x)
abs(x)
np.fabs(x)
np.absolute(x)
np.degrees(0 * x), np.radians(0 * x), np.deg2rad(0 * x)
np.linspace(x[0], x[2], 5)
np.linspace(x[0], x[2], num=3, endpoint=False)
np.linspace(x[0], x[2], 5, retstep=True)[1]
np.linspace([0.0, 1.0], [1.0, 3.0], 3)
np.linspace(x[:2], y[:2], 3, axis=-1)
np.geomspace(1.0, 8.0, 4)
np.arange(4) * x
x[0] + np.arange(3) * (x[2] - x[0]) / 2
np.arange(0, 1, 0.25)
np.stack((x, y))
np.stack((x, y), axis=-1)
np.stack([x, y], axis=1)
np.column_stack((x, y))
np.row_stack((x, y)) if hasattr(np, 'row_stack') else x
np.vstack((x, y))
np.hstack((x, y))
np.dstack((x, y))
np.concatenate((x, y))
np.concatenate([A, A], axis=1)
np.concatenate([x, [1.0]])
np.append(x, 1.0)
np.append(x, y)
np.insert(x, 0, 1.0)
np.delete(x, 1)
np.c_[x, y]
np.r_[x, y]
np.r_[0, x]
np.block([[A], [A]])
np.tile(x, 2)
np.tile(x, (2, 1))
np.repeat(x, 2)
np.repeat(x, [1, 2, 0, 1])
np.repeat(A, 2, axis=0)
np.full(3, x[0])
np.full((2, 2), x[1])
np.full_like(x, 2.0)
np.full_like(A, x[0])
np.zeros_like(x) + x
np.ones(4) * x
np.ones_like(x)
np.empty((2, 2)).shape
np.eye(2) @ A
np.identity(3) @ x[:3]
np.diag(x)
np.diagonal(np.outer(x, y))
np.diag(np.outer(x, y))
np.trace(np.outer(x, y))
np.flip(x)
np.flip(A, axis=1)
np.flipud(A), np.fliplr(A)
np.rot90(A)
x[::-1]
A[::-1, ::-1]
A[..., 0]
A[:, None, :]
x[:, np.newaxis] * y
np.expand_dims(x, 0)
np.squeeze(x[None, :])
np.roll(x, 1)
np.roll(A, 1, axis=1)
np.pad(x, 1)
np.pad(x, (1, 0), mode='edge')
np.pad(x, (0, 2), constant_values=5.0)
np.pad(A, ((1, 0), (0, 0)))
np.reshape(A, (3, 2))
A.reshape(-1)
A.reshape(-1, 2)
A.ravel()
A.flatten()
A.flat[3]
list(A.flat)
A.T
A.transpose()
np.transpose(A)
np.transpose([x, y])
np.swapaxes(A, 0, 1)
np.moveaxis(A, 0, -1)
np.meshgrid(x, y)[0]
np.meshgrid(x, y, indexing='ij')[1]
np.stack(np.meshgrid(x, y), axis=-1)
np.dstack(np.meshgrid(x, y))
np.array(np.meshgrid(x, y)).T.reshape(-1, 2)
np.mgrid[0:2, 0:3]
np.ogrid[0:2, 0:3][0]
np.indices((2, 3))
np.ix_([0, 1], [0, 2])[0]
A[np.ix_([0, 1], [0, 2])]
np.unravel_index(3, (2, 3))
np.ravel_multi_index((1, 1), (2, 3))
np.take(x, [0, 2])
x.take([1, 1])
np.take_along_axis(A, np.array([[0], [1]]), axis=1)
np.compress([True, False, True, True], x)
np.extract(x > 0, x)
np.split(x, 2)[1]
np.array_split(x, 3)[0]
np.broadcast_to(x, (2, 4))
np.broadcast_arrays(x, A[0, 0])[1]
np.atleast_1d(x[0])
np.atleast_2d(x)
np.diff(x)
np.diff(x, prepend=0.0)
np.ediff1d(x)
np.gradient(x)
np.trapezoid(x, dx=0.5) if hasattr(np, 'trapezoid') else x
np.interp(0.3, [0, 1], [2.0, 3.0])
np.interp(x, [-2.0, 0.0, 3.0], [0.0, 1.0, 5.0])
np.searchsorted([0.0, 1.0, 2.0], x)
np.searchsorted([0.0, 0.5, 2.0], x, side='right')
np.digitize(x, [0.0, 1.0])
np.histogram(x, bins=[-2.0, 0.0, 3.0])[0]
np.unique(np.array([1, 2, 1]))
np.isin(np.array([1, 2, 1]), [1])
np.isnan(x)
np.isfinite(x)
np.isinf(x)
np.nan_to_num(x)
np.isclose(x, x)
np.allclose(x, x + 1e-12)
np.array_equal(x, x)
np.any(np.isnan(x))
np.nanmax(x), np.nanmin(x), np.nansum(x)
np.std(x), np.var(x)
np.median(x)
np.percentile(x, 50)
np.quantile(x, 0.25)
np.cross(x[:2], y[:2])
np.cross(x[:3], y[:3])
np.linalg.det(np.array([[1.0, 2.0], [x[0], 3.0]]))
np.linalg.inv(np.array([[1.0, 2.0], [x[0], 3.0]]))
np.linalg.solve(np.array([[1.0, 2.0], [x[0], 3.0]]), y[:2])
np.apply_along_axis(lambda r: r.sum(), 1, A)
np.vectorize(lambda v: v * 2)(x)
np.fromiter((v * 2 for v in x), dtype=float)
np.array([v * 2 for v in x])
np.array(list(map(float, x)))
np.array([list(r) for r in A])
np.array((x[0], x[1]), dtype=float)
np.convolve(x, [1.0, 2.0])
np.convolve(x, [1.0, 2.0], mode='same')
np.convolve(x, [0.5, 0.5], mode='valid')
np.correlate(x, [1.0, 2.0])
np.polyval([1.0, 2.0], x)
np.poly1d([1.0, 2.0])(x)
np.bincount(np.array([0, 1, 1]))
np.triu(np.outer(x, y))
np.tril(np.outer(x, y))
np.kron(x[:2], y[:2])
np.prod(A.shape)
np.prod(x)
A.size, A.ndim, A.shape
len(A)
np.shape(A)
np.ndim(x), np.size(x)
np.isscalar(x[0])
np.iterable(x)
np.can_cast(int, float)
np.result_type(float)
x.copy()
np.copy(x)
np.array(x, copy=True)
np.ascontiguousarray(x)
isinstance(x, np.ndarray)
x.dtype == float
np.issubdtype(x.dtype, np.floating)
x == x[0]
np.not_equal(x, y)
np.less(x, y)
np.logical_and(x > 0, y > 0)
np.logical_not(x > 0)
np.logical_xor(x > 0, y > 0)
np.bitwise_and(x > 0, y > 0)
np.invert(x > 0)
(x > 0) ^ (y > 0)
(x > 0) * 1.0
(x > 0).astype(int)
(x > 0).astype(float) * x
1 - (x > 0)
x * (x > 0)
any(v > 1 for v in x)
all(v > -2 for v in x)
[i for i, v in enumerate(x) if v > 0]
next(i for i, v in enumerate(x) if v > 1)
np.fill_diagonal(np.zeros((2, 2)), 1.0)
np.einsum('ij->ji', A)
np.nditer
[v for _, v in np.ndenumerate(A)]
[A[p] for p in np.ndindex(*A.shape)]
np.lexsort((x, y))
np.partition(x, 1)[1]
np.sinc(0 * x)
np.cosh(0 * x), np.sinh(0 * x), np.tanh(0 * x)
np.expm1(0 * x), np.log1p(0 * x)
np.arctan2(0 * x, np.abs(x))
np.exp2(0 * x), np.log2(np.ones(2)), np.log10(np.ones(2))
math.hypot(x[0], x[1])
math.floor(x[2]), math.ceil(x[0])
math.fabs(x[1])
math.sqrt(x[2] * x[2])
math.isclose(x[0], x[0])
math.isnan(x[0]), math.isfinite(x[0]), math.isinf(x[0])
math.copysign(1, x[1])
math.fsum(x)
math.prod(x)
math.dist(x, y)
math.exp(0 * x[0]), math.tanh(0 * x[0]), math.pow(x[0], 2), math.fmod(x[2], 0.7)
math.trunc(x[1]), math.radians(0 * x[0]), math.atan2(0 * x[0], 1.0)
round(x[2]), round(x[1], 1)
abs(x[1])
x[0] ** 2
pow(x[0], 2)
x[0].is_integer() if hasattr(x[0], 'is_integer') else False
-x
+x
x.squeeze()
x.conj() if False else x
x.dot(y)
x.cumsum()
x.prod()
x.var()
x.std()
x.argmin(), x.argmax()
x.any(), x.all()
x.repeat(2)
x.reshape(2, 2)
x.fill(0.0) if False else x
np.put
np.subtract.outer(x, y)
np.abs(np.subtract.outer(x, y)).argmin(axis=1)
np.trim_zeros(np.array([0.0, 1.0, 0.0]))
np.array_split(np.arange(5), 2)[0]
np.floor((x - x.min()) / 0.3 + 0.5).astype(int)
np.add.at
functools.reduce(lambda a, b: a + b, x)
itertools.accumulate
list(itertools.accumulate(x))
list(zip(x, y))
[a * b for a, b in zip(x, y)]
dict(enumerate(x))[0]
np.where(x > 0, y, np.nan)[0]
np.nansum(np.where(x > 0, y, np.nan))
np.ma.masked_where(x > 0, x).filled(0.0)
x[[0, 2]]
x[np.array([True, False, True, False])]
x[i]
A[[0, 1], [1, 2]]
A[:, i[:3] - 1]
x[-1]
x[1:-1]
x[None]
np.array([x, y]).max(axis=0)
np.nanmean(x)
np.absolute(x).max()
np.in1d(np.array([1, 2]), [1]) if hasattr(np, 'in1d') else x
np.putmask
np.cumprod(x)
np.min([x[0], x[1]])
np.max((x[0], 1.0))
np.minimum(x[0], 1.0)
np.sum([x, y], axis=0)
np.sum((x[0], x[1]))
np.prod((x[0], x[1]))
np.mean([x[0], x[1]])
np.array(x[0]).item()
np.array([x[0]]).item()
np.asarray(x[0]).ndim
np.add(x[0], 1.0)
np.spacing
np.finfo(float).eps < x[0]
np.inf > x[0]
x[0] < math.inf
0 < x[0] < 1
x[0] in (0.5, 1)
x[0] is None
not x[0]
bool(x[0])
x[0] or 1.0
x[0] and 1.0
isinstance(x[0], float)
isinstance(x[0], numbers.Number)
isinstance(x[0], (int, float))
type(x[0]) == float
f'{x[0]}' != ''
str(x[0]) != ''
hash(1)
copy.deepcopy(x)
copy.copy(x)
'''


def values(r):
    if isinstance(r, (list, tuple)):
        out = []
        for q in r:
            out += values(q)
        return out
    if isinstance(r, np.ndarray):
        return list(np.ndarray.ravel(r.view(np.ndarray)).tolist()) if r.dtype == object else r.ravel().tolist()
    return [r]


MOD = None


def run(src):
    global MOD
    if MOD is None:
        import types, math, functools, itertools, numbers, copy
        patch.load_simcats()
        MOD = types.ModuleType('simcats.idiom_dev')
        MOD.__dict__.update(math=math, functools=functools, itertools=itertools, numbers=numbers, copy=copy, np=np)
        sys.modules[MOD.__name__] = MOD
    exec(f'def f(x, y, A, i):\n    return {src}', MOD.__dict__)
    f = MOD.f
    want = f(np.array(X), np.array(Y), np.array(A), np.array(I))

    def fn(e):
        pin = lambda n, v: (lambda s: (e.assume(s == v), s)[1])(e.real(n, v - 1, v + 1))  # noqa: E731
        x, y = e.array([pin(f'x{k}', v) for k, v in enumerate(X)]), e.array([pin(f'y{k}', v) for k, v in enumerate(Y)])
        M = e.array([[pin(f'a{r}{c}', v) for c, v in enumerate(row)] for r, row in enumerate(A)])
        i = e.array(I, 'i')
        got = f(x, y, M, i)
        e.check(np.shape(got) == np.shape(want) if not isinstance(want, (type, type(np.add))) and not callable(want) else True, 'shape')
        a, b = values(got), values(want)
        e.check(len(a) == len(b), 'length')
        for p, q in zip(a, b):
            if isinstance(q, (bool, np.bool_)):
                e.check(p == q, 'value')
            elif isinstance(q, (int, float, np.number)):
                if q == q and not callable(p):
                    e.close(p, q, 'value', 1e-6)
    ex = Explorer(Scenario(src, fn, {}), time.time() + 20)
    ex.explore()
    return ex


if __name__ == '__main__':
    only = sys.argv[1] if len(sys.argv) > 1 else ''
    bad = 0
    for src in IDIOMS.strip().split('\n'):
        if only not in src:
            continue
        try:
            ex = run(src)
        except Exception as x:  # noqa: BLE001
            print('CRASH', src, '::', type(x).__name__, str(x)[:150])
            continue
        if ex.violations or ex.undecided or ex.mismatch or not ex.ctx:
            bad += 1
            print('BAD  ', src, '::', (ex.violations or ex.undecided or ex.mismatch)[:1])
    print(bad, 'bad')
