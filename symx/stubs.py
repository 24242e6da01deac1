"""Environment stubs: random generators returning arbitrary values within their documented contract."""
import numpy as np

from . import core
from .core import is_sym
from .arr import asarr


class Draws:
    """value source shared by all generators of one run; names are deterministic, so symbolic run and replay agree"""


class StubRNG:
    """numpy.random.Generator stand-in. Every draw is an unconstrained input of the scenario, inside the contract of the
    distribution (support only; no distributional claim)."""

    def __init__(self, e, tag='rng'):
        self.e, self.tag, self.n, self.calls, self.values, self.by_kind = e, tag, 0, [], [], {}

    def __deepcopy__(self, memo):
        return self

    limit = None      # histories with more draws are outside the bounds

    def _draw(self, kind, size, f):
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            self.e.assume(False)
        base = f"{self.tag}.{kind}{self.n}"
        if size is None:
            v = f(base)
            self.values.append(v)
            self.by_kind.setdefault(kind, []).append(v)
            return v
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        out = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            out[p] = f(base + ''.join(f'_{i}' for i in p))
            self.values.append(out[p])
            self.by_kind.setdefault(kind, []).append(out[p])
        return self.e.array(out, 'f')

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.calls.append(('normal', loc, scale, size))
        z = self._draw('normal', size, lambda n: self.e.real(n, -8, 8))
        return loc + scale * z

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        self.calls.append(('lognormal', mean, sigma, size))
        z = mean + sigma * self._draw('normal', size, lambda n: self.e.real(n, -8, 8))
        return core.fn_exp(z) if is_sym(z) else np.exp(z)

    def standard_exponential(self, size=None, **k):
        return self.exponential(1.0, size)

    def standard_normal(self, size=None, **k):
        self.calls.append(('standard_normal', 0.0, 1.0, size))
        return self._draw('normal', size, lambda n: self.e.real(n, -8, 8))

    def uniform(self, low=0.0, high=1.0, size=None):
        self.calls.append(('uniform', low, high, size))
        u = self._draw('uniform', size, lambda n: self.e.real(n, 0, 1))
        return low + (high - low) * u

    def random(self, size=None, **k):
        return self.uniform(0.0, 1.0, size)

    def exponential(self, scale=1.0, size=None):
        self.calls.append(('exponential', scale, size))
        return scale * self._draw('exponential', size, lambda n: self.e.real(n, 0, 40))

    def geometric(self, p, size=None):
        self.calls.append(('geometric', p, size))
        if not bool(core.and_(p > 0, p <= 1)):
            raise ValueError("p <= 0, p > 1 or p contains NaNs")
        return self._int(self._draw('geometric', size, lambda n: self.e.integer(n, 1, getattr(self, 'geo_max', 6))))

    def poisson(self, lam=1.0, size=None):
        self.calls.append(('poisson', lam, size))
        if not bool(lam >= 0):
            raise ValueError("lam < 0 or lam contains NaNs")
        return self._int(self._draw('poisson', size, lambda n: self.e.integer(n, 0, getattr(self, 'poi_max', 4))))

    def binomial(self, n, p, size=None):
        self.calls.append(('binomial', n, p, size))
        if not bool(core.and_(p >= 0, p <= 1)):
            raise ValueError("p < 0, p > 1 or p contains NaNs")
        r = self._draw('binomial', size, lambda nm: self.e.integer(nm, 0, n))
        for v in (np.ravel(r) if isinstance(r, np.ndarray) else [r]):
            self.e.assume([core.or_(p > 0, v == 0), core.or_(p < 1, v == n)])
        return self._int(r)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        self.calls.append(('integers', low, high, size))
        hi = high if endpoint else high - 1
        return self._int(self._draw('integers', size, lambda nm: self.e.integer(nm, int(low), int(hi))))

    def choice(self, a, size=None, replace=True, p=None):
        self.calls.append(('choice', a, size))
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            return self.e.choose(f"{self.tag}.choice{self._inc()}", opts)
        return [self.e.choose(f"{self.tag}.choice{self._inc()}", opts) for _ in range(int(size))]

    def _inc(self):
        self.n += 1
        return self.n

    def _int(self, x):
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                x.sdt = 'i'
                return x
            return x.astype(int)
        return x


class RandomModule:
    """numpy.random stand-in"""
    Generator = np.random.Generator

    def __init__(self, e):
        self.e, self.k, self.made = e, 0, []
        e.random_module = self

    factory = StubRNG

    def default_rng(self, seed=None):
        if isinstance(seed, StubRNG):
            return seed
        self.k += 1
        r = self.factory(self.e, f"rng{self.k}")
        self.made.append(r)
        return r

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if not hasattr(StubRNG, n):
            return getattr(np.random, n)
        if not self.__dict__.get('_glob'):
            self.__dict__['_glob'] = self.factory(self.e, 'rngglobal')
        return getattr(self.__dict__['_glob'], n)
