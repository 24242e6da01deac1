"""The two environments a scenario runs in: symbolic (inputs are z3 variables, numpy patched) and concrete (inputs are
the values of a solver model, nothing patched: the replay)."""
import math
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core, arr, npshim
from .core import Sym, SymBool, is_sym, Unsupported, PathInfeasible, Undecided
from .arr import SymArray, asarr, MaskedSel


class Failed(BaseException):
    """a check failed on a path (symbolic: confirmed or pending counterexample)"""


class ReplayInvalid(Exception):
    pass


def _flat(x):
    if isinstance(x, MaskedSel):
        x = x.concrete()
    if isinstance(x, np.ndarray):
        return np.ndarray.ravel(x).tolist() if x.dtype == object else x.ravel().tolist()
    if isinstance(x, (list, tuple)):
        r = []
        for e in x:
            r += _flat(e)
        return r
    return [x]


class BaseEnv:
    # logical helpers usable in both modes
    ite = staticmethod(core.ite)
    and_ = staticmethod(core.and_)
    or_ = staticmethod(core.or_)
    not_ = staticmethod(core.not_)
    implies = staticmethod(core.implies)
    min = staticmethod(core.smin)
    max = staticmethod(core.smax)

    def reals(self, name, shape, lo=None, hi=None, **k):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            out[p] = self.real(name + ''.join(f'_{i}' for i in p), lo, hi, **k)
        return self.array(out)

    def integers(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            out[p] = self.integer(name + ''.join(f'_{i}' for i in p), lo, hi)
        return self.array(out, 'i')

    def booleans(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            out[p] = self.boolean(name + ''.join(f'_{i}' for i in p))
        return self.array(out, 'b')

    def flat(self, x):
        return _flat(x)

    def reset(self):
        """the package as it is right after importing it"""
        from . import patch
        patch.reset_state()

    def eq(self, a, b, label):
        """exact equality of shapes and elements (booleans, integers, or the same value untouched)"""
        if not self._same_shape(a, b, label):
            return
        self.check([x == y for x, y in zip(_flat(a), _flat(b))], label)

    def _same_shape(self, a, b, label):
        sa, sb = np.shape(self._sh(a)), np.shape(self._sh(b))
        if sa != sb:
            self.check(False, f"{label}: shape {sa} != {sb}")
            return False
        return True

    @staticmethod
    def _sh(a):
        if isinstance(a, MaskedSel):
            return a.concrete()
        if is_sym(a):
            return 0.0
        if isinstance(a, (list, tuple)):
            return asarr(a)
        return a

    def catch(self, f, *types):
        """run f; return (result, None) or (None, exception) for the listed exception types"""
        try:
            return f(), None
        except types as ex:
            if isinstance(ex, Unsupported):
                raise
            return None, ex


class SymEnv(BaseEnv):
    sym = True

    def __init__(self, ctx, harness):
        self.ctx, self.h = ctx, harness
        self.inputs = {}
        self.obs = []
        self.soft = []
        self.nchecks = 0
        self.np = npshim.ModProxy(np)

    # inputs
    def real(self, name, lo=None, hi=None, open=False):
        if name in self.inputs:
            return Sym(self.inputs[name])
        v = z3.Real(name)
        self.inputs[name] = v
        if lo is not None:
            self.ctx.add(v > core.term(lo, True) if open else v >= core.term(lo, True))
        if hi is not None:
            self.ctx.add(v < core.term(hi, True) if open else v <= core.term(hi, True))
        return Sym(v)

    def integer(self, name, lo=None, hi=None):
        if name in self.inputs:
            return Sym(self.inputs[name])
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.ctx.add(v >= lo)
        if hi is not None:
            self.ctx.add(v <= hi)
        return Sym(v)

    def boolean(self, name):
        if name in self.inputs:
            return SymBool(self.inputs[name])
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def choose(self, name, options):
        """one of finitely many concrete alternatives (forks)"""
        i = self.integer(name, 0, len(options) - 1)
        return options[self.ctx.concretise_int(i.t)]

    def array(self, x, sdt='f'):
        r = asarr(x).copy()
        r.sdt = sdt
        return r

    def assume(self, c):
        for x in _flat(c):
            self.ctx.assume(x)

    def prefer(self, c):
        """not a constraint: replayed models satisfy it when they can (e.g. stub arguments that differ)"""
        c = core.bterm(c)
        if not z3.is_true(c):
            self.soft.append(c)

    # observations and assertions
    def observe(self, name, value):
        self.obs.append((name, [v for v in _flat(value)]))

    def check(self, c, label):
        self.nchecks += 1
        self.h.sym_check(self, [core.bterm(x) for x in _flat(c)], label)

    def close(self, a, b, label, tol=1e-6):
        if not self._same_shape(a, b, label):
            return
        cs = []
        for x, y in zip(_flat(a), _flat(b)):
            if not is_sym(x) and not is_sym(y):
                if x is None or y is None:
                    cs.append(z3.BoolVal(x is y))
                    continue
                ok = (x == y) or (isinstance(x, float) and isinstance(y, float) and math.isnan(x) and math.isnan(y)) or \
                    abs(x - y) <= tol
                cs.append(z3.BoolVal(bool(ok)))
                continue
            if core._nonfinite(x) or core._nonfinite(y) or x is None or y is None:
                cs.append(z3.BoolVal(False))
                continue
            d = core.simp(core.term(x, True) - core.term(y, True))
            k = core.const_of(d)
            if k is not None:
                cs.append(z3.BoolVal(abs(k) <= Fraction(tol)))
            else:
                t = core.rv(Fraction(tol))
                cs.append(z3.And(d <= t, d >= -t))
        self.nchecks += 1
        self.h.sym_check(self, cs, label)

    def le(self, a, b, label, tol=1e-6):
        cs = []
        a2, b2 = (np.broadcast_arrays(asarr(a).view(np.ndarray), asarr(b).view(np.ndarray)))
        for x, y in zip(_flat(a2), _flat(b2)):
            r = (x <= y + tol) if not (is_sym(x) or is_sym(y)) else (x - y <= tol)
            cs.append(core.bterm(r))
        self.nchecks += 1
        self.h.sym_check(self, cs, label)

    def lt(self, a, b, label, tol=0.0):
        """strict inequality a < b; reported only when a >= b + tol"""
        a2, b2 = (np.broadcast_arrays(asarr(a).view(np.ndarray), asarr(b).view(np.ndarray)))
        cs = [core.bterm(x - y < tol if tol else x < y) for x, y in zip(_flat(a2), _flat(b2))]
        self.nchecks += 1
        self.h.sym_check(self, cs, label)


class ConcEnv(BaseEnv):
    sym = False

    def __init__(self, values):
        self.values = values
        self.used = {}
        self.obs = []
        self.failures = []
        self.np = np

    def _get(self, name, default):
        v = self.values.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, open=False):
        d = 0.0
        if lo is not None and d < lo:
            d = float(lo) if not open else (float(lo) + float(hi)) / 2 if hi is not None else float(lo) + 1
        if hi is not None and d > hi:
            d = float(hi) if not open else (float(lo) + float(hi)) / 2 if lo is not None else float(hi) - 1
        return float(self._get(name, d))

    def integer(self, name, lo=None, hi=None):
        d = 0
        if lo is not None and d < lo:
            d = lo
        if hi is not None and d > hi:
            d = hi
        return int(self._get(name, d))

    def boolean(self, name):
        return bool(self._get(name, False))

    def choose(self, name, options):
        return options[self.integer(name, 0, len(options) - 1)]

    def array(self, x, sdt='f'):
        dt = {'f': float, 'i': int, 'b': bool}.get(sdt, float)
        return np.array(np.asarray(x).tolist(), dtype=dt).reshape(np.shape(x))

    def prefer(self, c):
        pass

    def assume(self, c):
        if not all(bool(x) for x in _flat(c)):
            raise ReplayInvalid()

    def observe(self, name, value):
        self.obs.append((name, [v for v in _flat(value)]))

    def check(self, c, label):
        bad = [i for i, x in enumerate(_flat(c)) if not bool(x)]
        if bad:
            self.failures.append(f"{label} [element {bad[0]}]" if len(_flat(c)) > 1 else label)

    def close(self, a, b, label, tol=1e-6):
        if not self._same_shape(a, b, label):
            return
        for i, (x, y) in enumerate(zip(_flat(a), _flat(b))):
            if x is None or y is None:
                ok = x is y
            else:
                x, y = float(x), float(y)
                ok = x == y or (math.isnan(x) and math.isnan(y)) or abs(x - y) <= max(tol / 2, 1e-12 * max(abs(x), abs(y)))
            if not ok:
                self.failures.append(f"{label} [element {i}]: got {x!r}, expected {y!r}")
                return

    def le(self, a, b, label, tol=1e-6):
        a2, b2 = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        for i, (x, y) in enumerate(zip(_flat(a2), _flat(b2))):
            if not x <= y + max(tol / 2, 1e-12 * max(abs(x), abs(y))):
                self.failures.append(f"{label} [element {i}]: {x!r} > {y!r}")
                return

    def lt(self, a, b, label, tol=0.0):
        a2, b2 = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        for i, (x, y) in enumerate(zip(_flat(a2), _flat(b2))):
            if not x < y + tol / 2:
                self.failures.append(f"{label} [element {i}]: {x!r} >= {y!r}")
                return
