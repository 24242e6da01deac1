"""Symbolic scalars over z3 terms, path exploration by re-execution, queries.

Numbers are z3 Int / Real terms (mathematical integers and reals; IEEE rounding is outside the model unless a harness
uses the FP encoding).  Transcendental functions are fresh real variables tied together by lemmas that are true for the
real function (see `Ctx.transc`), so every query is quantifier free (N)RA / LIRA.
"""
import math
import numbers
import time
from fractions import Fraction

import numpy as np
import z3

CTX = None  # the active exploration context


class PathInfeasible(BaseException):
    """raised to abandon a path whose condition is unsatisfiable / excluded by an assumption"""


class Unsupported(Exception):
    """the code used an operation the engine cannot encode"""


class Undecided(BaseException):
    """a query the solver could not decide and without which the path cannot go on"""


# --------------------------------------------------------------------------------------------------------------------
# concrete <-> term


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def is_num(x):
    return isinstance(x, (int, float, np.number, np.bool_, bool, Fraction))


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return Fraction(float(x))


def rv(fr):
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}" if fr.denominator != 1 else str(fr.numerator))


def to_real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def as_int_like(x):
    return isinstance(x, (bool, np.bool_, int, np.integer))


def term(x, real=False):
    """z3 arithmetic term for a symbolic or finite concrete number"""
    if isinstance(x, Sym):
        return to_real(x.t) if real else x.t
    if isinstance(x, SymBool):
        one, zero = (z3.RealVal(1), z3.RealVal(0)) if real else (z3.IntVal(1), z3.IntVal(0))
        return z3.If(x.t, one, zero)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return term(x.item(), real)
    if as_int_like(x):
        return z3.RealVal(int(x)) if real else z3.IntVal(int(x))
    if is_num(x):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            raise Unsupported(f"non-finite constant {x} in a term")
        return rv(frac(x))
    raise Unsupported(f"cannot turn {type(x)} into a term")


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, Sym):
        return z3.Not(x.t == 0)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return bterm(x.item())
    return z3.BoolVal(bool(x))


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def const_of(t):
    """Fraction if the term is a numeral"""
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def mknum(t):
    c = const_of(t)
    if c is not None:
        if t.sort() == z3.IntSort():
            return int(c)
        f = float(c)
        if Fraction(f) == c:
            return f
    return Sym(t)


def simp(t):
    return z3.simplify(t)


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def _coerce(o):
    """other operand -> number / Sym / SymBool or None"""
    if isinstance(o, (Sym, SymBool)) or is_num(o):
        return o
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return _coerce(o.item())
    return None


TEXT = None         # a list while formatted numbers are read back (harness c28): text holds the index of the value
TOKEN0 = 1000000


def token(x):
    TEXT.append(x)
    return float(TOKEN0 + len(TEXT) - 1)


def read_number(text):
    """the value a formatted number stands for"""
    v = float(text)
    if TEXT is not None and abs(v) >= TOKEN0:
        return TEXT[int(abs(v)) - TOKEN0] if v > 0 else -TEXT[int(abs(v)) - TOKEN0]
    return v


class SymBool:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return self.t.hash()

    def _bin(self, o, f):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return mkbool(simp(f(self.t, bterm(o))))

    def __and__(self, o): return self._bin(o, lambda a, b: z3.And(a, b))
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: z3.Or(a, b))
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: z3.Xor(a, b))
    __rxor__ = __xor__
    def __invert__(self): return mkbool(simp(z3.Not(self.t)))
    def logical_not(self): return ~self

    def num(self):
        return Sym(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return ite(self, o, 0 if not isinstance(o, float) else 0.0)
    __rmul__ = __mul__
    def __truediv__(self, o): return self.num() / o
    def __rtruediv__(self, o): return o / self.num()
    def __neg__(self): return -self.num()
    def __eq__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(simp(self.t == bterm(o)))
        return self.num() == o
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __repr__(self): return f"SymBool({str(self.t)[:80]})"
    def __format__(self, spec): return repr(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.function_dispatch(func, types, args, kwargs)

    # numpy scalar api
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self
    def astype(self, dt, **k):
        from . import arr
        return arr.cast_scalar(self, dt)


class Sym:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @property
    def is_int(self):
        return self.t.sort() == z3.IntSort()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return self.t.hash()

    def __repr__(self):
        return f"Sym({str(self.t)[:80]})"

    def __format__(self, spec):
        if TEXT is not None:
            return format(token(self), spec)
        return repr(self)

    def __bool__(self):
        return CTX.branch(z3.Not(self.t == 0))

    # arithmetic -----------------------------------------------------------------------------------------------------
    def _ar(self, o, f, rev=False):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymBool):
            o = o.num()
        a, b = (o, self) if rev else (self, o)
        ints = (self.is_int and (as_int_like(o) or (isinstance(o, Sym) and o.is_int)))
        return f(a, b, ints)

    def __add__(self, o):
        o = _coerce(o)
        if _nonfinite(o): return float(o)
        return self._ar(o, _add)
    def __radd__(self, o):
        o = _coerce(o)
        if _nonfinite(o): return float(o)
        return self._ar(o, _add, True)
    def __sub__(self, o):
        o = _coerce(o)
        if _nonfinite(o): return -float(o)
        return self._ar(o, _sub)
    def __rsub__(self, o):
        o = _coerce(o)
        if _nonfinite(o): return float(o)
        return self._ar(o, _sub, True)
    def __mul__(self, o):
        o = _coerce(o)
        if _nonfinite(o): return _mulinf(self, o)
        return self._ar(o, _mul)
    def __rmul__(self, o):
        o = _coerce(o)
        if _nonfinite(o): return _mulinf(self, o)
        return self._ar(o, _mul, True)
    def __truediv__(self, o):
        o = _coerce(o)
        if _nonfinite(o): return float('nan') if math.isnan(o) else 0.0
        return self._ar(o, _div)
    def __rtruediv__(self, o):
        o = _coerce(o)
        if _nonfinite(o): return _mulinf(self, o)
        return self._ar(o, _div, True)
    def __floordiv__(self, o): return self._ar(o, _floordiv)
    def __rfloordiv__(self, o): return self._ar(o, _floordiv, True)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def __mod__(self, o): return self._ar(o, _mod)
    def __rmod__(self, o): return self._ar(o, _mod, True)
    def __pow__(self, o): return self._ar(o, _pow)
    def __rpow__(self, o): return self._ar(o, _pow, True)
    def __neg__(self): return mknum(simp(-self.t))
    def __pos__(self): return self
    def __abs__(self):
        return mknum(z3.If(self.t >= 0, self.t, -self.t))

    # comparison -----------------------------------------------------------------------------------------------------
    def _cmp(self, o, f, name):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            return getattr(0.0, name)(float(o))
        if isinstance(o, SymBool):
            o = o.num()
        ints = self.is_int and (as_int_like(o) or (isinstance(o, Sym) and o.is_int))
        return mkbool(simp(f(term(self, not ints), term(o, not ints))))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, '__lt__')
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, '__le__')
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, '__gt__')
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, '__ge__')
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, '__eq__')
        return r
    def __ne__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(a == b), '__ne__')

    # conversion -----------------------------------------------------------------------------------------------------
    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.concretise_int(self.t)

    def __int__(self):
        if self.is_int:
            return CTX.concretise_int(self.t)
        return CTX.concretise_int(simp(_trunc(self.t)))

    def __float__(self):
        if TEXT is not None:
            return token(self)
        raise Unsupported("float() of a symbolic value inside C code")

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            r = round_half_even(self)
            return r if nd is None else r * 1.0
        return round_half_even(self * 10 ** nd) / 10 ** nd

    def __trunc__(self): return mknum(simp(_trunc(self.t))) if not self.is_int else self
    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)
    def is_integer(self):
        return True if self.is_int else mkbool(z3.IsInt(self.t))

    # numpy scalar api
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self): return np.dtype(int if self.is_int else float)
    @property
    def real(self): return self
    def item(self): return self
    def copy(self): return self
    def tolist(self): return self
    def conjugate(self): return self
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def round(self, decimals=0): return self.__round__(decimals)
    def squeeze(self): return self

    def flatten(self):
        from . import arr
        return arr.asarr([self])
    ravel = flatten

    def astype(self, dt, **k):
        from . import arr
        return arr.cast_scalar(self, dt)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.function_dispatch(func, types, args, kwargs)


numbers.Real.register(Sym)


def _trunc(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def _c(x):
    """constant Fraction of an operand or None"""
    if isinstance(x, Sym):
        return const_of(x.t)
    return frac(x)


def _add(a, b, ints):
    if not isinstance(a, Sym) and a == 0 and (ints or not b.is_int):
        return b
    if not isinstance(b, Sym) and b == 0 and (ints or not a.is_int):
        return a
    return mknum(simp(term(a, not ints) + term(b, not ints)))


def _sub(a, b, ints):
    if not isinstance(b, Sym) and b == 0 and (ints or not a.is_int):
        return a
    return mknum(simp(term(a, not ints) - term(b, not ints)))


def _mul(a, b, ints):
    ca, cb = _c(a), _c(b)
    if ca == 0 or cb == 0:
        return 0 if ints else 0.0
    if ca == 1 and (ints or not b.is_int):
        return b
    if cb == 1 and (ints or not a.is_int):
        return a
    ta, tb = term(a, not ints), term(b, not ints)
    if ca is None and cb is None and CTX is not None:
        # product of ite(c, const, const) with something: push the product into the ite
        for u, v in ((ta, tb), (tb, ta)):
            if z3.is_app_of(u, z3.Z3_OP_ITE) and const_of(u.arg(1)) is not None and const_of(u.arg(2)) is not None:
                return mknum(z3.If(u.arg(0), simp(u.arg(1) * v), simp(u.arg(2) * v)))
    return mknum(simp(ta * tb))


def _mulinf(s, inf):
    inf = float(inf)
    if math.isnan(inf):
        return inf
    if CTX.branch(term(s, True) > 0):
        return inf
    if CTX.branch(term(s, True) < 0):
        return -inf
    return float('nan')


def _div(a, b, ints):
    cb = _c(b)
    if cb is not None:
        if cb == 0:
            return _divzero(a)
        return mknum(simp(term(a, True) * rv(1 / cb)))
    tb = term(b, True)
    if CTX.branch(tb == 0):
        return _divzero(a)
    ca = _c(a)
    if ca == 0:
        return 0.0
    return mknum(CTX.quotient(term(a, True), tb))


def _divzero(a):
    if CTX.divzero == 'raise':
        raise ZeroDivisionError('division by zero')
    CTX.note('division by zero reached')
    if not isinstance(a, Sym):
        a = float(a)
        return float('nan') if a == 0 or a != a else math.copysign(math.inf, a)
    return _mulinf(a, math.inf)


def _floordiv(a, b, ints):
    cb = _c(b)
    if cb is None or cb <= 0:
        if ints:
            raise Unsupported("floor division by a symbolic or non-positive integer")
        return floor(_div(a, b, False))
    if ints:
        return mknum(simp(term(a) / term(b)))
    r = z3.ToInt(term(a, True) * rv(1 / cb))
    return mknum(simp(z3.ToReal(r)))


def _mod(a, b, ints):
    cb = _c(b)
    if cb is None:
        q = _div(a, b, False)
        return a - floor(q) * b
    if cb <= 0:
        raise Unsupported("modulo by a non-positive value")
    if ints:
        return mknum(simp(term(a) % term(b)))
    return a - mknum(z3.ToReal(z3.ToInt(term(a, True) * rv(1 / cb)))) * b


def _pow(a, b, ints):
    cb = _c(b)
    if cb is not None and cb.denominator == 1 and abs(cb) <= 8:
        n = int(cb)
        if n == 0:
            return 1 if ints else 1.0
        r = a
        for _ in range(abs(n) - 1):
            r = r * a
        if not ints and isinstance(r, Sym) and r.is_int:
            r = Sym(to_real(r.t))
        return r if n > 0 else 1.0 / r
    if cb == Fraction(1, 2):
        return fn_sqrt(a)
    if cb == Fraction(-1, 2):
        return 1.0 / fn_sqrt(a)
    # a ** b = exp(b * log a) for a > 0
    ta = term(a, True)
    if not CTX.branch(ta > 0):
        if CTX.branch(ta == 0):
            if CTX.branch(term(b, True) > 0):
                return 0.0
            return 1.0 if CTX.branch(term(b, True) == 0) else math.inf
        raise Unsupported("power of a negative base with a symbolic or fractional exponent")
    return fn_exp(b * fn_log(a))


def ite(c, a, b):
    """value-level if-then-else without forking"""
    if not isinstance(c, SymBool):
        if isinstance(c, Sym):
            c = mkbool(simp(bterm(c)))
            return ite(c, a, b)
        return a if c else b
    if a is b:
        return a
    isb = lambda v: isinstance(v, (SymBool, bool, np.bool_))
    if isb(a) and isb(b):
        return mkbool(simp(z3.If(c.t, bterm(a), bterm(b))))
    if _nonfinite(a) or _nonfinite(b) or not (is_sym(a) or is_num(a)) or not (is_sym(b) or is_num(b)):
        return a if CTX.branch(c.t) else b
    il = lambda v: as_int_like(v) or isinstance(v, SymBool) or (isinstance(v, Sym) and v.is_int)
    ints = il(a) and il(b)
    ta, tb = term(a, not ints), term(b, not ints)
    if ta.eq(tb):
        return a
    return Sym(z3.If(c.t, ta, tb))


def not_(x):
    if isinstance(x, SymBool):
        return ~x
    if isinstance(x, Sym):
        return mkbool(simp(x.t == 0))
    return not x


def and_(*xs):
    r = [bterm(x) for x in xs]
    if not any(is_sym(x) for x in xs):
        return all(bool(x) for x in xs)
    return mkbool(simp(z3.And(*r)))


def or_(*xs):
    if not any(is_sym(x) for x in xs):
        return any(bool(x) for x in xs)
    return mkbool(simp(z3.Or(*[bterm(x) for x in xs])))


def implies(a, b):
    return or_(not_(a), b)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    return ite(b < a, b, a)


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    return ite(b > a, b, a)


def floor(x):
    if not is_sym(x):
        return math.floor(x)
    if isinstance(x, SymBool) or x.is_int:
        return x
    return mknum(simp(z3.ToInt(x.t)))


def ceil(x):
    if not is_sym(x):
        return math.ceil(x)
    if isinstance(x, SymBool) or x.is_int:
        return x
    return mknum(simp(-z3.ToInt(-x.t)))


def round_half_even(x):
    if not is_sym(x):
        return round(x)
    if isinstance(x, SymBool) or x.is_int:
        return x
    r = z3.ToInt(x.t + z3.Q(1, 2))
    return mknum(simp(z3.If(z3.And(z3.ToReal(r) == x.t + z3.Q(1, 2), r % 2 == 1), r - 1, r)))


# --------------------------------------------------------------------------------------------------------------------
# transcendental functions: fresh variable per (function, argument) + true lemmas


def _fn(name):
    def f(x):
        if isinstance(x, SymBool):
            x = x.num()
        if not isinstance(x, Sym):
            return TR[name].num(float(x))
        return CTX.transc(name, term(x, True))
    f.__name__ = name
    return f


class TR_:
    """description of one transcendental function"""
    def __init__(self, num, mono=0, odd=False, even=False, at=(), lo=None, hi=None, strict=True, dom=None):
        self.num, self.mono, self.odd, self.even, self.at = num, mono, odd, even, at
        self.lo, self.hi, self.strict, self.dom = lo, hi, strict, dom


def _safe(f):
    def g(x):
        try:
            return f(x)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan
    return g


HALF_PI_LO, HALF_PI_HI = Fraction(math.pi) / 2, Fraction(math.nextafter(math.pi, 4)) / 2
TR = {
    'exp': TR_(_safe(math.exp), mono=1, at=((0, 1),), lo=0),
    'log': TR_(_safe(lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)), mono=1, at=((1, 0),),
               dom='pos'),
    'tanh': TR_(math.tanh, mono=1, odd=True, at=((0, 0),), lo=-1, hi=1),
    'arctan': TR_(math.atan, mono=1, odd=True, at=((0, 0),), lo=-HALF_PI_HI, hi=HALF_PI_HI),
    'sin': TR_(math.sin, odd=True, at=((0, 0),), lo=-1, hi=1, strict=False),
    'cos': TR_(math.cos, even=True, at=((0, 1),), lo=-1, hi=1, strict=False),
    'tan': TR_(math.tan, odd=True, at=((0, 0),)),
    'arcsin': TR_(_safe(math.asin), mono=1, odd=True, at=((0, 0),), lo=-HALF_PI_HI, hi=HALF_PI_HI, strict=False),
    'arccos': TR_(_safe(math.acos), mono=-1, at=((1, 0),), lo=0, hi=2 * HALF_PI_HI, strict=False),
    'erf': TR_(math.erf, mono=1, odd=True, at=((0, 0),), lo=-1, hi=1),
    'expit': TR_(_safe(lambda x: 1 / (1 + math.exp(-x))), mono=1, lo=0, hi=1),
}


def fn_exp(x):
    if isinstance(x, Sym):
        src = CTX.tr_of(simp(x.t))
        if src is not None and src[0] == 'log':
            return mknum(src[1])
    elif x == 0:
        return 1.0
    return _fn('exp')(x)


def fn_log(x):
    if isinstance(x, Sym):
        src = CTX.tr_of(simp(x.t))
        if src is not None and src[0] == 'exp':
            return mknum(src[1])
        if not CTX.branch(x.t > 0):
            return -math.inf if CTX.branch(x.t == 0) else math.nan
    return _fn('log')(x)


def _of_inverse(name):
    """sin, cos, tan of an inverse function are algebraic"""
    plain = _fn(name)

    def f(x):
        if isinstance(x, Sym):
            t = simp(x.t)
            for sign, u in ((1, t), (-1, simp(-t))):
                src = CTX.tr_of(u)
                if src is None or src[0] not in ('arcsin', 'arccos', 'arctan'):
                    continue
                z = mknum(src[1])
                inv = src[0]
                if inv == 'arctan':
                    if name == 'tan':
                        return z * sign
                    h = fn_sqrt(1 + z * z)
                    return 1 / h if name == 'cos' else z * sign / h
                o = fn_sqrt(1 - z * z)
                sn, cs = (z, o) if inv == 'arcsin' else (o, z)
                return cs if name == 'cos' else sn * sign if name == 'sin' else sn * sign / cs
        return plain(x)
    return f


fn_tanh, fn_arctan, fn_sin, fn_cos = _fn('tanh'), _fn('arctan'), _of_inverse('sin'), _of_inverse('cos')
fn_tan, fn_arcsin, fn_arccos, fn_erf = _of_inverse('tan'), _fn('arcsin'), _fn('arccos'), _fn('erf')
fn_expit = _fn('expit')


def fn_sqrt(x):
    if isinstance(x, SymBool):
        return x.num()
    if not isinstance(x, Sym):
        return math.sqrt(x) if x >= 0 else math.nan
    t = term(x, True)
    if CTX.branch(t < 0):
        if CTX.divzero == 'raise':
            raise ValueError('math domain error')
        return math.nan
    return CTX.sqrt(t)


def fn_hypot(a, b):
    if not is_sym(a) and not is_sym(b):
        return math.hypot(a, b)
    return fn_sqrt(a * a + b * b)


# --------------------------------------------------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = 0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.paths = self.infeasible = 0
        self.checks = self.discharged = 0
        self.notes = {}

    def as_dict(self):
        d = dict(self.__dict__)
        return d


class Ctx:
    """one exploration: all paths of one scenario"""

    def __init__(self, branch_timeout=4000, check_timeout=20000, max_paths=4000, deadline=None):
        self.stats = Stats()
        self.branch_timeout, self.check_timeout, self.max_paths = branch_timeout, check_timeout, max_paths
        self.deadline = deadline
        self.divzero = 'np'
        self.extra_lemmas = []   # refinement lemmas about transcendental functions, kept over paths (by key)
        self.point_lemmas = {}   # name -> set of points
        self.reset()

    def note(self, msg):
        self.stats.notes[msg] = self.stats.notes.get(msg, 0) + 1

    # ---- per path state
    def reset(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []          # decisions taken: (value, other_feasible)
        self.pc = []             # all constraints: assumptions + decisions
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout)
        self.fresh = 0
        self.trs = {}            # (name, arg.sexpr id) -> (var, arg)
        self.trvars = {}         # var id -> (name, argterm, var)
        self.quots = {}
        self.sqrts = {}
        self.cuts, self.nopc = {}, set()
        self.defs = []           # (var, kind, payload) in order of creation, for the numeric evaluator
        self.decided = {}        # term id -> bool, to keep repeated branches cheap
        self._keep = []

    def add(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def freshname(self, p):
        self.fresh += 1
        return f"{p}!{self.fresh}"

    # ---- solver access
    def _time(self, f):
        t0 = time.time()
        try:
            return f()
        finally:
            self.stats.solver_s += time.time() - t0

    def feasible(self, c):
        self.stats.branch_queries += 1
        r = self._time(lambda: self.solver.check(c))
        if r == z3.unknown:
            r = self.hard_check([*self.pc, c], self.branch_timeout * 3)[0]
        return r

    def hard_check(self, cs, timeout):
        """fresh-solver portfolio; returns (result, model or None)"""
        best = (z3.unknown, None)
        for tac in ('default', 'nlsat', 'nra'):
            s = None
            if tac == 'default':
                s = z3.Solver()
            elif tac == 'nlsat':
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
            else:
                s = z3.Tactic('qfnra').solver()
            try:
                s.set('timeout', int(timeout))
                s.add(*cs)
                r = self._time(s.check)
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return (r, None)
            if r == z3.sat:
                return (r, s.model())
        return best

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Undecided("deadline")

    def branch(self, t):
        """decide a symbolic condition on this path (forks)"""
        t = simp(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = t.get_id()
        if k in self.decided:
            return self.decided[k]
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append((v, False))
            if not isinstance(v, bool):
                raise RuntimeError('non-deterministic re-execution')
        else:
            self.check_deadline()
            rt = self.feasible(t)
            if rt == z3.unsat:
                # the path condition implies not t: no fork
                self.trace.append((False, False))
                self._remember(t, False)
                return False
            rf = self.feasible(z3.Not(t))
            if rf == z3.unsat:
                self.trace.append((True, False))
                self._remember(t, True)
                return True
            if z3.unknown in (rt, rf):
                self.note('branch feasibility unknown (both sides explored)')
            v = True
            self.trace.append((v, True))
        self.add(t if v else simp(z3.Not(t)))
        self._remember(t, v)
        return v

    def _remember(self, t, v):
        self._keep.append(t)
        self.decided[t.get_id()] = v

    def concretise_int(self, t):
        t = simp(t)
        c = const_of(t)
        if c is not None:
            return int(c)
        for _ in range(200):
            self.check_deadline()
            # the candidate value must be the same in the re-execution, hence deterministic: minimal feasible value
            v = self._min_value(t)
            if self.branch(t == v):
                return v
        raise Undecided("too many values for a symbolic index")

    def _min_value(self, t):
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append((v, False))
            if isinstance(v, bool):
                raise RuntimeError('non-deterministic re-execution')
            return v
        r = self._time(lambda: self.solver.check())
        self.stats.branch_queries += 1
        if r == z3.unsat:
            raise PathInfeasible()
        if r != z3.sat:
            r, m = self.hard_check(self.pc, self.branch_timeout * 3)
            if r != z3.sat:
                raise Undecided("no model for a symbolic index")
        else:
            m = self.solver.model()
        v = m.eval(t, model_completion=True).as_long()
        # descend to the smallest feasible value
        lo_step = 1
        while True:
            r = self._time(lambda: self.solver.check(t < v))
            self.stats.branch_queries += 1
            if r != z3.sat:
                self.trace.append((v, False))
                return v
            v = min(v - 1, self.solver.model().eval(t, model_completion=True).as_long())

    # ---- assumptions
    def assume(self, c):
        t = simp(bterm(c))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathInfeasible()
        self.add(t)
        if len(self.trace) >= len(self.prefix):
            if self._time(self.solver.check) == z3.unsat:
                raise PathInfeasible()

    # ---- derived operations
    def quotient(self, a, b):
        """a / b for b != 0 (already on the path)"""
        a, b = simp(a), simp(b)
        key = (a.get_id(), b.get_id())
        if key in self.quots:
            return self.quots[key]
        # cheap exact cancellations
        d = simp(a - b)
        if const_of(d) == 0:
            r = z3.RealVal(1)
        else:
            r = None
            for c in (2, -1, -2, Fraction(1, 2)):
                if const_of(simp(a - b * rv(Fraction(c)))) == 0:
                    r = rv(Fraction(c))
            if r is None:
                r = a / b
        self._keep += [a, b]
        self.quots[key] = r
        return r

    def sqrt(self, t):
        t = simp(t)
        c = const_of(t)
        if c is not None:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return mknum(rv(Fraction(n, d)))
            return math.sqrt(float(c))
        k = t.get_id()
        if k not in self.sqrts:
            v = z3.Real(self.freshname('sqrt'))
            self._keep.append(t)
            self.sqrts[k] = v
            self.defs.append((v, 'sqrt', t))
            self.add(v >= 0)
            self.add(v * v == t)
        return Sym(self.sqrts[k])

    def cut(self, values, facts, timeout=8000):
        """proof cut: facts(values) -> list of boolean terms that are proved about the symbolic values; afterwards the values are
        replaced by fresh variables about which only the proved facts are known. Facts that cannot be proved are dropped (with
        none proved the values stay as they are), so a cut never hides a counterexample: later failures are replayed."""
        vals = [v if is_sym(v) else v for v in values]
        key = tuple(v.t.get_id() if is_sym(v) else v for v in vals)
        if key in self.cuts:
            return self.cuts[key]
        if not any(is_sym(v) for v in vals):
            return vals
        fs = facts(vals)
        ok = []
        for f in fs:
            b = simp(z3.Not(bterm(f)))
            if z3.is_false(b):
                ok.append(True)
                continue
            self.check_deadline()
            self.stats.queries += 1
            self.solver.set('timeout', 3000)
            r = self._time(lambda: self.solver.check(b))
            self.solver.set('timeout', self.branch_timeout)
            if r == z3.unknown:
                r, _ = self.hard_check([*self.pc, b], timeout)
            k = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
            setattr(self.stats, k, getattr(self.stats, k) + 1)
            ok.append(r == z3.unsat)
        if not all(ok):
            out = vals
        else:
            out, same = [], {}
            for v in vals:
                if is_sym(v) and v.t.get_id() in same:
                    out.append(same[v.t.get_id()])
                elif is_sym(v):
                    n = z3.Real(self.freshname('cut'))
                    self.defs.append((n, 'cut', v.t))
                    out.append(Sym(n))
                    same[v.t.get_id()] = out[-1]
                else:
                    out.append(v)
            for f in facts(out):
                b = bterm(f)
                if not z3.is_true(simp(b)):
                    self.add(b)
                    self.nopc.add(b.get_id())
                    self._keep.append(b)
        self._keep.extend(v.t for v in vals if is_sym(v))
        self.cuts[key] = out
        return out

    def tr_of(self, t):
        e = self.trvars.get(t.get_id())
        return None if e is None else (e[0], e[1])

    def transc(self, name, t):
        t = simp(t)
        c = const_of(t)
        info = TR[name]
        if c is not None:
            for x, y in info.at:
                if c == x:
                    return float(y)
            return info.num(float(c))
        if name in ('log',):
            pass
        # canonical sign for odd / even functions
        neg = False
        if info.odd or info.even:
            nt = simp(-t)
            if (name, nt.get_id()) in self.trs and (name, t.get_id()) not in self.trs:
                t, neg = nt, info.odd
            self._keep.append(nt)
        key = (name, t.get_id())
        if key not in self.trs:
            v = z3.Real(self.freshname(name))
            self._keep.append(t)
            others = [e for k, e in self.trs.items() if k[0] == name]
            self.trs[key] = (v, t)
            self.trvars[v.get_id()] = (name, t, v)
            self.defs.append((v, name, t))
            for lem in self._lemmas(name, info, v, t, others):
                self.add(lem)
                # true of the function, not a condition of the path (strict bounds fail in floating point, tanh(40) == 1)
                self.nopc.add(lem.get_id())
                self._keep.append(lem)
        v = self.trs[key][0]
        return Sym(simp(-v)) if neg else Sym(v)

    def _lemmas(self, name, info, v, t, others):
        out = []
        lt = (lambda a, b: a < b) if info.strict else (lambda a, b: a <= b)
        if info.lo is not None:
            out.append(lt(rv(Fraction(info.lo)), v))
        if info.hi is not None:
            out.append(lt(v, rv(Fraction(info.hi))))
        pts = [(rv(Fraction(x)), rv(Fraction(y)), rv(Fraction(y))) for x, y in info.at]
        for p in sorted(self.point_lemmas.get(name, ())):
            y = info.num(float(p))
            if not math.isfinite(y):
                continue
            fy = Fraction(y)
            eps = abs(fy) * Fraction(1, 10 ** 13) + Fraction(1, 10 ** 300)
            pts.append((rv(p), rv(fy - eps), rv(fy + eps)))
        for x, ylo, yhi in pts:
            if info.mono == 1:
                out += [z3.Implies(t < x, v < yhi) if info.strict else z3.Implies(t <= x, v <= yhi),
                        z3.Implies(t > x, v > ylo) if info.strict else z3.Implies(t >= x, v >= ylo),
                        z3.Implies(t == x, z3.And(v >= ylo, v <= yhi))]
            elif info.mono == -1:
                out += [z3.Implies(t <= x, v >= ylo), z3.Implies(t >= x, v <= yhi)]
            elif name == 'cos' and 0 <= const_of(x) <= 3:      # decreasing on [0, pi]
                out += [z3.Implies(z3.And(0 <= t, t <= x), v >= ylo), z3.Implies(z3.And(x <= t, t <= 3), v <= yhi)]
            else:
                out.append(z3.Implies(t == x, z3.And(v >= ylo, v <= yhi)))
        for v2, t2 in others:
            if info.mono == 1:
                out += [z3.Implies(t < t2, v < v2), z3.Implies(t > t2, v > v2)]
            elif info.mono == -1:
                out += [z3.Implies(t < t2, v > v2), z3.Implies(t > t2, v < v2)]
            out.append(z3.Implies(t == t2, v == v2))
            if name in ('tanh', 'atan', 'arctan', 'sin', 'cos'):    # Lipschitz with constant 1
                out += [z3.Implies(t >= t2, z3.And(v - v2 <= t - t2, v2 - v <= t - t2)),
                        z3.Implies(t <= t2, z3.And(v2 - v <= t2 - t, v - v2 <= t2 - t))]
            if info.odd:
                out.append(z3.Implies(t == -t2, v == -v2))
                if info.mono == 1:
                    out += [z3.Implies(t < -t2, v < -v2), z3.Implies(t > -t2, v > -v2)]
            if info.even:
                out.append(z3.Implies(t == -t2, v == v2))
            if name == 'exp':
                # exp(a) * exp(b) = exp(a+b) for the common case b = -a
                out.append(z3.Implies(t == -t2, v * v2 == 1))
        if name in ('sin', 'cos'):
            other = 'cos' if name == 'sin' else 'sin'
            o = self.trs.get((other, t.get_id()))
            if o is not None:
                out.append(v * v + o[0] * o[0] == 1)
        if name == 'exp':
            out.append(v >= 1 + t)
            for (k, _), (lv, la) in list(self.trs.items()):
                if k == 'log':
                    out.append(z3.Implies(t == lv, v == la))
        if name == 'log':
            out.append(v <= t - 1)
            for (k, _), (ev, ea) in list(self.trs.items()):
                if k == 'exp':
                    out.append(z3.Implies(t == ev, v == ea))
        if name == 'tanh':
            out += [z3.Implies(t > 0, v < t), z3.Implies(t < 0, v > t)]
        return out

    # ---- numeric evaluation of terms under float inputs
    def evaluator(self, inputs):
        """inputs: name -> python number/bool ; returns function term -> float/bool"""
        env = dict(inputs)
        defs = {v.decl().name(): (kind, t) for v, kind, t in self.defs}
        cache = {}

        def ev(t):
            k = t.get_id()
            if k in cache:
                return cache[k]
            r = _ev(t)
            cache[k] = r
            return r

        def _ev(t):
            c = const_of(t)
            if c is not None:
                return float(c) if t.sort() == z3.RealSort() else int(c)
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
            kind = t.decl().kind()
            if kind == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
                n = t.decl().name()
                if n in env:
                    return env[n]
                if n in defs:
                    f, a = defs[n]
                    x = ev(a)
                    if f == 'cut':
                        r = x
                    elif f == 'sqrt':
                        r = math.sqrt(x) if x >= 0 else math.nan
                    else:
                        r = TR[f].num(x)
                    env[n] = r
                    return r
                raise KeyError(n)
            a = t.children()
            if kind == z3.Z3_OP_ITE:
                return ev(a[1]) if ev(a[0]) else ev(a[2])
            if kind == z3.Z3_OP_AND:
                return all(ev(x) for x in a)
            if kind == z3.Z3_OP_OR:
                return any(ev(x) for x in a)
            if kind == z3.Z3_OP_NOT:
                return not ev(a[0])
            if kind == z3.Z3_OP_IMPLIES:
                return (not ev(a[0])) or ev(a[1])
            vs = [ev(x) for x in a]
            if kind == z3.Z3_OP_XOR:
                return bool(vs[0]) != bool(vs[1])
            if kind == z3.Z3_OP_ADD:
                return sum(vs[1:], vs[0])
            if kind == z3.Z3_OP_MUL:
                r = vs[0]
                for x in vs[1:]:
                    r = r * x
                return r
            if kind == z3.Z3_OP_SUB:
                r = vs[0]
                for x in vs[1:]:
                    r = r - x
                return r
            if kind == z3.Z3_OP_UMINUS:
                return -vs[0]
            if kind == z3.Z3_OP_DIV:
                return vs[0] / vs[1] if vs[1] != 0 else math.nan
            if kind == z3.Z3_OP_IDIV:
                return vs[0] // vs[1]
            if kind in (z3.Z3_OP_MOD, z3.Z3_OP_REM):
                return vs[0] % vs[1]
            if kind == z3.Z3_OP_POWER:
                return vs[0] ** vs[1]
            if kind == z3.Z3_OP_TO_REAL:
                return float(vs[0])
            if kind == z3.Z3_OP_TO_INT:
                return math.floor(vs[0])
            if kind == z3.Z3_OP_IS_INT:
                return vs[0] == math.floor(vs[0])
            if kind == z3.Z3_OP_LE:
                return vs[0] <= vs[1]
            if kind == z3.Z3_OP_LT:
                return vs[0] < vs[1]
            if kind == z3.Z3_OP_GE:
                return vs[0] >= vs[1]
            if kind == z3.Z3_OP_GT:
                return vs[0] > vs[1]
            if kind == z3.Z3_OP_EQ:
                return vs[0] == vs[1]
            if kind == z3.Z3_OP_DISTINCT:
                return len(set(vs)) == len(vs)
            raise Unsupported(f"evaluator: {t.decl()}")

        return ev
