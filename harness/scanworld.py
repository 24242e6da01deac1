"""Arbitrary (symbolic) parts of a scan sensor: barrier functions, peaks, final rise and deformations whose values are unconstrained inputs;
every value is a function of the arguments the code passed."""
import numpy as np

from .simworld import World, flat, key, snap

NAMES = ('dot', 'barrier1', 'barrier2')


def parts():
    from simcats.sensor import SensorPeakInterface, SensorRiseInterface
    from simcats.sensor.barrier_function._barrier_function_interface import BarrierFunctionInterface
    from simcats.sensor.deformation import SensorPeakDeformationInterface

    class Barrier(BarrierFunctionInterface):
        def __init__(self, w, i, lo=0, hi=4):
            self.w, self.i, self.lo, self.hi = w, i, lo, hi
            e = w.e
            self.po, self.fc = e.real(f'po{i}', -4, 4), e.real(f'fc{i}', -4, 4)

        @property
        def pinch_off(self):
            return self.po

        @property
        def fully_conductive(self):
            return self.fc

        def get_value(self, potential):
            self.w.log.append(dict(what=f'barrier{self.i}', inp=snap(potential)))
            return each(self.w, f'b{self.i}_', potential, self.lo, self.hi)

    class Peak(SensorPeakInterface):
        def __init__(self, w, i, mu0=None, lo=0, hi=4):
            self.w, self.i, self.lo, self.hi = w, i, lo, hi
            self.m = w.e.real(f'mu{i}', -4, 4) if mu0 is None else mu0

        @property
        def mu0(self):
            return self.m

        @mu0.setter
        def mu0(self, v):
            self.m = v

        def sensor_function(self, mu_sens):
            self.w.log.append(dict(what=f'peak{self.i}', inp=snap(mu_sens), mu0=self.m))
            return each(self.w, f'p{self.i}_', mu_sens, self.lo, self.hi, self.m)

    class Rise(SensorRiseInterface):
        def __init__(self, w, lo=0, hi=4):
            self.w, self.lo, self.hi = w, lo, hi

        @property
        def fully_conductive(self):
            return 0.0

        def sensor_function(self, mu_sens, offset):
            self.w.log.append(dict(what='rise', inp=snap(mu_sens), offset=offset))
            return each(self.w, 'r_', mu_sens, self.lo, self.hi, offset)

    class Deformation(SensorPeakDeformationInterface):
        def __init__(self, w, i):
            super().__init__()
            self.w, self.i = w, i

        def calc_mu(self, dist, mu0):
            self.w.log.append(dict(what=f'deformation{self.i}', dist=snap(dist), mu0=mu0, sensor=self.sensor))
            return each(self.w, f'd{self.i}_', dist, -4, 4, mu0)

    class NS:
        pass
    ns = NS()
    ns.Barrier, ns.Peak, ns.Rise, ns.Deformation = Barrier, Peak, Rise, Deformation
    return ns


def each(w, tag, x, lo, hi, *more):
    """one unconstrained value per element, a function of the element (and the further arguments)"""
    def one(v):
        k = (tag, key(v, *more))
        if k not in w.memo:
            apart(w, tag, (v,) + more)
            w.n += 1
            w.memo[k] = w.e.real(f'{tag}{w.n}', lo, hi)
        return w.memo[k]
    if np.ndim(x) == 0:
        return one(flat(x)[0] if isinstance(x, np.ndarray) else x)
    out = np.empty(np.shape(x), dtype=object)
    for p in np.ndindex(*np.shape(x)):
        out[p] = one(x[p])
    return w.e.array(out)


def apart(w, tag, args):
    """prefer replays in which the arguments of a stub function differ"""
    seen = w.__dict__.setdefault('args', {}).setdefault(tag, [])
    args = [W for v in args for W in flat(v)]
    for old in seen[-3:]:
        ds = [u - v for u, v in zip(old, args)]
        if any(getattr(d, 't', None) is not None for d in ds):
            w.e.prefer(w.e.or_(*[w.e.or_(d >= 0.01, d <= -0.01) for d in ds]))
    seen.append(args)


def lin(g, n, k):
    return g[0] if n == 1 else (g[0] * (n - 1 - k) + g[1] * k) / (n - 1)


def ends(g):
    """(first, last) voltage of a gate: swept, fixed or unset"""
    if g is None:
        return (0.0, 0.0)
    return (g[0], g[1]) if isinstance(g, np.ndarray) else (g, g)


def pixel_volts(shape, p, gates):
    """voltages of g1, g2, sensor g1, sensor g2 at pixel p"""
    out = []
    for i, g in enumerate(gates):
        ax = 0 if len(shape) == 1 else 1 - i % 2
        out.append(lin(ends(g), shape[ax], p[ax]))
    return out


def dot3(a, b):
    r = 0.0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def potential_at(k, al, occ, v):
    """potential k (dot, barrier1, barrier2) for given occupations and voltages; al = dict of nested lists"""
    return al['off'][k] + dot3(al['dot'][k], occ) + dot3(al['gate'][k], v[:2]) + dot3(al['sens'][k], v[2:])


def working_point(al, occ, g, pots):
    """sensor gate voltages at which both barriers have the given potentials; only the sensor gate lever-arms must be concrete"""
    r = [pots[i] - al['off'][i + 1] - dot3(al['dot'][i + 1], occ) - dot3(al['gate'][i + 1], g) for i in (0, 1)]
    (a, b), (c, d) = al['sens'][1], al['sens'][2]
    det = a * d - b * c
    return (d * r[0] - b * r[1]) / det, (a * r[1] - c * r[0]) / det
