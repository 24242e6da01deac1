"""Histories: the result of a public call depends on its arguments and the configuration of its object at that moment, not on earlier calls,
earlier configurations or other objects. Every scenario computes the results of two argument sets / configurations on fresh objects of a fresh
package and compares the same calls on one object that lives through several of them."""
import math

import numpy as np

from symx.harness import Scenario
from . import tctworld as T

V = 8
BOUNDS = ('two argument sets (other sizes, 1D/2D, ranges, values) and two configurations per object: each alone on a fresh package, then in turn on one object, on two objects, '
          'and with arguments, attributes and owned arrays changed in place between two calls; values arbitrary reals where the function is algebraic, otherwise concrete')


class World:
    """make(**attrs) -> object, call(object, **args) -> result (arrays, numbers or nested tuples). args / attrs: name -> (base, other)"""
    attrs = {}
    args = {}
    copies = True        # arrays given as arguments may be changed by the caller afterwards

    def make(self, **attrs):
        return None

    def call(self, o, **args):
        raise NotImplementedError

    def set(self, o, name, value):
        setattr(o, name, value)

    def live(self, o, name):
        """the array behind an attribute, when the object hands it out for modification"""
        return None


def dup(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(dup(v) for v in x)
    if isinstance(x, dict):
        return {k: dup(v) for k, v in x.items()}
    if callable(x) and getattr(x, 'fresh', False):
        return x()
    return x


def fresh(f):
    """a configuration value that has to be built anew for every object"""
    f.fresh = True
    return f


def same(e, got, want, label):
    if isinstance(want, (tuple, list)):
        e.check(isinstance(got, (tuple, list)) and len(got) == len(want), label)
        for g, w in zip(got, want):
            same(e, g, w, label)
    elif want is None or isinstance(want, (str, bool)):
        e.check(got is want or got == want, label)
    else:
        e.close(got, want, label, 1e-9)


def story(e, world, how, what):
    w = world(e)
    base, other = {k: v[0] for k, v in w.args.items()}, {k: v[1] for k, v in w.args.items()}
    abase, aother = {k: v[0] for k, v in w.attrs.items()}, {k: v[1] for k, v in w.attrs.items()}

    def alone(attrs, args):
        e.reset()
        r = dup(w.call(w.make(**dup(attrs)), **dup(args)))
        e.reset()
        return r

    def again(o, args, want, label):
        same(e, w.call(o, **dup(args)), want, label)
    plain = alone(abase, base)
    e.observe('plain', plain)
    if how == 'arg':
        alt = dict(base, **{k: other[k] for k in what})
        want = alone(abase, alt)
        o = w.make(**dup(abase))
        again(o, alt, want, 'the result does not depend on the calls before')
        again(o, base, plain, 'the result does not depend on the calls before')
        again(o, alt, want, 'the result does not depend on the calls before')
        again(w.make(**dup(abase)), base, plain, 'the result does not depend on calls of other objects')
    elif how == 'inplace':
        want = alone(abase, dict(base, **{k: other[k] for k in what}))
        o = w.make(**dup(abase))
        args = dup(base)
        same(e, w.call(o, **args), plain, 'a call does not depend on the calls before')
        for k in what:
            args[k][...] = dup(other[k])
        same(e, w.call(o, **args), want, 'the result follows arguments changed in place between two calls')
    elif how in ('attr', 'live'):
        want = alone(dict(abase, **{k: aother[k] for k in what}), base)
        o = w.make(**dup(abase))
        again(o, base, plain, 'the result does not depend on the calls before')

        def apply(vals):
            for k in what:
                if how == 'attr':
                    w.set(o, k, dup(vals[k]))
                else:
                    w.live(o, k)[...] = dup(vals[k])
        apply(aother)
        again(o, base, want, 'the result follows the configuration changed between two calls')
        apply(abase)
        again(o, base, plain, 'the result follows the configuration changed between two calls')
    elif how == 'own':
        vals = dup(abase)
        o = w.make(**vals)
        again(o, base, plain, 'the result does not depend on the calls before')
        for k in what:
            vals[k][...] = dup(aother[k])
        again(o, base, plain, 'changing the array an object was configured with does not change the object')
    elif how == 'two':
        alt = dict(abase, **{k: aother[k] for k in what})
        want = alone(alt, base)
        o, p = w.make(**dup(abase)), w.make(**dup(alt))
        again(o, base, plain, 'objects do not influence each other')
        again(p, base, want, 'objects do not influence each other')
        again(o, base, plain, 'objects do not influence each other')


def symbolic(x):
    return isinstance(x, np.ndarray)


def for_world(name, world, attrs=(), args=(), inplace=(), live=(), own=(), pairs=(), **kw):
    S = []

    def add(how, what):
        S.append(Scenario(f'history {name} {how} {"+".join(what)}', story, dict(world=world, how=how, what=tuple(what)), **kw))
    for a in args:
        add('arg', [a])
    if len(args) > 1:
        add('arg', list(args))
    for a in pairs:
        add('arg', list(a))
    for a in inplace:
        add('inplace', [a])
    for a in attrs:
        add('attr', [a])
        add('two', [a])
    if len(attrs) > 1:
        add('attr', list(attrs))
        add('two', list(attrs))
    for a in live:
        add('live', [a])
    for a in own:
        add('own', [a])
    return S


# ---- sensors ----------------------------------------------------------------------------------------------------------
class GenericPotential(World):
    shapes = ((2, 3), (3, 2))

    def __init__(self, e):
        r = e.reals
        self.attrs = {'alpha_dot': (r('ad', 2, -V, V), r('ad_', 2, -V, V)), 'alpha_gate': (r('ag', 2, -V, V), r('ag_', 2, -V, V)),
                      'offset_mu_sens': (e.real('off', -V, V), e.real('off_', -V, V))}
        self.args = {'occupations': (r('o', self.shapes[0] + (2,), 0, V), r('o_', self.shapes[1] + (2,), 0, V)),
                     'volt_limits_g1': (r('g1', 2, -V, V), r('g1_', 2, -V, V)), 'volt_limits_g2': (r('g2', 2, -V, V), r('g2_', 2, -V, V))}

    def make(self, **k):
        from simcats.sensor import SensorGeneric
        return SensorGeneric(**k)

    def call(self, o, **k):
        return o.sensor_potential(**k)

    def live(self, o, n):
        return getattr(o, n)


class GenericPotential1(GenericPotential):
    shapes = ((3,), (5,))


class GenericPotential12(GenericPotential):
    shapes = ((3,), (2, 3))


def peak(kind, mu0, w, h, o):
    def f():
        from simcats.sensor import SensorPeakLorentzian, SensorPeakGaussian
        return SensorPeakLorentzian(mu0=mu0, gamma=w, height=h, offset=o) if kind == 'L' else SensorPeakGaussian(mu0=mu0, sigma=w, height=h, offset=o)
    return f


class PeakCurve(World):
    kind = 'L'

    def __init__(self, e):
        n = 'gamma' if self.kind == 'L' else 'sigma'
        self.attrs = {k: (e.real(k, -V, V), e.real(k + '_', -V, V)) for k in ('mu0', 'height', 'offset')}
        self.attrs[n] = (e.real(n, 0.125, V), e.real(n + '_', 0.125, V))
        self.args = {'mu_sens': (e.reals('x', (2, 2), -V, V), e.reals('x_', (2, 2), -V, V))}

    def make(self, **k):
        from simcats.sensor import SensorPeakLorentzian, SensorPeakGaussian
        return (SensorPeakLorentzian if self.kind == 'L' else SensorPeakGaussian)(**k)

    def call(self, o, **k):
        return o.sensor_function(**k)


class PeakCurveG(PeakCurve):
    kind = 'G'


class GenericResponse(World):
    def __init__(self, e):
        def pk(t):
            ps = [peak(k, e.real(f'm{i}{t}', -V, V), e.real(f'w{i}{t}', 0.125, V), e.real(f'h{i}{t}', -V, V), e.real(f'o{i}{t}', -V, V)) for i, k in enumerate('LG')]
            return fresh(lambda: [p() for p in ps])
        self.attrs = {'sensor_peak_function': (pk(''), pk('_'))}
        self.args = {'mu_sens': (e.reals('x', (2, 2), -V, V), e.reals('x_', (3,), -V, V))}

    def make(self, **k):
        from simcats.sensor import SensorGeneric
        return SensorGeneric(**k)

    def call(self, o, **k):
        return o.sensor_response(**k)


class GenericPeakChange(GenericResponse):
    """the peaks are changed through the object the sensor hands out"""

    def __init__(self, e):
        super().__init__(e)
        self.args['mu_sens'] = (self.args['mu_sens'][0],) * 2
        self.attrs = {k: (e.real(k, 0.125, V), e.real(k + '_', 0.125, V)) for k in ('mu0', 'height', 'offset', 'gamma')}

    def make(self, **k):
        from simcats.sensor import SensorGeneric, SensorPeakLorentzian
        return SensorGeneric(sensor_peak_function=[SensorPeakLorentzian(), SensorPeakLorentzian(**k)])

    def set(self, o, n, v):
        setattr(o.sensor_peak_function[1], n, v)


class ScanPotential(World):
    kinds = 'ffss'
    shapes = ((2, 3), (3, 2))

    def __init__(self, e):
        r = e.reals
        self.e = e
        self.attrs = {n: (r(n, (3, 2), -V, V), r(n + '_', (3, 2), -V, V)) for n in ('alpha_dot', 'alpha_gate', 'alpha_sensor_gate')}
        self.attrs['offset_mu_sens'] = (r('off', 3, -V, V), r('off_', 3, -V, V))
        self.args = {'occupations': (r('o', self.shapes[0] + (2,), 0, V), r('o_', self.shapes[1] + (2,), 0, V))}
        for k, n in zip(self.kinds, ('volt_limits_g1', 'volt_limits_g2', 'volt_limits_sensor_g1', 'volt_limits_sensor_g2')):
            s = 2 if k == 's' else None
            self.args[n] = (r(n, 2, -V, V), r(n + '_', 2, -V, V)) if s else (e.real(n, -V, V), e.real(n + '_', -V, V))

    def parts(self):
        from . import scanworld as W
        from .simworld import World as SW
        if not hasattr(self, 'P'):
            self.sw, self.P = SW(self.e), W.parts()
        return self.sw, self.P

    def make(self, **k):
        from simcats.sensor import SensorScanSensorGeneric
        w, P = self.parts()
        return SensorScanSensorGeneric(barrier_functions=(P.Barrier(w, 1), P.Barrier(w, 2)), sensor_peak_function=P.Peak(w, 0), **k)

    def call(self, o, **k):
        return o.sensor_potential(**k)

    def live(self, o, n):
        return getattr(o, n)


class ScanPotentialP(ScanPotential):
    kinds = 'ssff'


class ScanPotential1(ScanPotential):
    shapes = ((3,), (5,))


SENS = ([[1, 0], [1, 0.5], [-0.25, 1]], [[0, 1], [1, 0], [0.5, 2]])


class ScanResponse(World):
    """potentials of one scan and its response (peaks, deformation, barriers, final rise are real objects)"""
    label = False
    shape, shape2 = (2, 2), (2, 2)
    defo = True

    def __init__(self, e):
        self.e = e
        f = e.array
        h, h_ = e.real('height', 0.5, 1.5), e.real('height_', 1.5, 3)
        occ = np.arange(int(np.prod(self.shape)) * 2).reshape(self.shape + (2,)) % 3 * 0.5
        occ2 = np.arange(int(np.prod(self.shape2)) * 2)[::-1].reshape(self.shape2 + (2,)) % 4 * 0.5
        self.args = {'occupations': (f(occ), f(occ2)), 'volt_limits_g1': (0.5, -0.25), 'volt_limits_g2': (0.25, 1.0),
                     'volt_limits_sensor_g1': (f([-1.0, 1.5]), f([-0.5, 2.0])), 'volt_limits_sensor_g2': (f([-1.25, 1.0]), f([-2.0, 0.5]))}
        self.attrs = {'alpha_dot': (f([[-.1, -.05], [-.02, -.01], [-.03, -.04]]), f([[-.2, -.15], [-.12, -.01], [-.03, -.14]])),
                      'alpha_gate': (f([[.1, .2], [.05, .1], [.02, .03]]), f([[.2, .1], [.15, .1], [.12, .03]])),
                      'alpha_sensor_gate': (f(SENS[0]), f([[1, .25], [1, .25], [-.5, 1]])), 'offset_mu_sens': (f([0.0, .1, .2]), f([.5, .2, -.1])),
                      'sensor_peak_function': (self.peaks(0.0, h), self.peaks(0.5, h_)), 'barrier_functions': (self.bars(3.0), self.bars(1.5)),
                      'final_rise': (self.rise(1.0), self.rise(2.0))}
        if self.defo:
            self.attrs['deformation'] = (self.defs(4.0), self.defs(-1.5))

    @staticmethod
    def peaks(m, h):
        return fresh(lambda: [peak('L', m - 1.0, 0.5, h, 0.0)(), peak('G', m + 0.5, 0.75, 0.5 * h, 0.1)()])

    @staticmethod
    def bars(g):
        def f():
            from simcats.sensor.barrier_function import BarrierFunctionGLF
            return (BarrierFunctionGLF(0.05, 0.95, 0, 1, g, 1, 1), BarrierFunctionGLF(0.1, 0.9, 0, 2, g + 1, 1, 1, offset=-0.5))
        return fresh(f)

    @staticmethod
    def rise(a):
        def f():
            from simcats.sensor import SensorRiseGLF
            return SensorRiseGLF(mu0=0.25, asymptote_left=0, asymptote_right=a, growth_rate=2, asymmetry=1, shape_factor=1)
        return fresh(f)

    @staticmethod
    def defs(r):
        def f():
            from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
            return {0: SensorPeakDeformationCircle(r), 1: SensorPeakDeformationLinear(1.0 + r / 16)}
        return fresh(f)

    def make(self, **k):
        from simcats.sensor import SensorScanSensorGeneric
        d = k.pop('deformation', None)
        s = SensorScanSensorGeneric(**k, **({'sensor_peak_deformations': d} if d else {}))
        return s

    def set(self, o, n, v):
        if n == 'deformation':
            for i, d in v.items():
                if i == 0:
                    o.sensor_peak_deformations[i].radius = d.radius
                else:
                    o.sensor_peak_deformations[i].angle = d.angle
        else:
            setattr(o, n, v)

    def live(self, o, n):
        return getattr(o, n)

    def call(self, o, **k):
        p = o.sensor_potential(**k)
        r = o.sensor_response(p)
        if self.label:
            g = {n: v for n, v in k.items() if n != 'occupations'}
            return tuple(o.get_sensor_scan_labels(potential=p, **g))
        return p, r


class ScanResponse1(ScanResponse):
    shape, shape2 = (3,), (2,)


class ScanResponse12(ScanResponse):
    shape, shape2 = (3,), (2, 2)


class ScanLabels(ScanResponse):
    label = True
    shape, shape2 = (2, 3), (3, 2)


class ScanLabels1(ScanResponse):
    label = True
    shape, shape2 = (4,), (2, 3)


class ResponseOnly(ScanResponse):
    """one scan, several responses with other potentials"""
    defo = False

    def __init__(self, e):
        super().__init__(e)
        f = e.array
        self.fixed = {k: v[0] for k, v in self.args.items()}
        m = np.arange(12).reshape(3, 2, 2) / 8.0
        self.args = {'mu_sens': (f(m), f(m[:, ::-1] + 0.25))}

    def call(self, o, mu_sens):
        o.sensor_potential(**dup(self.fixed))
        return o.sensor_response(mu_sens)


class Working(ScanPotential):
    """working points: placement of the final rise"""
    kinds = 'ffss'
    shapes = ((2,), (3,))

    def __init__(self, e):
        super().__init__(e)
        f = e.array
        self.attrs['alpha_sensor_gate'] = (f(SENS[0]), f([[1, 0], [0.5, 2], [1, 0.25]]))

    def make(self, **k):
        from simcats.sensor import SensorScanSensorGeneric
        w, P = self.parts()
        return SensorScanSensorGeneric(barrier_functions=(P.Barrier(w, 1), P.Barrier(w, 2)), sensor_peak_function=P.Peak(w, 0), final_rise=P.Rise(w), **k)

    def call(self, o, **k):
        n = len(self.sw.log)
        o.sensor_potential(**k)
        s = np.shape(k['occupations'])[:-1]
        o.sensor_response(self.e.array(np.zeros((3,) + s)))
        return [self.e.array([x for l in self.sw.log[n:] if l['what'] == 'rise' for x in self.e.flat(l['offset'])])]


class Glf(World):
    def __init__(self, e):
        b = dict(pinch_off_percentage=(0.05, 0.1), fully_conductive_percentage=(0.95, 0.9), asymptote_left=(0.0, -0.5), asymptote_right=(1.0, 2.0), growth_rate=(2.0, 3.0),
                 asymmetry=(1.0, 2.0), shape_factor=(1.0, 0.5), denominator_offset=(1.0, 1.5), offset=(0.25, -0.5))
        self.attrs = b
        x = e.real('x', -1, 1)
        self.args = {'potential': (e.array([x, x + 0.5]), e.array([x - 1, x, x + 1]))}

    def make(self, **k):
        from simcats.sensor.barrier_function import BarrierFunctionGLF
        return BarrierFunctionGLF(**k)

    def call(self, o, **k):
        return o.get_value(**k), o.pinch_off, o.fully_conductive


class MultiGlf(World):
    def __init__(self, e):
        self.attrs = {'pinch_off': (-1.0, -0.5), 'fully_conductive': (2.0, 1.5), 'params': ([0.0, 1.0, 2.0, 1.0, 1.0, 1.0, 0.25], [0.0, 0.5, 3.0, 1.0, 1.0, 1.0, 0.0, 0.5, 0.5, 2.0, 1.0, 1.0, 1.0, 1.0])}
        x = e.real('x', -1, 1)
        self.args = {'potential': (e.array([x, x + 0.5]), e.array([x - 1, x, x + 1]))}

    def make(self, pinch_off, fully_conductive, params):
        from simcats.sensor.barrier_function import BarrierFunctionMultiGLF
        return BarrierFunctionMultiGLF(pinch_off, fully_conductive, *params)

    def set(self, o, n, v):
        setattr(o, n, tuple(v) if n == 'params' else v)

    def call(self, o, **k):
        return o.get_value(**k), o.pinch_off, o.fully_conductive


class RiseCurve(World):
    def __init__(self, e):
        self.attrs = dict(mu0=(0.25, -0.5), asymptote_left=(0.0, -0.5), asymptote_right=(1.0, 2.0), growth_rate=(2.0, 3.0), asymmetry=(1.0, 2.0), shape_factor=(1.0, 0.5), denominator_offset=(1.0, 1.5))
        x = e.real('x', -1, 1)
        self.args = {'mu_sens': (e.array([x, x + 0.5]), e.array([x - 1, x, x + 1])), 'offset': (e.real('of', -1, 1), e.real('of_', -1, 1))}

    def make(self, **k):
        from simcats.sensor import SensorRiseGLF
        return SensorRiseGLF(**k)

    def call(self, o, **k):
        return o.sensor_function(**k), o.fully_conductive


class Defo(World):
    kind = 'circle'

    def __init__(self, e):
        self.attrs = {'radius': (4.0, -1.5)} if self.kind == 'circle' else {'angle': (1.0, 0.5)}
        self.attrs['gate'] = (e.array(SENS[0]), e.array([[1, 0.5], [1, 0], [0, 2]]))
        self.args = {'dist': (e.reals('d', 2, -1, 1), e.reals('d_', 3, -1, 1)), 'mu0': (e.real('m', -V, V), e.real('m_', -V, V))}

    def make(self, gate, **k):
        from simcats.sensor import SensorScanSensorGeneric
        from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
        d = (SensorPeakDeformationCircle if self.kind == 'circle' else SensorPeakDeformationLinear)(**k)
        d.keep = SensorScanSensorGeneric(barrier_functions=ScanResponse.bars(1.0)(), sensor_peak_function=ScanResponse.peaks(0.0, 1.0)(), alpha_sensor_gate=gate, sensor_peak_deformations={0: d})
        return d

    def set(self, o, n, v):
        if n == 'gate':
            o.sensor.alpha_sensor_gate = v
        else:
            setattr(o, n, v)

    def live(self, o, n):
        return o.sensor.alpha_sensor_gate

    def call(self, o, **k):
        return o.calc_mu(**k)


class DefoLinear(Defo):
    kind = 'linear'


# ---- ideal CSD ----------------------------------------------------------------------------------------------------------
def rows():
    from .c05 import ROWS
    return ROWS


class Csd(World):
    """the complete geometric ideal CSD with real transition curves"""
    res = (np.array([3, 3]), np.array([4, 2]))
    lut = (None, 9)

    def __init__(self, e):
        f = e.array
        R = rows()
        self.attrs = {'tct_params': ([R[0].copy(), R[1].copy(), R[2].copy()], [R[0] + np.array([0, 0, 0, 0, 0, 0.3, 0, 0.3]), R[1].copy(), R[2] + 0.05]), 'rotation': (-math.pi / 4, 0.3), 'lut_entries': self.lut,
                      'cdf_type': ('sigmoid', 'cauchy'), 'cdf_gamma_factor': (None, 4.0)}
        self.args = {'volt_limits_g1': (f([-2.0, -0.75]), f([-1.5, 0.1])), 'volt_limits_g2': (f([-2.0, -0.8]), f([-0.9, -1.7])), 'resolution': self.res}

    def make(self, **k):
        from simcats.ideal_csd import IdealCSDGeometric
        return IdealCSDGeometric(**k)

    def call(self, o, **k):
        if isinstance(k['resolution'], int):
            k['resolution'] = int(k['resolution'])
        return o.get_csd_data(**k)

    def live(self, o, n):
        return o.tct_params[0]


class Csd1(Csd):
    res = (3, 5)


class Csd12(Csd):
    res = (3, np.array([3, 3]))


class CsdLut(Csd):
    """the same table size, other curves"""
    lut = (9, 9)


class CsdRow(Csd):
    """one row of the transition parameters is changed through the list the object hands out"""
    lut = (9, 9)

    def __init__(self, e):
        super().__init__(e)
        self.attrs = {'row': (self.attrs['tct_params'][0][0], self.attrs['tct_params'][1][0])}
        self.rest = rows()[1:]

    def make(self, row):
        from simcats.ideal_csd import IdealCSDGeometric
        return IdealCSDGeometric(tct_params=[row] + [r.copy() for r in self.rest], lut_entries=9)

    def set(self, o, n, v):
        o.tct_params[0] = v


class Tct(World):
    lut = (9, 17)

    def __init__(self, e):
        f = e.array
        R = rows()
        x = e.real('x', -0.4, -0.1)
        self.args = {'tct_params': (f(R[0]), f(R[0] + np.array([0, 0, 0.05, 0, 0, 0.3, 0, 0.3]))), 'x_eval': (f([-1.0, 0.3, 2.0]), f([0.3, -1.0])), 'lut_entries': self.lut, 'max_peaks': (None, 2)}

    def call(self, o, **k):
        from simcats.ideal_csd.geometric import tct_bezier
        return tct_bezier(**k)


class TctExact(Tct):
    lut = (None, 9)


class TctFunctions(World):
    def __init__(self, e):
        R = rows()
        self.args = {'tct_params': ([R[0].copy(), R[1].copy()], [R[0] + 0.05, R[1].copy()]), 'max_peaks': (1, 2)}

    def call(self, o, **k):
        from simcats.ideal_csd.geometric import initialize_tct_functions
        fs = initialize_tct_functions(**k)
        x = np.array([-1.0, -0.2, 0.6])
        return [list(fs)] + [fs[i](x_eval=x, lut_entries=9) for i in fs]


class Anchors(World):
    def __init__(self, e):
        R = rows()
        s = e.real('s', 0, 0.25)
        self.args = {'tct_params': ([e.array(R[0]), e.array(R[1])], [e.array(R[0]) + s + 0.05, e.array(R[1])]), 'max_peaks': (1, 2), 'rotation': (-math.pi / 4, 0.3)}

    def call(self, o, **k):
        from simcats.ideal_csd.geometric import calculate_all_bezier_anchors
        a = calculate_all_bezier_anchors(**k)
        return [sorted(a)] + [a[i] for i in sorted(a)]


def line_curves(c, s):
    return {i + 1: T.Line(v, s) for i, v in enumerate(c)}


class Mask2(World):
    def __init__(self, e):
        f = e.array
        a = e.real('a', -1.005, -1)
        self.args = {'csd': (f(np.zeros((3, 3))), f(np.zeros((2, 3)))), 'volt_limits_g1': (f([a, 1.0]), f([-0.5, 1.25])), 'volt_limits_g2': (f([-1.0, 1.0]), f([-1.5, 0.5])),
                     'tct_functions': (fresh(lambda: line_curves([-0.55, 0.35], 0.2)), fresh(lambda: line_curves([-0.25, 0.65], 0.2))), 'rotation': (-math.pi / 4, 0.3)}

    def call(self, o, **k):
        from simcats.ideal_csd.geometric import generate_lead_transition_mask_2d
        return generate_lead_transition_mask_2d(**k)


class Mask1(World):
    def __init__(self, e):
        def occ(t, n):
            x = e.integers('t' + t, n, 0, 2)
            return e.array([[x[i], 0.0] for i in range(n)])
        self.args = {'csd_occ': (occ('', 3), occ('_', 3))}

    def call(self, o, **k):
        from simcats.ideal_csd.geometric import generate_lead_transition_mask_1d
        return generate_lead_transition_mask_1d(**k)


class Occupation(World):
    """region numbers / electron occupations from a mask"""
    masks = (np.array([[0, 0, 1], [0, 1, 0], [1, 0, 0]]), np.array([[0, 1, 0, 0], [0, 1, 0, 0]]))

    def __init__(self, e):
        f = e.array
        a = e.real('a', -1.05, -0.95)
        tabs = [T.anchors(4, -math.pi / 4, s) for s in (0, 1)]
        self.args = {'csd': tuple(f(m) for m in self.masks), 'volt_limits_g1': (f([-1.0, 1.0]), f([-0.5, 1.25])), 'volt_limits_g2': (f([-1.0, 1.0]), f([-1.5, 0.5])),
                     'bezier_coords': (tabs[0], tabs[1]), 'tct_functions': (fresh(lambda: line_curves([-0.25, 1.35, 2.5], 0.2)), fresh(lambda: line_curves([-0.95, 0.1, 1.2], 0.2))),
                     'rotation': (-math.pi / 4, 0.3), 'cdf_type': ('sigmoid', 'cauchy'), 'cdf_gamma_factor': (None, 5.0)}

    def call(self, o, **k):
        from simcats.ideal_csd.geometric._get_electron_occupation import get_electron_occupation
        return get_electron_occupation(**k)


class Occupation1(Occupation):
    masks = (np.array([0, 1, 0, 0]), np.array([0, 0, 1]))


# ---- distortions ----------------------------------------------------------------------------------------------------------
class Noise(World):
    """random distortions: every call sees the same stream of draws"""

    def __init__(self, e):
        from symx.stubs import StubRNG
        self.e = e
        self.rng = StubRNG(e, 'rng')
        self.setup(e)

    def data(self, e, name, lo=-V, hi=V, tail=()):
        return tuple(e.reals(name + t, s + tail, lo, hi) for t, s in zip(('', '_'), self.shapes))

    shapes = ((2, 3), (3, 2))

    def ranges(self, e):
        return {'volt_limits_g1': (e.array([0.0, 2.0]), e.array([1.0, -3.0])), 'volt_limits_g2': (e.array([0.0, 1.0]), e.array([-1.0, 0.5]))}

    def call(self, o, **k):
        self.rng.n = 0
        return o.noise_function(**k), self.extra(o)

    def extra(self, o):
        return None


class White(Noise):
    def setup(self, e):
        self.attrs = {'sigma': (e.real('s', 0, V), e.real('s_', 0, V))}
        self.args = {'sensor_response': self.data(e, 'x'), **self.ranges(e)}

    def make(self, **k):
        from simcats.distortions import SensorResponseWhiteNoise
        return SensorResponseWhiteNoise(rng=self.rng, **k)

    def extra(self, o):
        return o.latest_sigma


class White1(White):
    shapes = ((3,), (2, 2))


def psd(e):
    """an arbitrary sequence per cut-off"""
    def f(exponent, size, fmin=0, random_state=None):
        return e.reals(f'pink_{exponent}_{fmin}'.replace('.', 'p'), int(size), -V, V)
    return f


def pink_foreign():
    import colorednoise
    return {colorednoise.powerlaw_psd_gaussian: psd}


class Pink(Noise):
    def setup(self, e):
        self.attrs = {'sigma': (e.real('s', 0, V), e.real('s_', 0, V)), 'fmin': (0.0, 0.125)}
        self.args = {'mu_sens': self.data(e, 'x'), **self.ranges(e)}

    def make(self, **k):
        from simcats.distortions import SensorPotentialPinkNoise
        return SensorPotentialPinkNoise(rng=self.rng, **k)

    def extra(self, o):
        return o.latest_sigma


class Pink1(Pink):
    shapes = ((3,), (2, 2))


class Rtn(Noise):
    cls, arg = 'SensorPotentialRTN', 'mu_sens'
    shapes = ((2, 2), (2, 2))

    def setup(self, e):
        self.attrs = {'scale': (0.75, 1.5), 'std': (e.real('sd', 0, 2), e.real('sd_', 0, 2)), 'height': (e.real('h', -2, 2), e.real('h_', -2, 2)), 'ratio': (1.0, 0.5)}
        self.args = {self.arg: self.data(e, 'x'), **self.ranges(e)}
        self.rng.geo_max = 2

    def make(self, **k):
        import simcats.distortions as d
        return getattr(d, self.cls)(rng=self.rng, **k)

    def call(self, o, **k):
        self.rng.n, n = 0, len(self.rng.calls)
        r = o.noise_function(**k)
        ps = [c[1] for c in self.rng.calls[n:] if c[0] == 'geometric']
        return r, bool(o.activated), ps


class RtnResponse(Rtn):
    cls, arg = 'SensorResponseRTN', 'sensor_response'
    shapes = ((3,), (2, 2))


class Blur(Noise):
    cls = 'OccupationTransitionBlurringGaussian'
    shapes = ((2, 3), (3, 2))

    def setup(self, e):
        self.attrs = {'sigma': (0.5, 1.0)}
        self.args = {'occupations': self.data(e, 'o', 0, V, (2,)), 'lead_transitions': self.data(e, 'l', 0, 3), **self.ranges(e)}

    def make(self, **k):
        import simcats.distortions as d
        return getattr(d, self.cls)(**k)

    def call(self, o, **k):
        if np.shape(k['lead_transitions']) != np.shape(k['occupations'])[:-1]:
            k['lead_transitions'] = self.e.array(np.zeros(np.shape(k['occupations'])[:-1]))
        r = o.noise_function(**k)
        return tuple(r), o.latest_sigma


class BlurF(Blur):
    cls = 'OccupationTransitionBlurringFermiDirac'


class Blur1(Blur):
    shapes = ((4,), (2, 2))


class BlurF1(BlurF):
    shapes = ((4,), (2, 2))


class Jumps(Noise):
    shapes = ((2, 3), (2, 2))

    def setup(self, e):
        self.attrs = {'scale': (0.5, 1.0), 'lam': (0.5, 1.5), 'axis': (0, 1), 'ratio': (1.0, 0.5)}
        self.args = {'occupations': self.data(e, 'o', 0, V, (2,)), 'lead_transitions': self.data(e, 'l', 0, 3), **self.ranges(e)}
        self.rng.geo_max, self.rng.poi_max = 2, 1

    def make(self, **k):
        from simcats.distortions import OccupationDotJumps
        return OccupationDotJumps(rng=self.rng, **k)

    def call(self, o, **k):
        e = self.e
        if np.shape(k['lead_transitions']) != np.shape(k['occupations'])[:-1]:
            k['lead_transitions'] = e.array(np.zeros(np.shape(k['occupations'])[:-1]))
        self.rng.n, n = 0, len(self.rng.calls)

        def gen(volt_limits_g1, volt_limits_g2, resolution):
            r = [int(v) for v in np.ravel(resolution)]
            s = (r[0],) if len(r) == 1 else (r[1], r[0])
            o = e.array(np.zeros(s + (2,)))
            l = e.array(np.zeros(s))
            for p in np.ndindex(*s):
                a = p[-1] if len(s) > 1 else p[0]
                b = p[0]
                v1 = volt_limits_g1[0] + (volt_limits_g1[1] - volt_limits_g1[0]) * a / max(s[-1] - 1, 1)
                v2 = volt_limits_g2[0] + (volt_limits_g2[1] - volt_limits_g2[0]) * b / max(s[0] - 1, 1)
                o[p + (0,)], o[p + (1,)], l[p] = 100 + v1, 200 + v2, v1 + 2 * v2
            return o, l
        r = o.noise_function(generate_csd=gen, **k)
        ps = [c[1] for c in self.rng.calls[n:] if c[0] in ('geometric', 'poisson')]
        return tuple(r), bool(o.activated), ps


class Jumps1(Jumps):
    shapes = ((3,), (2, 2))


# ---- support functions -------------------------------------------------------------------------------------------------
def function(module, name, **args):
    class F(World):
        def __init__(self, e):
            self.args = {k: v(e) if callable(v) else v for k, v in args.items()}

        def call(self, o, **k):
            import importlib
            return getattr(importlib.import_module(module), name)(**k)
    return F


def multi(module, name):
    class M(World):
        def __init__(self, e):
            self.args = {'x': (e.reals('x', 2, -V, V), e.reals('x_', 3, -V, V)), 'params': ([0.5, 1.0, 2.0, 0.25], [0.5, 1.0])}

        def call(self, o, x, params):
            import importlib
            return getattr(importlib.import_module(module), name)(x, params)
    return M


def R(name, shape, lo=-V, hi=V, shape2=None):
    def f(e):
        if shape == ():
            return e.real(name, lo, hi), e.real(name + '_', lo, hi)
        return e.reals(name, shape, lo, hi), e.reals(name + '_', shape2 or shape, lo, hi)
    return f


def P(name, lo=-V, hi=V):
    def f(e):
        return tuple(e.real(f'{name}{i}', lo, hi) for i in (0, 1)), tuple(e.real(f'{name}{i}_', lo, hi) for i in (0, 1))
    return f


SF = 'simcats.support_functions'


# ---- table -------------------------------------------------------------------------------------------------------------
def scenarios(pid, tier):
    S = []
    add = lambda *a, **k: S.extend(for_world(*a, **k))
    G = ['volt_limits_g1', 'volt_limits_g2']
    SG = ['volt_limits_sensor_g1', 'volt_limits_sensor_g2']
    if pid in ('C05', 'C06', 'C07', 'C08'):
        fk = dict(foreign={**T.DIP, **T.BEZIER})
    if pid == 'C05':
        A = ['tct_params', 'rotation', 'lut_entries', 'cdf_type', 'cdf_gamma_factor']
        for n, w in (('2D', Csd), ('1D', Csd1), ('1D and 2D', Csd12)):
            add(f'CSD {n}', w, A if n != '1D and 2D' else (), G + ['resolution'] if n != '1D and 2D' else ['resolution'], G if n == '2D' else (), **fk)
        add('CSD table', CsdLut, ['tct_params'], G, **fk)
        add('CSD row', CsdRow, ['row'], live=['row'], **fk)
    if pid == 'C06':
        A = ['csd'] + G + ['bezier_coords', 'tct_functions', 'rotation', 'cdf_type', 'cdf_gamma_factor']
        add('occupation 2D', Occupation, (), A, G + ['csd'][:0], **fk)
        add('CSD', Csd, ['tct_params', 'rotation', 'cdf_type', 'cdf_gamma_factor'], G + ['resolution'], **fk)
        add('CSD 1D', Csd1, ['tct_params', 'rotation', 'cdf_type', 'cdf_gamma_factor'], G + ['resolution'], **fk)
    if pid == 'C07':
        add('mask 2D', Mask2, (), ['csd'] + G + ['tct_functions', 'rotation'], G, **fk)
        add('mask 1D', Mask1, (), ['csd_occ'], ['csd_occ'], **fk)
        add('CSD', Csd, ['tct_params', 'rotation'], G + ['resolution'], **fk)
    if pid == 'C08':
        add('table', Tct, (), ['tct_params', 'x_eval', 'lut_entries', 'max_peaks'], ['tct_params'], **fk)
        add('exact', TctExact, (), ['tct_params', 'x_eval', 'lut_entries', 'max_peaks'], ['tct_params'], **fk)
        add('functions', TctFunctions, (), ['tct_params', 'max_peaks'], **fk)
    if pid == 'C09':
        add('anchors', Anchors, (), ['tct_params', 'max_peaks', 'rotation'])
    if pid == 'C10':
        A = ['alpha_dot', 'alpha_gate', 'offset_mu_sens']
        for n, w in (('2D', GenericPotential), ('1D', GenericPotential1), ('1D and 2D', GenericPotential12)):
            add(f'potential {n}', w, A, ['occupations'] + G, G, ['alpha_dot', 'alpha_gate'], ['alpha_dot', 'alpha_gate'])
    if pid == 'C11':
        add('Lorentzian', PeakCurve, ['mu0', 'gamma', 'height', 'offset'], ['mu_sens'], ['mu_sens'])
        add('Gaussian', PeakCurveG, ['mu0', 'sigma', 'height', 'offset'], ['mu_sens'], ['mu_sens'])
        add('response', GenericResponse, ['sensor_peak_function'], ['mu_sens'])
        add('response of changed peaks', GenericPeakChange, ['mu0', 'gamma', 'height', 'offset'])
    if pid == 'C12':
        A = ['alpha_dot', 'alpha_gate', 'alpha_sensor_gate', 'offset_mu_sens']
        for n, w, i in (('2D', ScanPotential, SG), ('plunger 2D', ScanPotentialP, G), ('1D', ScanPotential1, SG)):
            add(f'potential {n}', w, A, ['occupations'] + G + SG, i, A)
    if pid in ('C13', 'C15', 'C17'):
        A = ['alpha_dot', 'alpha_gate', 'alpha_sensor_gate', 'offset_mu_sens', 'sensor_peak_function', 'barrier_functions', 'final_rise', 'deformation']
        L = ['alpha_dot', 'alpha_gate', 'alpha_sensor_gate', 'offset_mu_sens']
        if pid == 'C15':
            add('working point', Working, L, ['occupations'] + G + SG, live=L)
        for n, w in (('2D', ScanResponse), ('1D', ScanResponse1)):
            add(f'response {n}', w, A, ['occupations'] + G + SG, (), L)
        add('response 1D and 2D', ScanResponse12, (), ['occupations'] + SG)
        if pid == 'C13':
            add('response of other potentials', ResponseOnly, ['sensor_peak_function', 'barrier_functions'], ['mu_sens'], ['mu_sens'])
        if pid == 'C17':
            add('circle', Defo, ['radius', 'gate'], ['dist', 'mu0'], (), ['gate'])
            add('line', DefoLinear, ['angle', 'gate'], ['dist', 'mu0'], (), ['gate'])
    if pid == 'C14':
        A = ['alpha_dot', 'alpha_gate', 'alpha_sensor_gate', 'offset_mu_sens', 'sensor_peak_function', 'barrier_functions', 'deformation']
        for n, w in (('2D', ScanLabels), ('1D', ScanLabels1)):
            add(f'labels {n}', w, A, ['occupations'] + G + SG, (), A[:4])
    if pid == 'C16':
        add('GLF', Glf, ['pinch_off_percentage', 'fully_conductive_percentage', 'asymptote_left', 'asymptote_right', 'growth_rate', 'asymmetry', 'shape_factor', 'denominator_offset', 'offset'], ['potential'])
        add('multi GLF', MultiGlf, ['pinch_off', 'fully_conductive', 'params'], ['potential'])
        add('rise', RiseCurve, ['mu0', 'asymptote_left', 'asymptote_right', 'growth_rate', 'asymmetry', 'shape_factor', 'denominator_offset'], ['mu_sens', 'offset'])
    if pid == 'C19':
        for n, w in (('2D', White), ('1D and 2D', White1)):
            add(f'white {n}', w, ['sigma'], ['sensor_response'] + G, ['sensor_response'] if n == '2D' and False else ())
        for n, w in (('2D', Pink), ('1D and 2D', Pink1)):
            add(f'pink {n}', w, ['sigma', 'fmin'], ['mu_sens'] + G, foreign=pink_foreign())
    if pid == 'C20':
        A = ['scale', 'std', 'height', 'ratio']
        add('potential', Rtn, A, ['mu_sens'] + G)
        add('response', RtnResponse, A, ['sensor_response'] + G)
    if pid == 'C21':
        A = ['scale', 'lam', 'axis', 'ratio']
        add('2D', Jumps, A, ['occupations'] + G)
        add('1D', Jumps1, A, ['occupations'] + G)
    if pid == 'C22':
        from . import convstub
        for n, w in (('Gaussian 2D', Blur), ('Fermi 2D', BlurF), ('Gaussian 1D and 2D', Blur1), ('Fermi 1D and 2D', BlurF1)):
            add(n, w, ['sigma'], ['occupations', 'lead_transitions'] + G, foreign=convstub.foreign())
    if pid == 'C23':
        add('rotate', function(SF, 'rotate_points', points=R('p', (2, 2), shape2=(3, 2)), angle=(0.25, 1.0)), (), ['points', 'angle'], ['points'][:0])
        add('distance', function(SF, 'signed_dist_points_line', points=R('p', (2, 2), shape2=(3, 2)), line_points=lambda e: (e.array([[0.0, 1.0], [1.0, 3.0]]), e.array([[0.0, 2.0], [2.0, 1.0]]))), (), ['points', 'line_points'], ['line_points'])
        add('lines', function(SF, 'line_line_intersection', line1=((1.0, 2.0), (0.5, -1.0)), line2=P('l', 2, 4)), (), ['line1', 'line2'])
        add('circle', function(SF, 'line_circle_intersection', line=((1.0, 2.0), (0.5, -1.0)), circle_center=((0.5, 2.0), (1.0, 0.0)), radius=(3.0, 4.0)), (), ['line', 'circle_center', 'radius'])
        add('below', function(SF, 'is_point_below_line', point=P('p'), line=P('l')), (), ['point', 'line'])
        add('pixel', function(SF, 'pixel_to_volt_1d', pixel=(2, 3), pixel_num=(5, 7), volt_limits=R('v', 2)), (), ['pixel', 'pixel_num', 'volt_limits'], ['volt_limits'])
    if pid == 'C24':
        C = 'simcats.support_functions._cumulative_distribution_functions'
        for n in ('sigmoid', 'cauchy'):
            add(f'{n}', function(C, f'{n}_cdf', x=R('x', 2), x0=R('c', ()), gam=R('w', (), 0.125, 4)), (), ['x', 'x0', 'gam'], ['x'])
            add(f'multi {n}', multi(C, f'multi_{n}_cdf'), (), ['x', 'params'])
        F = 'simcats.support_functions._fermi_filter1d'
        from . import convstub
        add('filter', function(F, 'fermi_filter1d', input=R('x', (3, 2), shape2=(2, 3)), sigma=(0.5, 0.75), axis=(-1, 0), mode=('reflect', 'constant'), cval=(0.0, 2.0), radius=(2, 1)), (), ['input', 'sigma', 'axis', 'mode', 'cval', 'radius'], pairs=[('mode', 'cval')], foreign=convstub.foreign())
        add('derivative', function(F, 'fermi_dirac_derivative', x=R('x', 2, -1, 1), x0=R('c', (), -1, 1), sigma=(0.5, 1.0)), (), ['x', 'x0', 'sigma'])
    return S
