"""C01 voltage limits and argument validation gate every measurement"""
import numpy as np

from symx.harness import Scenario
from . import simworld as sw

FUNCTIONS = ['Simulation.__init__', 'Simulation.measure', 'Simulation.measure_sensor_scan', 'Simulation.volt_limits_*']
BOUNDS = ('all sweep ranges, limits and fixed voltages: any real in [-4, 4]; every subset of limits set/unset; fixed '
          'voltages both/one/none; resolutions: int 1..3, one entry 1..3, two entries -1..3 each, three entries')
OUTSIDE = 'NaN voltages; resolutions above 3 per axis (the validation has no size-dependent branch beyond these)'
ASSUMPTIONS = ['limits are given as (lower, upper) with lower <= upper', 'ideal CSD and sensor are arbitrary plug-ins (stubs)']

V = 4


def lim(e, n, flag):
    if not flag:
        return None
    a = e.reals(n, 2, -V, V)
    e.assume(a[0] <= a[1])
    return a


def inside(e, xs, l):
    if l is None:
        return True
    return e.and_(*[e.and_(x >= l[0], x <= l[1]) for x in xs])


def mkres(e, kind):
    if kind == 'int':
        return e.choose('res', [1, 2, 3]), True
    if kind == 'len1':
        return e.array([e.choose('res', [1, 2, 3])], 'i'), True
    if kind == 'len3':
        return e.array([e.integer('r0', 1, 3), 2, 2], 'i'), False
    r = e.integers('r', 2, -1, 3)
    return r, e.and_(r[0] > 1, r[1] > 1)


def seq(e, a, kind):
    return {'array': lambda: a, 'list': lambda: [a[0], a[1]], 'tuple': lambda: (a[0], a[1])}[kind]()


def measure(e, res, limits, fixed, container='array', scan_sensor=True):
    from simcats import Simulation
    w = sw.World(e)
    ns = sw.classes()
    l1, l2, ls1, ls2 = (lim(e, n, f) for n, f in zip(('l1', 'l2', 'ls1', 'ls2'), limits))
    sim = Simulation(volt_limits_g1=l1, volt_limits_g2=l2, volt_limits_sensor_g1=ls1, volt_limits_sensor_g2=ls2,
                     ideal_csd_config=ns.CSD(w), sensor=ns.ScanSensor(w) if scan_sensor else ns.Sensor(w))
    g1, g2 = e.reals('g1', 2, -V, V), e.reals('g2', 2, -V, V)
    v1 = e.real('v1', -V, V) if fixed[0] else None
    v2 = e.real('v2', -V, V) if fixed[1] else None
    r, rok = mkres(e, res)
    ok = e.and_(rok, inside(e, g1, l1), inside(e, g2, l2), inside(e, [v1], ls1) if fixed[0] else True,
                inside(e, [v2], ls2) if fixed[1] else True, fixed[0] == fixed[1])
    if res == 'two':
        ok = e.and_(ok, g1[0] != g1[1], g2[0] != g2[1])
    out, ex = e.catch(lambda: sim.measure(seq(e, g1, container), seq(e, g2, container), volt_sensor_g1=v1,
                                          volt_sensor_g2=v2, resolution=r), ValueError)
    finish(e, w, ok, out, ex)


def finish(e, w, ok, out, ex):
    if ex is not None:
        e.check(e.not_(ok), 'a valid request inside the limits is accepted')
        e.check(len(w.log) == 0, 'a refused request runs no part of the simulation')
    else:
        e.check(ok, 'a request outside the limits or with invalid arguments is refused with ValueError')
        e.check('response' in w.names(), 'an accepted request is simulated')


def scan(e, res, limits, fixed, csd=True, container='array'):
    from simcats import Simulation
    w = sw.World(e)
    ns = sw.classes()
    l1, l2, ls1, ls2 = (lim(e, n, f) for n, f in zip(('l1', 'l2', 'ls1', 'ls2'), limits))
    sim = Simulation(volt_limits_g1=l1, volt_limits_g2=l2, volt_limits_sensor_g1=ls1, volt_limits_sensor_g2=ls2,
                     ideal_csd_config=ns.CSD(w) if csd else None, sensor=ns.ScanSensor(w))
    s1, s2 = e.reals('s1', 2, -V, V), e.reals('s2', 2, -V, V)
    v1 = e.real('v1', -V, V) if fixed[0] else None
    v2 = e.real('v2', -V, V) if fixed[1] else None
    r, rok = mkres(e, res)
    ok = e.and_(rok, inside(e, s1, ls1), inside(e, s2, ls2), inside(e, [v1], l1) if fixed[0] else True,
                inside(e, [v2], l2) if fixed[1] else True, fixed[0] == fixed[1])
    if res == 'two':
        ok = e.and_(ok, s1[0] != s1[1], s2[0] != s2[1])
    out, ex = e.catch(lambda: sim.measure_sensor_scan(seq(e, s1, container), seq(e, s2, container), volt_g1=v1, volt_g2=v2,
                                                      resolution=r), ValueError)
    finish(e, w, ok, out, ex)


def shapes(e):
    """sweep ranges that do not consist of two values; missing ideal configuration; sensor without scan support"""
    from simcats import Simulation
    w = sw.World(e)
    ns = sw.classes()
    sim = Simulation(ideal_csd_config=ns.CSD(w), sensor=ns.ScanSensor(w))
    n1, n2 = e.choose('n1', [0, 1, 2, 3]), e.choose('n2', [0, 1, 2, 3])
    a, b = e.reals('a', n1, -V, V) if n1 else [], e.reals('b', n2, -V, V) if n2 else []
    which = e.choose('which', ['measure', 'scan'])
    f = sim.measure if which == 'measure' else sim.measure_sensor_scan
    k = e.choose('kind', [3, 'one'])
    out, ex = e.catch(lambda: f(a, b, resolution=3 if k == 3 else np.array([3])), ValueError)
    ok = n1 == 2 and n2 == 2
    e.check((ex is None) == ok, 'sweep ranges must consist of exactly two values')
    e.check(ok or not w.log, 'a refused request runs no part of the simulation')


def missing(e):
    from simcats import Simulation
    w = sw.World(e)
    ns = sw.classes()
    g1, g2 = e.reals('g1', 2, -V, V), e.reals('g2', 2, -V, V)
    sim = Simulation(sensor=ns.ScanSensor(w))
    out, ex = e.catch(lambda: sim.measure(g1, g2, resolution=2), ValueError)
    e.check(ex is not None and not w.log, 'a CSD measurement without ideal CSD configuration is refused')
    sim = Simulation(ideal_csd_config=ns.CSD(w), sensor=ns.Sensor(w))
    out, ex = e.catch(lambda: sim.measure_sensor_scan(g1, g2, resolution=2), ValueError)
    e.check(ex is not None and not w.log, 'a sensor scan with a sensor that cannot do it is refused')


def limits_later(e):
    """limits changed after construction (setter, and in place through the getter) are the ones that count"""
    from simcats import Simulation
    w = sw.World(e)
    ns = sw.classes()
    sim = Simulation(volt_limits_g1=e.array([-1.0, 1.0]), volt_limits_sensor_g2=e.array([-1.0, 1.0]),
                     ideal_csd_config=ns.CSD(w), sensor=ns.ScanSensor(w))
    l1, ls2 = lim(e, 'l1', True), lim(e, 'ls2', True)
    sim.volt_limits_g1 = l1
    if e.boolean('viaget'):
        sim.volt_limits_sensor_g2[0] = ls2[0]
        sim.volt_limits_sensor_g2[1] = ls2[1]
    else:
        sim.volt_limits_sensor_g2 = ls2
    g1, g2 = e.reals('g1', 2, -V, V), e.reals('g2', 2, -V, V)
    v1, v2 = e.real('v1', -V, V), e.real('v2', -V, V)
    out, ex = e.catch(lambda: sim.measure(g1, g2, v1, v2, resolution=2), ValueError)
    finish(e, w, e.and_(inside(e, g1, l1), inside(e, [v2], ls2)), out, ex)
    w.log.clear()
    out, ex = e.catch(lambda: sim.measure_sensor_scan(g1, g2, v1, v2, resolution=2), ValueError)
    finish(e, w, e.and_(inside(e, g2, ls2), inside(e, [v1], l1)), out, ex)


def scenarios(tier):
    S = []
    L = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 1, 1)]
    if tier == 'thorough':
        L = [(a, b, c, d) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1)]
    for fn, nm in ((measure, 'measure'), (scan, 'scan')):
        for l in L:
            for fixed in ((1, 1), (0, 0), (1, 0), (0, 1)):
                for res in ('int', 'len1', 'two', 'len3'):
                    if tier != 'thorough':
                        if res in ('len1', 'len3') and not (l in ((0, 0, 0, 0), (1, 1, 1, 1)) and fixed in ((1, 1), (0, 0))):
                            continue
                        if res == 'int' and sum(l) == 1 and fixed != (0, 0):
                            continue
                        if fixed in ((1, 0), (0, 1)) and l not in ((0, 0, 0, 0), (1, 1, 1, 1)):
                            continue
                    nml = ''.join(map(str, l))
                    S.append(Scenario(f'{nm}_{res}_lim{nml}_fix{fixed[0]}{fixed[1]}', fn,
                                      dict(res=res, limits=l, fixed=fixed), witnesses=4))
    for c in ('list', 'tuple'):
        S.append(Scenario(f'measure_{c}', measure, dict(res='two', limits=(1, 1, 0, 0), fixed=(0, 0), container=c), witnesses=4))
        S.append(Scenario(f'scan_{c}', scan, dict(res='two', limits=(0, 0, 1, 1), fixed=(0, 0), container=c), witnesses=4))
    S.append(Scenario('measure_plain_sensor', measure, dict(res='two', limits=(1, 1, 1, 1), fixed=(0, 0), scan_sensor=False), witnesses=4))
    for res in ('int', 'len1', 'two'):
        for fixed in ((1, 1), (0, 0), (0, 1)):
            S.append(Scenario(f'scan_nocsd_{res}_{fixed[0]}{fixed[1]}', scan, dict(res=res, limits=(1, 0, 0, 1), fixed=fixed, csd=False), witnesses=4))
    S.append(Scenario('sweep_shapes', shapes))
    S.append(Scenario('missing_parts', missing))
    S.append(Scenario('limits_changed', limits_later))
    return S
