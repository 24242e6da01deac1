"""C03 configuration isolation"""
import numpy as np

from symx.harness import Scenario
from . import simworld as sw
from .simworld import flat

FUNCTIONS = ['Simulation.__init__', 'Simulation setters and getters', 'Simulation.measure', 'Simulation.measure_sensor_scan']
BOUNDS = ('every configurable attribute; the mutated values are arbitrary reals; 1D (2 pixels) and 2D (2x2) measurements; '
          'up to two measurements; distortion lists of length 2')
OUTSIDE = 'plug-ins that define their own copy protocol'
ASSUMPTIONS = ['plug-ins are arbitrary objects with mutable state']
V = 4

ATTRS = ('ideal_csd_config', 'sensor', 'occupation_distortions', 'sensor_potential_distortions', 'sensor_response_distortions',
         'volt_limits_g1', 'volt_limits_g2', 'volt_limits_sensor_g1', 'volt_limits_sensor_g2')
WHAT = {'ideal_csd_config': ['csd'], 'sensor': ['potential', 'response', 'labels'], 'occupation_distortions': ['occ0', 'occ1'],
        'sensor_potential_distortions': ['pot0', 'pot1'], 'sensor_response_distortions': ['resp0', 'resp1']}


def fresh(e, ns, w, attr, name):
    """a new configuration value whose state is arbitrary"""
    st = lambda k: e.reals(f'{name}_{k}', 2, -V, V)
    if attr == 'ideal_csd_config':
        return ns.CSD(w, state=st('s'))
    if attr == 'sensor':
        return ns.ScanSensor(w, state=st('s'))
    if attr == 'occupation_distortions':
        return [ns.OccDist(w, i, 1, state=st(i)) for i in (0, 1)]
    if attr == 'sensor_potential_distortions':
        return [ns.PotDist(w, i, state=st(i)) for i in (0, 1)]
    if attr == 'sensor_response_distortions':
        return [ns.RespDist(w, i, state=st(i)) for i in (0, 1)]
    a = st('s')
    e.assume(e.and_(a[0] <= 0, a[1] >= 1))
    return a


def mutate(e, v, val):
    """change everything reachable from a configuration value"""
    if isinstance(v, list) and v and not hasattr(v[0], 'state'):
        v[0] = val
        v[1] = val
    elif isinstance(v, list):
        for x in v:
            mutate(e, x, val)
        v.reverse()
        v.pop()
    elif hasattr(v, 'state'):
        v.state[0] = val
        v.state[1] = val
    else:
        v[0] = val
        v[1] = val


def content(v):
    if isinstance(v, list) and (not v or hasattr(v[0], 'state')):
        return [(type(x).__name__, x.i) for x in v], [z for x in v for z in flat(x.state)]
    if hasattr(v, 'state'):
        return [type(v).__name__], flat(v.state)
    return [type(v).__name__], flat(v)


def same(e, c0, v, label):
    c1 = content(v)
    ok = c0[0] == c1[0] and len(c0[1]) == len(c1[1])
    e.check(ok, label)
    if ok:
        e.check([a == b for a, b in zip(c0[1], c1[1])], label)


def snapc(v):
    a, b = content(v)
    return list(a), list(b)


def build(e, ns, w, ctor=True):
    from simcats import Simulation
    cfg = {a: fresh(e, ns, w, a, a) for a in ATTRS}
    ref = {a: snapc(v) for a, v in cfg.items()}
    if ctor:
        sim = Simulation(**cfg)
    else:
        sim = Simulation()
        for a in ATTRS:
            setattr(sim, a, cfg[a])
    return sim, cfg, ref


RANGE = [0.25, 0.75]


def run(e, sim, kind, res):
    if kind == 'measure':
        return sim.measure(e.array(RANGE), e.array(RANGE), 0.5, 0.5, resolution=res)
    return sim.measure_sensor_scan(e.array(RANGE), e.array(RANGE), 0.5, 0.5, resolution=res)


def used(e, w, ref, label):
    """every stage that ran used the configuration state ref"""
    for a, names in WHAT.items():
        st = ref[a][1]
        for l in w.log:
            if l['what'] in names:
                k = 2 * int(l['what'][-1]) if l['what'][-1].isdigit() else 0
                if l.get('state') is not None:
                    e.check([x == y for x, y in zip(flat(l['state']), st[k:k + 2])], label)


def caller(e, kind, ctor, via):
    """objects of the caller change after assignment"""
    w = sw.World(e)
    ns = sw.classes()
    sim, cfg, ref = build(e, ns, w, ctor)
    z = e.real('mut', -V, V)
    for a in ATTRS:
        mutate(e, cfg[a], z)
    for a in ATTRS:
        same(e, ref[a], getattr(sim, a), f'changing the assigned object leaves {a} unchanged')
    out = run(e, sim, kind, 2 if via == '1d' else e.array([2, 2], 'i'))
    used(e, w, ref, 'a measurement uses the configuration as it was assigned')
    for a in ATTRS:
        same(e, ref[a], out[3][a], f'metadata reports {a} as it was assigned')


def meta(e, kind, who):
    """metadata is a snapshot: independent of the simulation in both directions"""
    w = sw.World(e)
    ns = sw.classes()
    sim, cfg, ref = build(e, ns, w)
    out = run(e, sim, kind, e.array([2, 2], 'i'))
    md = out[3]
    z = e.real('mut', -V, V)
    if who == 'meta':
        for a in ATTRS:
            mutate(e, md[a], z)
        for k in ('sweep_range_g1', 'sweep_range_g2', 'sweep_range_sensor_g1', 'sweep_range_sensor_g2', 'resolution'):
            if k in md:
                md[k][0] = 0
        for a in ATTRS:
            same(e, ref[a], getattr(sim, a), f'changing the metadata leaves {a} of the simulation unchanged')
        del w.log[:]
        run(e, sim, kind, e.array([2, 2], 'i'))
        used(e, w, ref, 'changing the metadata does not influence a later measurement')
    else:
        for a in ATTRS:
            v = getattr(sim, a)
            if who == 'getter':
                mutate(e, v, z)
            else:
                setattr(sim, a, fresh(e, ns, w, a, 'new_' + a))
        for a in ATTRS:
            same(e, ref[a], md[a], f'changing the simulation leaves {a} in the metadata unchanged')


def meta2(e, kind):
    """a second measurement does not touch the metadata of the first (distortion state, ranges)"""
    w = sw.World(e)
    ns = sw.classes()
    sim, cfg, ref = build(e, ns, w)
    out = run(e, sim, kind, 2)
    n0 = [flat(d.noise) if d.noise is not None else [] for d in out[3]['occupation_distortions']]
    keep = {k: flat(sw.snap(v)) for k, v in out[3].items() if 'range' in k}
    c0 = [sw.snap(x) for x in out[:3]]
    out2 = run(e, sim, kind, 2)
    n1 = [flat(d.noise) if d.noise is not None else [] for d in out[3]['occupation_distortions']]
    e.check([len(a) == len(b) for a, b in zip(n0, n1)], 'the metadata keeps the noise state of its own measurement')
    e.check([x == y for a, b in zip(n0, n1) for x, y in zip(a, b)], 'the metadata keeps the noise state of its own measurement')
    for k, v in keep.items():
        e.check([x == y for x, y in zip(flat(out[3][k]), v)], 'the metadata keeps its ranges')
    for a, b in zip(c0, out):
        e.eq(b, a, 'a later measurement does not change results already returned')


def inputs(e, kind, res):
    """ranges and resolution of the caller are not modified; changing them later does not change metadata"""
    w = sw.World(e)
    ns = sw.classes()
    from simcats import Simulation
    sim = Simulation(ideal_csd_config=ns.CSD(w), sensor=ns.ScanSensor(w), occupation_distortions=[ns.OccDist(w, 0, 2)],
                     sensor_potential_distortions=[ns.PotDist(w, 0)], sensor_response_distortions=[ns.RespDist(w, 0)])
    g1, g2 = e.reals('g1', 2, -V, V), e.reals('g2', 2, -V, V)
    e.assume(e.and_(g1[0] != g1[1], g2[0] != g2[1]))
    r = e.array(res, 'i')
    a, b, c = g1.copy(), g2.copy(), r.copy()
    out = (sim.measure if kind == 'measure' else sim.measure_sensor_scan)(g1, g2, 0.5, 0.5, resolution=r)
    e.eq(g1, a, 'the sweep range of gate 1 is not modified')
    e.eq(g2, b, 'the sweep range of gate 2 is not modified')
    e.eq(r, c, 'the resolution is not modified')
    k = ('sweep_range_g1', 'sweep_range_g2') if kind == 'measure' else ('sweep_range_sensor_g1', 'sweep_range_sensor_g2')
    g1[0] = 9.0
    g2[1] = 9.0
    e.check([x == y for x, y in zip(flat(out[3][k[0]]), flat(a))], 'metadata keeps the sweep range when the caller changes it')
    e.check([x == y for x, y in zip(flat(out[3][k[1]]), flat(b))], 'metadata keeps the sweep range when the caller changes it')


def again(e, kind, ctor, before):
    """the caller changes its object after the assignment and assigns the same object once more: now the change counts"""
    w = sw.World(e)
    ns = sw.classes()
    sim, cfg, ref = build(e, ns, w, ctor)
    if before:
        run(e, sim, kind, 2)
    z = e.real('mut', -V, V)
    for a in ATTRS:
        v = cfg[a]
        for x in (v if isinstance(v, list) and hasattr(v[0], 'state') else [v]):
            st = getattr(x, 'state', x)
            if a.startswith('volt'):
                e.assume(z <= 0)
                st[0] = z
            else:
                st[0] = z
                st[1] = z + 1
    ref2 = {a: snapc(v) for a, v in cfg.items()}
    for a in ATTRS:
        same(e, ref[a], getattr(sim, a), f'changing the assigned object leaves {a} unchanged')
    for i, a in enumerate(ATTRS):
        setattr(sim, a, cfg[a])
        for j, b in enumerate(ATTRS):
            same(e, ref2[b] if j <= i else ref[b], getattr(sim, b), f'assigning {a} again takes over its content of that moment and nothing else')
    del w.log[:]
    out = run(e, sim, kind, 2)
    used(e, w, ref2, 'a measurement uses the configuration as it was assigned last')
    for a in ATTRS:
        same(e, ref2[a], out[3][a], f'metadata reports {a} as it was assigned last')


def own(e, kind, before):
    """changes made through the object a property returns take effect, in this simulation only"""
    w = sw.World(e)
    ns = sw.classes()
    sim, cfg, ref = build(e, ns, w)
    from simcats import Simulation
    other = Simulation(**cfg)
    if before:
        run(e, sim, kind, 2)
    z = e.real('mut', -V, V)
    for a in WHAT:
        v = getattr(sim, a)
        for x in (v if isinstance(v, list) else [v]):
            x.state[0] = z
    del w.log[:]
    out = run(e, sim, kind, 2)
    ref2 = {a: (r[0], [z if i % 2 == 0 and a in WHAT else x for i, x in enumerate(r[1])]) for a, r in ref.items()}
    used(e, w, ref2, 'a measurement uses the configuration with the changes made through the properties')
    for a in ATTRS:
        same(e, ref2[a], out[3][a], f'metadata reports {a} with the changes made through the properties')
        same(e, ref[a], getattr(other, a), f'{a} of another simulation is unaffected')
        same(e, ref[a], cfg[a], f'the assigned object for {a} is unaffected')
    del w.log[:]
    run(e, other, kind, 2)
    used(e, w, ref, 'another simulation with the same objects is unaffected')


def bad_values(e, ns, w, attr):
    class Foreign:
        pass
    s = lambda: None
    if attr.startswith('volt'):
        v = e.real('v', -V, V)
        return [v, [v], [v, v, v], [], e.array([v]), e.array([v, v, v]), 'ab', Foreign(), {}]
    if attr == 'ideal_csd_config':
        return [Foreign(), ns.ScanSensor(w), ns.OccDist(w, 0, 1), 3, 'x', ns.CSD, [ns.CSD(w)]]
    if attr == 'sensor':
        return [Foreign(), ns.CSD(w), ns.PotDist(w, 0), 3, 'x', ns.Sensor, [ns.Sensor(w)]]
    good = {'occupation_distortions': lambda: ns.OccDist(w, 0, 1), 'sensor_potential_distortions': lambda: ns.PotDist(w, 0),
            'sensor_response_distortions': lambda: ns.RespDist(w, 0)}
    r = []
    for k, g in good.items():
        for other in ([x() for kk, x in good.items() if kk != k] + [Foreign(), ns.CSD(w), None, 1.0]):
            if k == attr:
                r += [[other], [g(), other], [other, g()], [g(), other, g()]]
    return r


def refused(e, attr, ctor):
    from simcats import Simulation
    w = sw.World(e)
    ns = sw.classes()
    for bad in bad_values(e, ns, w, attr):
        sim, cfg, ref = build(e, ns, w)
        if ctor:
            out, ex = e.catch(lambda: Simulation(**{attr: bad}), Exception)
        else:
            def f():
                setattr(sim, attr, bad)
            out, ex = e.catch(f, Exception)
        e.check(isinstance(ex, ValueError), f'a malformed {attr} is refused with ValueError')
        same(e, ref[attr], getattr(sim, attr), f'a refused assignment leaves the old {attr} in place')


def accepted(e):
    """None, lists and arrays of two limits, empty lists of distortions, default sensor"""
    from simcats import Simulation
    from simcats.sensor import SensorGeneric
    w = sw.World(e)
    ns = sw.classes()
    v = e.reals('v', 2, -V, V)
    for a in ATTRS:
        if a.startswith('volt'):
            sim = Simulation(**{a: [v[0], v[1]]})
            e.check([x == y for x, y in zip(flat(getattr(sim, a)), flat(v))], 'limits given as list are accepted')
            setattr(sim, a, v)
            e.check([x == y for x, y in zip(flat(getattr(sim, a)), flat(v))], 'limits given as array are accepted')
            e.check(getattr(sim, a) is not v, 'limits are copied')
            setattr(sim, a, None)
            e.check(getattr(sim, a) is None, 'limits can be removed')
        elif a != 'sensor':
            sim = Simulation(**{a: fresh(e, ns, w, a, 'f' + a)})
            setattr(sim, a, None)
            e.check(getattr(sim, a) is None, f'{a} can be removed')
            if a.endswith('distortions'):
                setattr(sim, a, [])
                e.check(getattr(sim, a) is not None and len(getattr(sim, a)) == 0, 'empty distortion lists are accepted')
    s1, s2 = Simulation(), Simulation(sensor=None)
    e.check(type(s1.sensor) is SensorGeneric and type(s2.sensor) is SensorGeneric, 'the generic sensor is the default')
    e.check(s1.sensor is not Simulation().sensor, 'default sensors are not shared between simulations')
    s1.sensor = None
    e.check(type(s1.sensor) is SensorGeneric, 'the generic sensor is used when the sensor is removed')


def scenarios(tier):
    S = []
    for kind in ('measure', 'scan'):
        for ctor in (True, False):
            for via in ('1d', '2d'):
                S.append(Scenario(f'caller_{kind}_{"ctor" if ctor else "setter"}_{via}', caller, dict(kind=kind, ctor=ctor, via=via)))
        for who in ('meta', 'getter', 'setter'):
            S.append(Scenario(f'meta_{kind}_{who}', meta, dict(kind=kind, who=who)))
        for before in (True, False):
            for ctor in (True, False):
                S.append(Scenario(f'again_{kind}_{int(ctor)}{int(before)}', again, dict(kind=kind, ctor=ctor, before=before)))
            S.append(Scenario(f'own_{kind}_{int(before)}', own, dict(kind=kind, before=before)))
        S.append(Scenario(f'meta_second_{kind}', meta2, dict(kind=kind)))
        for res in ([2], [2, 3]):
            S.append(Scenario(f'inputs_{kind}_{len(res)}d', inputs, dict(kind=kind, res=res)))
    for a in ATTRS:
        for ctor in (True, False):
            S.append(Scenario(f'refused_{a}_{"ctor" if ctor else "setter"}', refused, dict(attr=a, ctor=ctor)))
    S.append(Scenario('accepted', accepted))
    return S
