"""C02 measurement pipeline: order and data flow of all distortion stages"""
import numpy as np

from symx.harness import Scenario
from . import simworld as sw
from .simworld import flat

FUNCTIONS = ['Simulation.measure', 'Simulation.measure_sensor_scan']
BOUNDS = ('all stage outputs arbitrary reals; 0..3 distortions per stage in every position, in-place or fresh-array style; '
          '1D (2 pixels) and 2D (2x3 / 3x2) measurements; sensors with one, two, three and four potentials; '
          'histories of up to three measurements on one simulation and on two side by side (changed arguments, arguments '
          'changed in place, every stage reassigned, changed in place, reassigned after a change, or raising in between)')
OUTSIDE = 'more than three distortions per stage and larger images (the pipeline loops have no further size-dependent branch)'
ASSUMPTIONS = ['plug-ins (ideal CSD, sensor, distortions) are arbitrary functions behind the documented interfaces']

V = 4
RES = {'1d': 2, '1dlen1': [3], '2d': [2, 3], '2dsq': [3, 3], '2dt': [3, 2]}


def mkres(e, k):
    r = RES[k]
    return r if isinstance(r, int) else e.array(r, 'i')


def same_range(e, got, want, label):
    e.check(len(flat(got)) == 2 and got is not None, label)
    e.check([a == b for a, b in zip(flat(got), flat(want))], label)


def same_val(e, got, want, label):
    if want is None or got is None:
        e.check(want is None and got is None, label)
    else:
        e.eq(got, want, label)


def dists(ns, w, n, cls, style):
    st = {'inplace': ['inplace'] * 3, 'fresh': ['fresh'] * 3, 'mixed': ['fresh', 'inplace', 'fresh']}[style]
    if cls == 'occ':
        return [ns.OccDist(w, i, (2, 3, 5)[i], st[i]) for i in range(n)]
    return [getattr(ns, cls)(w, i, st[i]) for i in range(n)]


def names(w, *drop):
    return [n for n in w.names() if n not in drop]


def measure(e, res, n, style, scan_sensor, single=False, sens_volts=True, unset=False, pots=3):
    from simcats import Simulation
    w = sw.World(e)
    ns = sw.classes()
    no, npot, nr = n
    sensor = ns.ScanSensor(w, single=single, pots=pots) if scan_sensor else ns.Sensor(w)
    sim = Simulation(ideal_csd_config=ns.CSD(w), sensor=sensor,
                     occupation_distortions=None if unset and not no else dists(ns, w, no, 'occ', style),
                     sensor_potential_distortions=None if unset and not npot else dists(ns, w, npot, 'PotDist', style),
                     sensor_response_distortions=None if unset and not nr else dists(ns, w, nr, 'RespDist', style))
    pipeline(e, w, sim, n, res, scan_sensor, single, sens_volts, pots)


def inputs(e, tag, names, volts):
    g1, g2 = e.reals(names[0] + tag, 2, -V, V), e.reals(names[1] + tag, 2, -V, V)
    e.assume(e.and_(g1[0] != g1[1], g2[0] != g2[1]))
    v1, v2 = (e.real('v1' + tag, -V, V), e.real('v2' + tag, -V, V)) if volts else (None, None)
    return g1, g2, v1, v2


def pipeline(e, w, sim, n, res, scan_sensor, single=False, sens_volts=True, pots=3, inp=None, states={}):
    """one measurement and everything it has to do (the stages' states are those in states)"""
    no, npot, nr = n
    g1, g2, v1, v2 = inp or inputs(e, '', ('g1', 'g2'), sens_volts)
    r = mkres(e, res)
    shp = sw.shape_of(r)
    out = sim.measure(g1, g2, volt_sensor_g1=v1, volt_sensor_g2=v2, resolution=r)
    e.check(len(out) == 4, 'measure returns signal, occupations, lead transitions and metadata')
    csd, occ, lead, meta = out
    L = w.log
    check_states(e, w, states)
    order = ['csd'] + [f'occ{i}' for i in range(no)] + ['potential']
    if scan_sensor and not single:
        order += [f'pot{i}' for i in range(npot) for _ in range(pots)]
    else:
        order += [f'pot{i}' for i in range(npot)]
    order += ['response'] + [f'resp{i}' for i in range(nr)]
    e.check(w.names() == order, 'stages run in the documented order')
    if w.names() != order:
        return
    it = iter(L)
    c = next(it)
    same_range(e, c['g1'], g1, 'ideal CSD gets the sweep range of gate 1')
    same_range(e, c['g2'], g2, 'ideal CSD gets the sweep range of gate 2')
    e.check(sw.shape_of(c['res']) == shp, 'ideal CSD gets the requested resolution')
    co, cl = c['out']
    for i in range(no):
        o = next(it)
        e.eq(o['occ'], co, f'occupation distortion gets the occupations of the previous stage')
        e.eq(o['lead'], cl, f'occupation distortion gets the lead transitions of the previous stage')
        same_range(e, o['g1'], g1, 'occupation distortion gets the sweep range of gate 1')
        same_range(e, o['g2'], g2, 'occupation distortion gets the sweep range of gate 2')
        e.check(not o['freeze'], 'distortions of the measurement itself are not frozen')
        co, cl = o['out']
    p = next(it)
    e.eq(p['occ'], co, 'sensor potential is computed from the distorted occupations')
    same_range(e, p['g1'], g1, 'sensor gets the sweep range of gate 1')
    same_range(e, p['g2'], g2, 'sensor gets the sweep range of gate 2')
    if scan_sensor:
        same_val(e, p['s1'], v1, 'sensor gets the voltage of sensor gate 1')
        same_val(e, p['s2'], v2, 'sensor gets the voltage of sensor gate 2')
    pot = p['out'].copy()
    for i in range(npot):
        if scan_sensor and not single:
            recs = [next(it) for _ in range(pots)]
            for k, d in enumerate(recs):
                e.eq(d['inp'], pot[k], 'potential distortion gets each potential of the previous stage')
                pot[k] = d['out']
        else:
            recs = [next(it)]
            e.eq(recs[0]['inp'], pot, 'potential distortion gets the potential of the previous stage')
            pot = recs[0]['out']
        for d in recs:
            same_range(e, d['g1'], g1, 'potential distortion gets the sweep range of gate 1')
            same_range(e, d['g2'], g2, 'potential distortion gets the sweep range of gate 2')
    rr = next(it)
    e.eq(rr['mu'], pot, 'sensor response is computed from the distorted potential')
    y = rr['out']
    for i in range(nr):
        d = next(it)
        e.eq(d['inp'], y, 'response distortion gets the response of the previous stage')
        same_range(e, d['g1'], g1, 'response distortion gets the sweep range of gate 1')
        same_range(e, d['g2'], g2, 'response distortion gets the sweep range of gate 2')
        y = d['out']
    e.observe('csd', csd)
    e.eq(csd, y, 'returned signal is the output of the last response stage')
    e.eq(occ, co, 'returned occupations are those after the last occupation distortion')
    e.eq(lead, cl, 'returned lead transitions are those after the last occupation distortion')
    check_meta(e, meta, dict(sweep_range_g1=g1, sweep_range_g2=g2, volt_sensor_g1=v1, volt_sensor_g2=v2), shp, sim)


def check_states(e, w, states):
    for l in w.log:
        if l['what'] in states:
            same_val(e, l['state'], states[l['what']], 'every stage is the one configured now')


def check_meta(e, meta, vals, shp, sim):
    for k, v in vals.items():
        e.check(k in meta, f'metadata reports {k}')
        if v is None:
            e.check(meta[k] is None, f'metadata reports {k}')
        else:
            e.check([a == b for a, b in zip(flat(meta[k]), flat(v))] + [len(flat(meta[k])) == len(flat(v))],
                    f'metadata reports {k} of this measurement')
    e.check(sw.shape_of(meta['resolution']) == shp, 'metadata reports the resolution')
    for k in ('volt_limits_g1', 'volt_limits_g2', 'volt_limits_sensor_g1', 'volt_limits_sensor_g2'):
        e.check(k in meta and meta[k] is None and getattr(sim, k) is None, 'metadata reports the limits')
    e.check((meta['ideal_csd_config'] is None) == (sim.ideal_csd_config is None) and
            type(meta['ideal_csd_config']) is type(sim.ideal_csd_config), 'metadata reports the ideal CSD configuration')
    e.check(type(meta['sensor']) is type(sim.sensor), 'metadata reports the sensor')
    for k in ('occupation_distortions', 'sensor_potential_distortions', 'sensor_response_distortions'):
        a, b = meta[k], getattr(sim, k)
        e.check((a is None) == (b is None) and (a is None or [(type(x), x.i) for x in a] == [(type(x), x.i) for x in b]),
                f'metadata reports the {k}')


def scan(e, res, n, style, csd=True, volts=True, single=False, unset=False, pots=3):
    from simcats import Simulation
    w = sw.World(e)
    ns = sw.classes()
    npot, nr = n
    sim = Simulation(ideal_csd_config=ns.CSD(w) if csd else None, sensor=ns.ScanSensor(w, single=single, pots=pots),
                     occupation_distortions=dists(ns, w, 1, 'occ', style) if style != 'inplace' else None,
                     sensor_potential_distortions=None if unset and not npot else dists(ns, w, npot, 'PotDist', style),
                     sensor_response_distortions=None if unset and not nr else dists(ns, w, nr, 'RespDist', style))
    pipeline_scan(e, w, sim, n, res, csd, single, volts, pots)


def pipeline_scan(e, w, sim, n, res, csd=True, single=False, volts=True, pots=3, inp=None, states={}):
    npot, nr = n
    s1, s2, v1, v2 = inp or inputs(e, '', ('s1', 's2'), volts)
    r = mkres(e, res)
    shp = sw.shape_of(r)
    out = sim.measure_sensor_scan(s1, s2, volt_g1=v1, volt_g2=v2, resolution=r)
    e.check(len(out) == 4, 'a sensor scan returns signal, conductive mask, peak mask and metadata')
    y_out, cond, peak, meta = out
    L = w.log
    check_states(e, w, states)
    use = csd and volts
    main = [l for l in L if l['what'].startswith('pot') and l['what'] != 'potential' or l['what'].startswith('resp')]
    order = [f'pot{i}' for i in range(npot) for _ in range(1 if single else pots)] + ['response'] + [f'resp{i}' for i in range(nr)]
    e.check([l['what'] for l in main] == order, 'stages run in the documented order')
    cs = [l for l in L if l['what'] == 'csd']
    e.check(bool(cs) == use, 'the ideal CSD is used exactly when it is configured and the double-dot voltages are given')
    if use:
        c = cs[-1]
        e.eq(e.array(flat(c['g1'])), e.array([v1, v1]), 'ideal CSD is evaluated at the fixed voltage of gate 1')
        e.eq(e.array(flat(c['g2'])), e.array([v2, v2]), 'ideal CSD is evaluated at the fixed voltage of gate 2')
        o = flat(c['out'][0])[:2]
    else:
        o = [0.0, 0.0]
    precs = [l for l in L if l['what'] == 'potential']
    e.check(len(precs) >= 1, 'the sensor potential is computed')
    for p in precs:
        for d in (0, 1):
            e.eq(p['occ'][..., d], np.full(shp, o[d]) if not e.sym else e.np.full(shp, o[d]),
                 'every pixel has the occupations found at the fixed double-dot voltages')
        same_val(e, p['g1'], v1, 'sensor gets the fixed voltage of gate 1')
        same_val(e, p['g2'], v2, 'sensor gets the fixed voltage of gate 2')
        same_range(e, p['s1'], s1, 'sensor gets the sweep range of sensor gate 1')
        same_range(e, p['s2'], s2, 'sensor gets the sweep range of sensor gate 2')
    lab = [l for l in L if l['what'] == 'labels']
    e.check(len(lab) == 1, 'labels are computed once')
    l = lab[0]
    e.eq(l['pot'], precs[-1]['out'], 'labels are computed from the undistorted potentials')
    same_val(e, l['g1'], v1, 'labels get the fixed voltage of gate 1')
    same_val(e, l['g2'], v2, 'labels get the fixed voltage of gate 2')
    same_range(e, l['s1'], s1, 'labels get the sweep range of sensor gate 1')
    same_range(e, l['s2'], s2, 'labels get the sweep range of sensor gate 2')
    e.eq(cond, l['out'][0], 'returned conductive mask is the one of the sensor')
    e.eq(peak, l['out'][1], 'returned peak mask is the one of the sensor')
    if [x['what'] for x in main] != order:
        return
    it = iter(main)
    pot = precs[0]['out'].copy()
    for i in range(npot):
        recs = [next(it) for _ in range(1 if single else pots)]
        for k, d in enumerate(recs):
            e.eq(d['inp'], pot if single else pot[k], 'potential distortion gets each potential of the previous stage')
            if single:
                pot = d['out']
            else:
                pot[k] = d['out']
            same_range(e, d['g1'], s1, 'potential distortion gets the sweep range of sensor gate 1')
            same_range(e, d['g2'], s2, 'potential distortion gets the sweep range of sensor gate 2')
    rr = next(it)
    e.eq(rr['mu'], pot, 'sensor response is computed from the distorted potentials')
    y = rr['out']
    for i in range(nr):
        d = next(it)
        e.eq(d['inp'], y, 'response distortion gets the response of the previous stage')
        same_range(e, d['g1'], s1, 'response distortion gets the sweep range of sensor gate 1')
        same_range(e, d['g2'], s2, 'response distortion gets the sweep range of sensor gate 2')
        y = d['out']
    e.eq(y_out, y, 'returned signal is the output of the last response stage')
    check_meta(e, meta, dict(sweep_range_sensor_g1=s1, sweep_range_sensor_g2=s2, volt_g1=v1, volt_g2=v2), shp, sim)


# histories ------------------------------------------------------------------------------------------------------------
STAGES = {'csd': ['csd'], 'sensor': ['potential', 'response', 'labels'], 'occ': ['occ0', 'occ1'], 'pot': ['pot0', 'pot1'],
          'resp': ['resp0', 'resp1']}
ATTR = {'csd': 'ideal_csd_config', 'sensor': 'sensor', 'occ': 'occupation_distortions', 'pot': 'sensor_potential_distortions',
        'resp': 'sensor_response_distortions'}


class Story:
    """one simulation object over several measurements: the configuration of every stage is tracked"""

    def __init__(self, e, kind, pots=3, other=None):
        from simcats import Simulation
        self.e, self.kind, self.pots = e, kind, pots
        self.w = other.w if other else sw.World(e)
        self.ns = other.ns if other else sw.classes()
        self.sim = Simulation()
        self.states, self.k, self.held = {}, 100 if other else 0, {}
        for part in ATTR:
            self.assign(part)

    def state(self, tag):
        self.k += 1
        return self.e.reals(f'st_{tag}{self.k}', 2, -V, V)

    def make(self, part, n=2):
        st = [self.state(part) for _ in range(n if part in ('occ', 'pot', 'resp') else 1)]
        ns, w = self.ns, self.w
        if part == 'csd':
            v = ns.CSD(w, state=st[0])
        elif part == 'sensor':
            v = ns.ScanSensor(w, state=st[0], pots=self.pots)
        else:
            cls = {'occ': lambda w, i, state: ns.OccDist(w, i, 2, state=state), 'pot': ns.PotDist, 'resp': ns.RespDist}[part]
            v = [cls(w, i, state=s) for i, s in enumerate(st)]
        return v, st

    def note(self, part, st):
        for nm in STAGES[part]:
            self.states.pop(nm, None)
        for i, nm in enumerate(STAGES[part]):
            if part in ('csd', 'sensor'):
                self.states[nm] = st[0].copy()
            elif i < len(st):
                self.states[nm] = st[i].copy()

    def assign(self, part, n=2):
        v, st = self.make(part, n)
        self.held[part] = v
        setattr(self.sim, ATTR[part], v)
        self.note(part, st)

    def each(self, v):
        return v if isinstance(v, list) else [v]

    def inplace(self, part):
        """the configuration is changed through the object the simulation returns"""
        st = []
        for x in self.each(getattr(self.sim, ATTR[part])):
            new = self.state(part)
            x.state[0], x.state[1] = new[0], new[1]
            st.append(new)
        self.note(part, st)

    def again(self, part):
        """the caller changes its own object and assigns the same object again"""
        st = []
        for x in self.each(self.held[part]):
            new = self.state(part)
            x.state[0], x.state[1] = new[0], new[1]
            st.append(new)
        setattr(self.sim, ATTR[part], self.held[part])
        self.note(part, st)

    def n(self):
        return tuple(sum(1 for nm in STAGES[p] if nm in self.states) for p in ('occ', 'pot', 'resp'))

    def measure(self, tag, res, inp=None, kind=None):
        del self.w.log[:]
        k = kind or self.kind
        n = self.n()
        if k == 'measure':
            pipeline(self.e, self.w, self.sim, n, res, True, pots=self.pots, states=self.states,
                     inp=inp or inputs(self.e, tag, ('g1', 'g2'), True))
        else:
            pipeline_scan(self.e, self.w, self.sim, n[1:], res, True, pots=self.pots, states=self.states,
                          inp=inp or inputs(self.e, tag, ('s1', 's2'), True))


def history_set(e, kind, part, how, res):
    """measure, reconfigure one stage, measure again with the same arguments"""
    s = Story(e, kind)
    inp = inputs(e, '', ('g1', 'g2'), True)
    s.measure('', res, inp)
    if how == 'shorter':
        s.assign(part, 1)
    else:
        getattr(s, how)(part)
    s.measure('', res, inp)


def history_args(e, kind, ress, what):
    """several measurements with different arguments on one simulation; afterwards the first again"""
    s = Story(e, kind)
    a = inputs(e, '', ('g1', 'g2'), True)
    b = inputs(e, 'b', ('g1', 'g2'), True)
    if what == 'inplace':
        s.measure('', ress[0], a)
        for x, y in zip(a[:2], b[:2]):
            x[0], x[1] = y[0], y[1]
        s.measure('', ress[0], a)
        return
    c = tuple(y if what in ('all', i) else x for i, (x, y) in enumerate(zip(a, b)))
    s.measure('', ress[0], a)
    s.measure('', ress[-1], c)
    s.measure('', ress[0], a)


def history_kinds(e, kind, res):
    s = Story(e, kind)
    inp = inputs(e, '', ('g1', 'g2'), True)
    s.measure('', res, inp)
    s.measure('', res, inp, 'scan' if kind == 'measure' else 'measure')
    s.measure('', res, inp)


def history_fail(e, kind, stage, res):
    """a stage raises in the middle of a measurement; the next measurement is unaffected"""
    s = Story(e, kind)
    inp = inputs(e, '', ('g1', 'g2'), True)
    s.w.fail = stage
    f = s.sim.measure if kind == 'measure' else s.sim.measure_sensor_scan
    out, ex = e.catch(lambda: f(*[x.copy() if hasattr(x, 'copy') else x for x in inp], resolution=mkres(e, res)), Exception)
    if s.w.fail is None:
        e.check(isinstance(ex, sw.PlugInError), 'the error of a stage reaches the caller')
    s.w.fail = None
    s.measure('', res, inp)


def history_two(e, kind, res):
    """two simulations side by side"""
    s = Story(e, kind)
    t = Story(e, kind, other=s)
    inp = inputs(e, '', ('g1', 'g2'), True)
    s.measure('', res, inp)
    t.measure('', res, inp)
    s.measure('', res, inp)


def scenarios(tier):
    S = []
    N = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 2, 2), (3, 3, 3)]
    for res in RES:
        for n in N:
            for style in ('inplace', 'fresh', 'mixed'):
                if sum(n) == 0 and style != 'fresh':
                    continue
                if tier != 'thorough' and (res in ('1dlen1', '2dsq', '2dt') and n != (2, 2, 2)):
                    continue
                nm = ''.join(map(str, n))
                S.append(Scenario(f'measure_{res}_{nm}_{style}', measure, dict(res=res, n=n, style=style, scan_sensor=False, unset=True)))
                S.append(Scenario(f'measure_multi_{res}_{nm}_{style}', measure, dict(res=res, n=n, style=style, scan_sensor=True)))
    S.append(Scenario('measure_single_scan_sensor', measure, dict(res='2d', n=(1, 2, 1), style='mixed', scan_sensor=True, single=True)))
    S.append(Scenario('measure_no_sensor_volts', measure, dict(res='2d', n=(1, 2, 1), style='mixed', scan_sensor=True, sens_volts=False)))
    for res in RES:
        for csd in (True, False):
            for volts in (True, False):
                for n in ((0, 0), (1, 1), (2, 3), (3, 2)):
                    for style in ('inplace', 'fresh', 'mixed'):
                        if tier != 'thorough' and (res == '2dt' or n == (3, 2) or n == (1, 1) and style != 'fresh' or n == (0, 0) and style != 'fresh'):
                            continue
                        S.append(Scenario(f'scan_{res}_csd{int(csd)}_v{int(volts)}_{n[0]}{n[1]}_{style}', scan,
                                          dict(res=res, n=n, style=style, csd=csd, volts=volts, unset=True)))
    for kind in ('measure', 'scan'):
        for pots in (2, 4):
            S.append(Scenario(f'{kind}_pots{pots}', measure if kind == 'measure' else scan,
                              dict(res='2d', n=(1, 2, 1), style='mixed', scan_sensor=True, pots=pots) if kind == 'measure' else
                              dict(res='2d', n=(2, 1), style='mixed', pots=pots)))
        for part in ATTR:
            for how in ('assign', 'inplace', 'again') + (('shorter',) if part in ('occ', 'pot', 'resp') else ()):
                S.append(Scenario(f'history_{kind}_{part}_{how}', history_set, dict(kind=kind, part=part, how=how, res='2d')))
                if tier == 'thorough':
                    S.append(Scenario(f'history1d_{kind}_{part}_{how}', history_set, dict(kind=kind, part=part, how=how, res='1d')))
        for ress in (('2d',), ('1d',), ('2d', '2dsq'), ('1d', '2d'), ('2d', '1d'), ('2d', '2dt')):
            for what in (0, 1, 2, 3, 'all', 'none', 'inplace'):
                if what in ('none', 'inplace') and (len(ress) > 1) == (what == 'inplace') or what in (0, 1, 2, 3) and len(ress) > 1:
                    continue
                S.append(Scenario(f'history_{kind}_args_{"_".join(ress)}_{what}', history_args, dict(kind=kind, ress=ress, what=what)))
        S.append(Scenario(f'history_{kind}_other_kind', history_kinds, dict(kind=kind, res='2d')))
        S.append(Scenario(f'history_{kind}_two', history_two, dict(kind=kind, res='2d')))
        for st in ('csd', 'occ0', 'occ1', 'potential', 'pot0', 'pot1', 'response', 'resp0', 'resp1', 'labels'):
            if kind == 'measure' and st == 'labels' or kind == 'scan' and st.startswith('occ'):
                continue
            S.append(Scenario(f'history_{kind}_fail_{st}', history_fail, dict(kind=kind, stage=st, res='2d')))
    S.append(Scenario('scan_single', scan, dict(res='2d', n=(2, 2), style='mixed', single=True)))
    return S
