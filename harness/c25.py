"""C25 re-centring of the sensor"""
import numpy as np

from symx.harness import Scenario
from . import simworld as sw

FUNCTIONS = ['reset_offset_mu_sens', 'SensorGeneric.sensor_potential', 'SensorGeneric.offset_mu_sens', 'Simulation.measure']
BOUNDS = 'lever-arms, offset, target, sweep start and end voltages, occupations arbitrary reals in [-8, 8]; measured images 1D 1..4, 2D up to 3x3 starting at the same voltages; up to 3 re-centrings in a row; SensorGeneric and an arbitrary user-defined sensor whose potential contains its offset additively'
OUTSIDE = 'occupation and potential distortions (re-centring uses the undistorted structure); rounding; SensorScanSensorGeneric (its offset is a vector, the helper sets a scalar)'
ASSUMPTIONS = ['the ideal CSD depends on the voltages of a pixel only; a 1D scan starts at the first voltages of both ranges (C05, C06)']
V = 8


def ideal(e, memo):
    """occupations are an arbitrary function of the voltages; the first pixel of a scan is at the start of both ranges"""
    from simcats.ideal_csd import IdealCSDInterface

    class CSD(IdealCSDInterface):
        def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
            r = [int(v) for v in np.ravel(resolution)]
            shape = (r[0],) if len(r) == 1 else (r[1], r[0])
            occ = e.reals(f'occ{len(memo)}', shape + (2,), 0, V)
            memo.append(1)
            # same voltages, same occupations
            z = (0,) * len(shape)
            k = sw.key(volt_limits_g1[0], volt_limits_g2[0])
            at = known.setdefault(k, len(known))
            for c in (0, 1):
                occ[z + (c,)] = e.real(f'start{at}_{c}', 0, V)
            return occ, e.array(np.zeros(shape), 'i')

        def __deepcopy__(self, m):
            return self
    known = {}
    return CSD()


def make(e, kind, ad, ag, off):
    from simcats.sensor import SensorGeneric, SensorPeakLorentzian, SensorInterface
    if kind == 'generic':
        return SensorGeneric(sensor_peak_function=SensorPeakLorentzian(gamma=1.5, height=2.0, mu0=0.0, offset=0.25), alpha_dot=ad, alpha_gate=ag, offset_mu_sens=off)

    class Sensor(SensorInterface):
        """user-defined sensor"""

        def __init__(s):
            s.offset_mu_sens = off
            s.f = {}

        def sensor_potential(s, occupations, volt_limits_g1, volt_limits_g2):
            shape = occupations.shape[:-1]
            r = e.array(np.zeros(shape))
            for p in np.ndindex(*shape):
                o = occupations[p]
                v = (volt_limits_g1[0], volt_limits_g2[0]) if not any(p) else (p[0] * 1.0, p[-1] * 2.0)
                r[p] = 3 * o[0] * ad[0] - o[1] * v[0] + ag[0] * v[1] + s.offset_mu_sens
            return r

        def sensor_response(s, mu_sens):
            return 2 * mu_sens + 1
    return Sensor()


def recentre(e, kind, shape, times=1, same=False, dist=None, container=None):
    from simcats import Simulation
    from simcats.support_functions import reset_offset_mu_sens
    ad, ag = e.reals('ad', 2, -V, V), e.reals('ag', 2, -V, V)
    a0, b0 = ad.copy(), ag.copy()
    off = e.real('off', -V, V)
    sensor = make(e, kind, ad, ag, off)
    memo = []
    csd = ideal(e, memo)
    sim = Simulation(ideal_csd_config=csd, sensor=sensor)
    sensor, csd = sim.sensor, sim.ideal_csd_config
    g1, g2 = e.reals('g1', 2, -V, V), e.reals('g2', 2, -V, V)
    if len(shape) == 2:
        e.assume([g1[0] != g1[1], g2[0] != g2[1]])
    if same:
        g1[1], g2[1] = g1[0], g2[0]
    g10, g20 = g1.copy(), g2.copy()
    before = dict(peak=getattr(sensor, 'sensor_peak_function', None))
    for k in range(times):
        t = e.real(f'target{k}', -V, V)
        r = reset_offset_mu_sens(sim, t, *( [tuple(g1), tuple(g2)] if container == 'tuple' else [list(g1), list(g2)] if container == 'list' else [g1, g2])) if not container == 'kw' else \
            reset_offset_mu_sens(dqd_sim=sim, target_mu_sens=t, sweep_range_g1=g1, sweep_range_g2=g2)
        e.eq(g1, g10, 'sweep ranges are not modified')
        e.eq(g2, g20, 'sweep ranges are not modified')
        res = shape[0] if len(shape) == 1 else np.array([shape[1], shape[0]])
        occ, _ = csd.get_csd_data(g1, g2, res)
        z = (0,) * len(shape)
        e.observe(f'offset{k}', sim.sensor.offset_mu_sens)
        p = sim.sensor.sensor_potential(occ, g1, g2)
        e.close(p[z], t, 'sensor potential at the start voltages is the requested one', 1e-5)
        m = sim.measure(sweep_range_g1=g1, sweep_range_g2=g2, resolution=res)[0]
        one = e.array(np.zeros((1,)))
        one[0] = p[z]
        e.close(m[z], sim.sensor.sensor_response(one)[0], 'a measurement starting there starts at the requested potential', 1e-6)
        # nothing else changes
        e.check([sim.sensor is sensor, sim.ideal_csd_config is csd, sim.occupation_distortions is None, sim.sensor_potential_distortions is None,
                 sim.sensor_response_distortions is None, sim.volt_limits_g1 is None, sim.volt_limits_g2 is None], 'nothing else of the simulation changes')
        e.check(getattr(sensor, 'sensor_peak_function', None) is before['peak'], 'nothing else of the sensor changes')
        if kind == 'generic':
            e.eq(sensor.alpha_dot, a0, 'lever-arms stay as they are')
            e.eq(sensor.alpha_gate, b0, 'lever-arms stay as they are')
    # restoring the offset restores the potentials
    now = sim.sensor.offset_mu_sens
    sim.sensor.offset_mu_sens = off
    occ, _ = csd.get_csd_data(g1, g2, 2)
    p0 = sim.sensor.sensor_potential(occ, g1, g2)[0]
    sim.sensor.offset_mu_sens = now
    p1 = sim.sensor.sensor_potential(occ, g1, g2)[0]
    e.close(p1 - p0, now - off, 'only the offset moves the potential', 1e-5)


def other(e, kind, how):
    """re-centring for other ranges, targets, sensors or occupations in turn"""
    from simcats import Simulation
    from simcats.support_functions import reset_offset_mu_sens

    def sensor(t):
        return make(e, kind, e.reals('ad' + t, 2, -V, V), e.reals('ag' + t, 2, -V, V), e.real('off' + t, -V, V))
    sims = [Simulation(ideal_csd_config=ideal(e, []), sensor=sensor(''))]
    if how == 'simulations':
        sims.append(Simulation(ideal_csd_config=ideal(e, [0] * 50), sensor=sensor('_')))
    R = [(e.reals('g1', 2, -V, V), e.reals('g2', 2, -V, V)), (e.reals('h1', 2, -V, V), e.reals('h2', 2, -V, V))]
    if how == 'end':          # the same start voltages
        R[1][0][0], R[1][1][0] = R[0][0][0], R[0][1][0]
    g1, g2 = R[0][0].copy(), R[0][1].copy()
    t = e.real('t', -V, V)
    for k in range(4):
        i = k % 2
        sim = sims[i % len(sims)]
        if how == 'inplace':
            g1[...], g2[...] = R[i]
        else:
            g1, g2 = R[0] if how in ('sensor', 'simulations', 'offset') else R[i]
        if how == 'sensor' and k:
            sim.sensor = sensor(str(k))
        if how == 'offset' and k:
            sim.sensor.offset_mu_sens = e.real(f'new{k}', -V, V)
        reset_offset_mu_sens(sim, t, g1, g2)
        e.observe(f'offset{k}', sim.sensor.offset_mu_sens)
        occ, _ = sim.ideal_csd_config.get_csd_data(g1, g2, 2)
        e.close(sim.sensor.sensor_potential(occ, g1, g2)[0], t, 'sensor potential at the start voltages is the requested one', 1e-5)
        if len(sims) > 1:
            o = sims[1 - i]
            occ, _ = o.ideal_csd_config.get_csd_data(g1, g2, 2)
            now = o.sensor.sensor_potential(occ, g1, g2)[0]
            if k:
                e.close(now, t, 'other simulations are not changed', 1e-5)


def scenarios(tier):
    S = []
    for kind in ('generic', 'user'):
        for how in ('ranges', 'end', 'inplace', 'sensor', 'offset', 'simulations'):
            S.append(Scenario(f'{kind} other {how}', other, dict(kind=kind, how=how)))
    for kind in ('generic', 'user'):
        for shape in ((1,), (2,), (4,), (2, 2), (2, 3), (3, 2)):
            S.append(Scenario(f"{kind} {'x'.join(map(str, shape))}", recentre, dict(kind=kind, shape=shape)))
        S.append(Scenario(f'{kind} repeated', recentre, dict(kind=kind, shape=(2,), times=3)))
        S.append(Scenario(f'{kind} fixed voltages', recentre, dict(kind=kind, shape=(2,), same=True)))
        for c in ('tuple', 'list', 'kw'):
            S.append(Scenario(f'{kind} {c}', recentre, dict(kind=kind, shape=(2, 2), container=c)))
    return S
