"""Stub implementations of the simulation's plug-in interfaces, shared by C01-C04. Each stage returns arbitrary (symbolic)
data and logs what it was given, so that the assertions quantify over every possible behaviour of the plug-ins."""
import numpy as np


def flat(x):
    if isinstance(x, np.ndarray):
        return np.ndarray.ravel(x).tolist()
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def key(*xs):
    out = []
    for x in xs:
        if x is None:
            out.append('None')
            continue
        out.append(str(np.shape(x)) if isinstance(x, (np.ndarray, list, tuple)) else '()')
        for v in flat(x):
            t = getattr(v, 't', None)
            out.append(t.sexpr() if t is not None else repr(float(v)))
    return '|'.join(out)


def snap(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(snap(v) for v in x)
    return x


class World:
    """shared log and value source; copies of a stub share it"""

    def __init__(self, e):
        self.e, self.log, self.memo, self.n, self.args = e, [], {}, 0, {}
        self.fail = None        # the stage that raises (once) instead of answering

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def fresh(self, tag, shape):
        self.n += 1
        return self.e.reals(f'{tag}{self.n}', shape, -4, 4)

    def func(self, tag, shape, *args):
        """deterministic arbitrary function of its arguments"""
        k = (tag, key(*args))
        if k not in self.memo:
            new = self.memo[k] = self.fresh(tag, shape)
            now = [v for a in args if a is not None for v in flat(a)]
            for old, val in self.args.get((tag, k[1].count('|'), shape), []):
                # equal arguments, equal results
                same = self.e.and_(*[a == b for a, b in zip(now, old)]) if now else True
                self.e.assume(self.e.or_(self.e.not_(same), self.e.and_(*[a == b for a, b in zip(flat(val), flat(new))])))
            self.args.setdefault((tag, k[1].count('|'), shape), []).append((now, new))
        else:
            self.n += 1        # names must not depend on which arguments coincide
        return self.memo[k].copy()

    def enter(self, what):
        if self.fail == what:
            self.fail = None
            raise PlugInError(what)

    def names(self):
        return [l['what'] for l in self.log]


class PlugInError(Exception):
    pass


def shape_of(resolution):
    if isinstance(resolution, (int, np.integer)):
        return (int(resolution),)
    if np.ndim(resolution) == 0:
        return (int(resolution),)
    r = [int(v) for v in flat(resolution)]
    return (r[0],) if len(r) == 1 else (r[1], r[0])


def classes():
    """the stub classes, derived from the interfaces of the code as it is now"""
    from simcats.ideal_csd import IdealCSDInterface
    from simcats.sensor import SensorInterface, SensorScanSensorInterface
    from simcats.distortions import (OccupationDistortionInterface, SensorPotentialDistortionInterface,
                                     SensorResponseDistortionInterface)

    class CSD(IdealCSDInterface):
        def __init__(self, w, state=None):
            self.w, self.state = w, state

        def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
            self.w.enter('csd')
            s = shape_of(resolution)
            occ = self.w.func('occ', s + (2,), volt_limits_g1, volt_limits_g2, np.array(s), self.state)
            lead = self.w.func('lead', s, volt_limits_g1, volt_limits_g2, np.array(s), self.state)
            self.w.log.append(dict(what='csd', g1=snap(volt_limits_g1), g2=snap(volt_limits_g2), res=snap(resolution),
                                   state=snap(self.state), out=(snap(occ), snap(lead))))
            return occ, lead

    class Sensor(SensorInterface):
        def __init__(self, w, state=None):
            self.w, self.state = w, state

        def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2):
            self.w.enter('potential')
            r = self.w.func('pot', occupations.shape[:-1], occupations, volt_limits_g1, volt_limits_g2, self.state)
            self.w.log.append(dict(what='potential', occ=snap(occupations), g1=snap(volt_limits_g1), g2=snap(volt_limits_g2),
                                   state=snap(self.state), out=snap(r)))
            return r

        def sensor_response(self, mu_sens):
            self.w.enter('response')
            r = self.w.func('resp', mu_sens.shape, mu_sens, self.state)
            self.w.log.append(dict(what='response', mu=snap(mu_sens), state=snap(self.state), out=snap(r)))
            return r

    class ScanSensor(SensorScanSensorInterface):
        def __init__(self, w, state=None, single=False, pots=3):
            self.w, self.state, self.single, self.pots = w, state, single, pots

        def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1,
                             volt_limits_sensor_g2):
            self.w.enter('potential')
            s = occupations.shape[:-1]
            r = self.w.func('pot', s if self.single else (self.pots,) + s, occupations, volt_limits_g1, volt_limits_g2,
                            volt_limits_sensor_g1, volt_limits_sensor_g2, self.state)
            self.w.log.append(dict(what='potential', occ=snap(occupations), g1=snap(volt_limits_g1), g2=snap(volt_limits_g2),
                                   s1=snap(volt_limits_sensor_g1), s2=snap(volt_limits_sensor_g2),
                                   state=snap(self.state), out=snap(r)))
            return r

        def sensor_response(self, mu_sens):
            s = mu_sens.shape if self.single else mu_sens.shape[1:]
            self.w.enter('response')
            r = self.w.func('resp', s, mu_sens, self.state)
            self.w.log.append(dict(what='response', mu=snap(mu_sens), state=snap(self.state), out=snap(r)))
            return r

        def get_sensor_scan_labels(self, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2,
                                   potential):
            s = potential.shape if self.single else potential.shape[1:]
            self.w.enter('labels')
            c = self.w.func('lab', s, potential, self.state)
            p = self.w.func('peak', s, potential, self.state)
            self.w.log.append(dict(what='labels', g1=snap(volt_limits_g1), g2=snap(volt_limits_g2),
                                   s1=snap(volt_limits_sensor_g1), s2=snap(volt_limits_sensor_g2), pot=snap(potential),
                                   state=snap(self.state), out=(snap(c), snap(p))))
            return c, p

    class OccDist(OccupationDistortionInterface):
        """output = factor * input + noise; the noise is drawn anew unless frozen. request: (g1, g2, resolution) asked
        from generate_csd"""

        def __init__(self, w, i, factor, style='inplace', request=None, state=None):
            self.w, self.i, self.factor, self.style, self.request, self.state = w, i, factor, style, request, state
            self.noise = None
            self.drawn = 0

        def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None,
                           freeze=False):
            self.w.enter(f'occ{self.i}')
            rec = dict(what=f'occ{self.i}', occ=snap(occupations), lead=snap(lead_transitions), g1=snap(volt_limits_g1),
                       g2=snap(volt_limits_g2), freeze=freeze, state=snap(self.state), request=None)
            self.w.log.append(rec)
            if not freeze:
                self.noise = self.w.fresh(f'noise{self.i}_', (2,))
            rec['noise'] = self.noise
            if self.request is not None:
                rec['request'] = generate_csd(*self.request)
            a = self.factor
            if self.noise is None:
                raise AssertionError('frozen repetition requested from a distortion that has not drawn noise')
            no, nl = a * occupations + self.noise[0], a * lead_transitions + self.noise[1]
            if self.style == 'inplace':
                occupations[...] = no
                lead_transitions[...] = nl
                no, nl = occupations, lead_transitions
            rec['out'] = (snap(no), snap(nl))
            return no, nl

    class PotDist(SensorPotentialDistortionInterface):
        def __init__(self, w, i, style='fresh', state=None):
            self.w, self.i, self.style, self.state = w, i, style, state

        def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
            self.w.enter(f'pot{self.i}')
            rec = dict(what=f'pot{self.i}', inp=snap(mu_sens), g1=snap(volt_limits_g1), g2=snap(volt_limits_g2),
                       state=snap(self.state))
            self.w.log.append(rec)
            r = self.w.fresh(f'pd{self.i}_', mu_sens.shape)
            if self.style == 'inplace':
                mu_sens[...] = r
                r = mu_sens
            rec['out'] = snap(r)
            return r

    class RespDist(SensorResponseDistortionInterface):
        def __init__(self, w, i, style='fresh', state=None):
            self.w, self.i, self.style, self.state = w, i, style, state

        def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
            self.w.enter(f'resp{self.i}')
            rec = dict(what=f'resp{self.i}', inp=snap(sensor_response), g1=snap(volt_limits_g1), g2=snap(volt_limits_g2),
                       state=snap(self.state))
            self.w.log.append(rec)
            r = self.w.fresh(f'rd{self.i}_', sensor_response.shape)
            if self.style == 'inplace':
                sensor_response[...] = r
                r = sensor_response
            rec['out'] = snap(r)
            return r

    class NS:
        pass

    ns = NS()
    ns.CSD, ns.Sensor, ns.ScanSensor, ns.OccDist, ns.PotDist, ns.RespDist = CSD, Sensor, ScanSensor, OccDist, PotDist, RespDist
    return ns
