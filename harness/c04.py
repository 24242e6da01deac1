"""C04 regenerated CSD structure reproduces earlier distortions with their noise frozen"""
import numpy as np

from symx.harness import Scenario
from . import simworld as sw
from .simworld import flat

FUNCTIONS = ['Simulation.measure (generate_csd chain)']
BOUNDS = ('1..3 occupation distortions (affine with arbitrary noise), any of them requesting structure; requested ranges arbitrary reals, '
          'requested resolution 1D (1..3) or 2D (2x3); in-place or fresh-array style; two measurements in a row')
OUTSIDE = 'more than three occupation distortions'
ASSUMPTIONS = ['the ideal CSD is an arbitrary deterministic function of ranges and resolution',
               'a frozen distortion reproduces its last noise (checked per distortion in C21/C22)']
V = 4
FAC = (2, 3, 5)


def expect(e, w, dist_noise, k, g1, g2, res):
    """structure after the distortions 0..k-1 with the given noise"""
    s = sw.shape_of(res)
    occ = w.func('occ', s + (2,), g1, g2, np.array(s), None)
    lead = w.func('lead', s, g1, g2, np.array(s), None)
    for i in range(k):
        occ = FAC[i] * occ + dist_noise[i][0]
        lead = FAC[i] * lead + dist_noise[i][1]
    return occ, lead


def chain(e, n, ask, res, rres, style, rounds=2, scan=False):
    from simcats import Simulation
    w = sw.World(e)
    ns = sw.classes()
    sim = Simulation(ideal_csd_config=ns.CSD(w), sensor=ns.Sensor(w))
    rr = rres if isinstance(rres, int) else e.array(rres, 'i')
    q1, q2 = e.reals('q1', 2, -V, V), e.reals('q2', 2, -V, V)
    st = {'inplace': ['inplace'] * 3, 'fresh': ['fresh'] * 3, 'mixed': ['fresh', 'inplace', 'fresh']}[style]
    sim.occupation_distortions = [ns.OccDist(w, i, FAC[i], st[i], request=(q1, q2, rr) if i in ask else None) for i in range(n)]
    for rd in range(rounds):
        del w.log[:]
        g1, g2 = e.reals(f'g1{rd}', 2, -V, V), e.reals(f'g2{rd}', 2, -V, V)
        e.assume(e.and_(g1[0] != g1[1], g2[0] != g2[1]))
        r = res if isinstance(res, int) else e.array(res, 'i')
        n0 = w.n
        out = sim.measure(g1, g2, resolution=r)
        main = [l for l in w.log if l['what'].startswith('occ') and not l['freeze']]
        e.check([l['what'] for l in main] == [f'occ{i}' for i in range(n)],
                'each distortion draws noise exactly once per measurement, in order')
        if [l['what'] for l in main] != [f'occ{i}' for i in range(n)]:
            return
        noise = [l['noise'] for l in main]
        if rd:
            e.check(all(a is not b for a, b in zip(noise, old)), 'each measurement draws fresh noise')
        old = noise
        shp = sw.shape_of(r)
        for i, l in enumerate(main):
            eo, el = expect(e, w, noise, i, g1, g2, r)
            e.eq(l['occ'], eo, 'a distortion gets the structure with exactly the earlier distortions')
            e.eq(l['lead'], el, 'a distortion gets the lead transitions with exactly the earlier distortions')
            if l['request'] is not None:
                check_request(e, w, noise, i, q1, q2, rr, l['request'])
        # nested requests of frozen repetitions see only what precedes the repeated distortion
        for l in w.log:
            if l['what'].startswith('occ') and l['freeze']:
                i = int(l['what'][3:])
                e.check(l['noise'] is noise[i], 'a frozen repetition re-uses the noise of this measurement')
                if l['request'] is not None:
                    check_request(e, w, noise, i, q1, q2, rr, l['request'])
        eo, el = expect(e, w, noise, n, g1, g2, r)
        e.observe('occ', out[1])
        e.eq(out[1], eo, 'the result contains every distortion once')
        e.eq(out[2], el, 'the resulting lead transitions contain every distortion once')


def check_request(e, w, noise, i, q1, q2, rr, got):
    e.check(len(got) == 2, 'regeneration returns occupations and lead transitions')
    eo, el = expect(e, w, noise, i, q1, q2, rr)
    e.eq(got[0], eo, 'regenerated occupations carry exactly the earlier distortions with their frozen noise')
    e.eq(got[1], el, 'regenerated lead transitions carry exactly the earlier distortions with their frozen noise')


def scenarios(tier):
    S = []
    for n in (1, 2, 3):
        asks = [(n - 1,)] + ([(1, 2), (0, 1, 2), (1,)] if n == 3 else [(0, 1)] if n == 2 else [])
        for ask in asks:
            for res, rres in (((2, 3), 1), ((2, 3), (2, 3)), (2, 3), ((2, 3), (1,)), (3, (2, 2))):
                for style in ('inplace', 'fresh', 'mixed'):
                    if tier != 'thorough' and (style == 'mixed') != (n == 3) and style == 'mixed':
                        continue
                    nm = f"{n}_{''.join(map(str, ask))}_{res if isinstance(res, int) else 'x'.join(map(str, res))}_{rres if isinstance(rres, int) else 'x'.join(map(str, rres))}_{style}"
                    S.append(Scenario('chain_' + nm.replace(' ', ''), chain, dict(n=n, ask=ask, res=res, rres=rres, style=style)))
    return S
