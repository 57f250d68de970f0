"""C16  Lighting."""
import numpy as np

from dv.harness import contract
from contracts.common import ends, gen_cdf, gen_pdf, increases, step

L = 'demod.simulators.lighting_simulators.'
FI, CR = L + 'FisherLightingSimulator', L + 'CrestLightingSimulator'


@contract('C16', [FI + '.' + x for x in ('__init__', 'initialize_starting_state', 'step', 'get_power_consumption', 'calculate_light_usage_value')])
def fisher(S):
    """power per active person, falling linearly with the irradiance between the two thresholds"""
    n = S.dim('n', 1, 5)
    lo, hi, use = S.real('lo', 0, 100), S.real('hi', 1, 200), S.real('use', 0, 100)
    S.assume(lo < hi)

    class Data:
        def load_fisher_lighting(self):
            return dict(irradiation_threshold_min=lo, irradiation_threshold_max=hi, individual_light_use=use)
    given = S.flag('initial values')
    occ = S.arr('occ0', (n,), 'i', lo=0, hi=6)
    irr = S.real('irr0', -5, 1000, gen=lambda r: r.choice([0., 30., 45., 60., 300.]))
    sim = S.cls(FI)(n, Data(), occ, irr) if given else S.cls(FI)(n, Data())
    light = lambda x: S.ite(x <= lo, lambda: 1., lambda: S.ite(x >= hi, lambda: 0., lambda: (hi - x) / (hi - lo)))

    def check(when, occ, irr):
        p = sim.get_power_consumption()
        S.ensure('one power per household ' + when, S.shape_is(p, n))
        S.ensure('power of the active occupants ' + when, S.forall(n, lambda i: S.eq(S.at(p, i), occ(i) * use * light(irr))))
        S.ensure('never negative, none without active occupants ' + when, S.forall(n, lambda i: S.And(
            S.at(p, i) >= 0, S.Implies(occ(i) == 0, lambda: S.at(p, i) == 0))))
        S.ensure('at most the use of every active occupant ' + when, S.forall(n, lambda i: S.le(S.at(p, i), occ(i) * use)))
    check('at the start', (lambda i: S.at(occ, i)) if given else (lambda i: 1), irr if given else 0.)
    occ1 = S.arr('occ1', (n,), 'i', lo=0, hi=6)
    irr1 = S.real('irr1', -5, 1000, gen=lambda r: r.choice([0., 30., 45., 60., 300.]))
    step(S, sim, occ1, irr1)
    check('after a step', lambda i: S.at(occ1, i), irr1)


class Data:
    """CREST lighting of any values"""

    def __init__(self, S):
        k, b, q, d = S.dim('configs', 1, 3), S.dim('bulbs', 1, 5), S.dim('persons', 1, 6), S.dim('durations', 1, 4)
        self.power = S.arr('bulb_power', (k, b), lo=0, nan=True, gen=lambda r, s: r.choice([0., 5., 20., 60., np.nan], size=s))
        self.effective = S.arr('effective', (q,), lo=0, gen=lambda r, s: r.choice([0., .5, 1., 1.5], size=s))
        self.cal = S.real('calibration', 0, 1, gen=lambda r: r.choice([0., .008, .2, 1.]))
        if S.symbolic:
            p = S.arr('duration_prob', (d,), lo=0, hi=1)
            self.cdf = S.cum(p, 0)
            S.assume(S.at(self.cdf, d - 1) == 1)
            ends(S, self.cdf, d)
            increases(S, self.cdf, p, d)
        else:
            self.cdf = S.arr('duration_cdf', (d,), gen=gen_cdf)
        self.low = S.arr('low', (d,), 'i', lo=1, hi=30)
        width = S.arr('width', (d,), 'i', lo=0, hi=30)
        self.high = self.low + width
        self.mean, self.std = S.real('mean', 0, 100), S.real('std', 0, 50)
        self.k, self.b, self.q, self.d = k, b, q, d

    def load_crest_lighting(self):
        return dict(calibration_scalar=self.cal, effective_occupancy=self.effective, durations_cdf=self.cdf,
                    durations_minutes_low=self.low, durations_minutes_high=self.high,
                    irradiance_threshold_mean=self.mean, irradiance_threshold_std=self.std)

    def load_bulbs_config(self):
        return self.power


@contract('C16', [CR + '.' + x for x in ('__init__', 'initialize_starting_state', 'initialize_bulbs', 'sample_bulbs_configuration',
                                         '_generate_relative_use', 'get_power_demand', 'get_electric_consumptions', 'get_thermal_gains')])
def crest_start(S):
    n = S.dim('n', 1, 4)
    data = Data(S)
    sim = S.cls(CR)(n, data)
    S.ensure('bulbs of one of the configurations', S.And(S.shape_is(sim.bulbs_power, n, data.b), S.forall(n, lambda i: S.exists(
        data.k, lambda c: S.forall(data.b, lambda j: S.Or(S.eq(S.at(sim.bulbs_power, i, j), S.at(data.power, c, j)),
                                                         S.And(S.isnan(S.at(sim.bulbs_power, i, j)), S.isnan(S.at(data.power, c, j)))))))))
    S.ensure('relative use is positive', S.forall((n, data.b), lambda i, j: S.at(sim.relative_use, i, j) >= 0))
    p = sim.get_power_demand()
    S.ensure('all lights are off', S.And(S.shape_is(p, n), S.forall(n, lambda i: S.eq(S.at(p, i), 0))))


@contract('C16', [CR + '.' + x for x in ('step', 'draw_random_durations', 'active_to_effective', 'get_power_demand',
                                         'get_electric_consumptions', 'get_thermal_gains')])
def crest_step(S):
    """what one step does to every bulb"""
    n = S.dim('n', 1, 4)
    data = Data(S)
    b = data.b
    sim = S.cls(CR)(n, data)
    left0 = S.arr('left', (n, b), 'i', lo=0, hi=5, gen=lambda r, s: r.choice([0, 0, 1, 2, 5], size=s))
    sim.bulbs_times_left = S.copy(left0)
    power = S.copy(sim.bulbs_power)
    rel = S.copy(sim.relative_use)
    thr = S.copy(sim.irradiance_threshold)
    occ = S.arr('active', (n,), 'i', lo=0)
    S.assume(S.forall(n, lambda i: S.at(occ, i) < data.q)) if S.symbolic else None
    occ = occ if S.symbolic else occ % data.q
    occ0 = S.copy(occ)
    irr = S.real('irradiance', 0, 200, gen=lambda r: r.choice([0., 20., 60., 200.]))
    step(S, sim, occ, irr)
    left = sim.bulbs_times_left
    S.ensure('one time per bulb', S.shape_is(left, n, b))
    home = lambda i: S.at(occ0, i) > 0
    rest = lambda i, j: S.ite(S.at(left0, i, j) > 0, lambda: S.at(left0, i, j) - 1, lambda: 0)
    chance = lambda i, j: S.at(data.effective, S.at(occ0, i)) * S.at(rel, i, j) * data.cal
    al = lambda f: S.forall((n, b), f)
    S.ensure('without active occupants all lights are off', al(lambda i, j: S.Or(home(i), S.at(left, i, j) == 0)))
    S.ensure('a burning light goes on for the rest of its time', al(lambda i, j: S.Implies(
        S.And(home(i), rest(i, j) > 0), lambda: S.at(left, i, j) == rest(i, j))))
    S.ensure('a light is switched on for a duration that can occur', al(lambda i, j: S.Or(
        S.at(left, i, j) == rest(i, j), S.at(left, i, j) == 0, S.exists(data.d, lambda e: S.And(
            S.at(left, i, j) >= S.at(data.low, e), S.at(left, i, j) <= S.at(data.high, e))))))
    S.ensure('never switched on without a chance', al(lambda i, j: S.Implies(
        chance(i, j) == 0, lambda: S.at(left, i, j) <= rest(i, j))))
    S.ensure('always switched on when it is dark and certain', al(lambda i, j: S.Implies(
        S.And(home(i), irr < S.at(thr, i), chance(i, j) >= 1, rest(i, j) == 0), lambda: S.at(left, i, j) >= 1)))
    S.ensure('bulbs and habits do not change', S.And(S.same(power, sim.bulbs_power), S.same(rel, sim.relative_use), S.same(thr, sim.irradiance_threshold)))


@contract('C16', [CR + '.get_power_demand', CR + '.get_electric_consumptions', CR + '.get_thermal_gains'])
def crest_power(S):
    """power and heat of all combinations of burning lights"""
    n = S.dim('n', 1, 4)
    data = Data(S)
    sim = S.cls(CR)(n, data)
    left = S.arr('left', (n, data.b), 'i', lo=0, hi=5, gen=lambda r, s: r.choice([0, 0, 1, 2, 5], size=s))
    sim.bulbs_times_left = S.copy(left)
    power = S.copy(sim.bulbs_power)
    p = sim.get_power_demand()
    installed = S.sum(S.np.nan_to_num(power), axis=1)
    burning = S.sum(S.np.nan_to_num(power) * (left > 0), axis=1)
    S.ensure('the bulbs that burn', S.And(S.shape_is(p, n), S.forall(n, lambda i: S.eq(S.at(p, i), S.at(burning, i)))))
    S.ensure('never negative', S.forall(n, lambda i: S.at(p, i) >= 0))
    S.ensure('none when all lights are off', S.forall(n, lambda i: S.Implies(
        S.forall(data.b, lambda j: S.at(left, i, j) == 0), lambda: S.at(p, i) == 0)))
    S.ensure('never more than what is installed', S.forall(n, lambda i: S.le(S.at(p, i), S.at(installed, i))))
    S.ensure('all power becomes heat', S.same(sim.get_thermal_gains(), p))
    S.ensure('nothing is changed by asking', S.And(S.same(left, sim.bulbs_times_left), S.same(power, sim.bulbs_power)))


@contract('C16', [CR + '.sample_bulbs_configuration', CR + '.step', CR + '.sample_irradiance_threshold'], proof=False)
def crest_sampled(S):
    """bulbs sampled one by one, and whole histories as a logger records them"""
    r = S.nrng
    n = S.dim('n', 1, 5)
    data = Data(S)
    kinds = S.arr('bulb kinds', (S.dim('kinds', 1, 4),), gen=lambda g, s: g.choice([0., 5., 20., 60.], size=s))
    share = S.arr('penetration', kinds.shape, gen=gen_pdf)
    data.load_bulbs = lambda: (kinds, share)
    data.load_installed_bulbs_stats = lambda: (S.rng.choice([0., 1., 5.]), S.rng.choice([0., 3.]))
    log = S.mod('demod.simulators.base_simulators').SimLogger('get_power_demand', aggregated=False)
    sim = S.cls(CR)(n, data, bulbs_sampling_algo='randn', logger=log)
    P = sim.bulbs_power
    S.ensure('at least one bulb place per household', P.shape[0] == n and P.shape[1] >= 1)
    S.ensure('only bulbs that can occur', np.isin(P, np.append(kinds[share > 0], 0.)).all())
    t = S.dim('steps', 1, 6)
    occ = r.randint(0, data.q, size=(t, n))
    want = [sim.get_power_demand()]
    for x in occ:
        step(S, sim, x, S.rng.choice([0., 50., 500.]))
        p = sim.get_power_demand()
        want.append(p)
        S.ensure('between zero and what is installed', (p >= 0).all() and (p <= P.sum(axis=1) + 1e-9).all())
        S.ensure('none without active occupants', (p[x == 0] == 0).all())
    got = sim.logger.get('get_power_demand')
    S.ensure('the logged power is that of the steps', np.array_equal(got, np.array(want)[:-1]))
    S.ensure('unknown algorithms are rejected', S.raises((ValueError,), lambda: S.cls(CR)(n, data, bulbs_sampling_algo='x')))
    S.ensure('unknown starts are rejected', S.raises((ValueError,), lambda: S.cls(CR)(n, data, initialization_method='x')))


@contract('C16', CR + '.draw_random_durations')
def durations(S):
    data = Data(S)
    k = S.dim('k', 1, 5)
    sim = S.cls(CR)(1, data)
    d = sim.draw_random_durations(k)
    S.ensure('one duration per light', S.shape_is(d, k))
    S.ensure('a duration of an interval that can occur', S.forall(k, lambda i: S.exists(data.d, lambda e: S.And(
        S.at(d, i) >= S.at(data.low, e), S.at(d, i) <= S.at(data.high, e),
        S.Or(S.And(e == 0, S.at(data.cdf, e) > 0), S.And(e > 0, lambda: S.at(data.cdf, e) > S.at(data.cdf, e - 1)))))))
