"""C12  Appliance cycles and power."""
import datetime
import warnings
import numpy as np
from dv.harness import contract
from contracts.common import frequencies, step

M = 'demod.simulators.appliance_simulators'
AP = M + '.AppliancesSimulator'
OC = M + '.OccupancyApplianceSimulator'
AC = M + '.ActivityApplianceSimulator'
PR = M + '.ProbabiliticActivityAppliancesSimulator'
KEYS = dict(mean_duration='f', mean_elec_consumption='f', standby_consumption='f', after_cycle_delay='i',
            uses_water='b', poisson_sampling_lambda_liters='f', mean_water_consumption='f', inactive_switch_off='b',
            use_variable_loads='b', switch_on_prob_crest='f')


def table(S, k, **fixed):
    a = {'number': k}
    for key, kind in KEYS.items():
        if key in fixed:
            a[key] = fixed[key]
        elif kind == 'b':
            a[key] = S.arr(key, (k,), 'b')
        elif key == 'switch_on_prob_crest':
            a[key] = S.arr(key, (k,), lo=0, hi=1)
        elif key in ('mean_duration', 'mean_water_consumption'):
            a[key] = S.arr(key, (k,), lo=1, hi=9)
        else:
            a[key] = S.arr(key, (k,), kind, lo=0, hi=6)
    return a


def state(S, path=AP, more=None, **fixed):
    n, k = S.dim('n', 1, 3), S.dim('k', 1, 4)
    at = dict(n_households=n, appliances=table(S, k, **fixed), _cache={},
              available_appliances=S.arr('owned', (n, k), 'b'),
              n_steps_left=S.arr('left', (n, k), gen=lambda r, s: r.choice([0, 0, 1, 2, 3, .5, 1.5, -.5], size=s)),
              n_steps_till_refresh=S.arr('refresh', (n, k), 'i', lo=-1, hi=3),
              load_duration=S.arr('load_duration', (n, k), 'i', lo=0, hi=4))
    at.update(more(n, k) if more else {})
    return S.new(path, **at), n, k


def both(S, n, k, f):
    return S.forall((n, k), f)


@contract('C12', [AP + '.get_mask_available_appliances'])
def available(S):
    sim, n, k = state(S)
    m = sim.get_mask_available_appliances()
    S.ensure('one value per household and appliance', S.shape_is(m, n, k))
    S.ensure('owned, not running and not waiting', both(S, n, k, lambda i, j: S.Iff(S.at(m, i, j), S.And(
        S.at(sim.available_appliances, i, j), S.at(sim.n_steps_left, i, j) <= 0, S.at(sim.n_steps_till_refresh, i, j) <= 0))))


@contract('C12', [AP + '.update_iteration_variables'])
def countdown(S):
    sim, n, k = state(S)
    left, wait = S.copy(sim.n_steps_left), S.copy(sim.n_steps_till_refresh)
    own = S.copy(sim.available_appliances)
    sim.update_iteration_variables()
    S.ensure('running appliances lose exactly one step', both(S, n, k, lambda i, j: S.eq(
        S.at(sim.n_steps_left, i, j), S.at(left, i, j) - S.ite(S.at(left, i, j) > 0, 1, 0))))
    S.ensure('waiting appliances lose exactly one step', both(S, n, k, lambda i, j: S.eq(
        S.at(sim.n_steps_till_refresh, i, j), S.at(wait, i, j) - S.ite(S.at(wait, i, j) > 0, 1, 0))))
    S.ensure('ownership is unchanged', S.same(own, sim.available_appliances))


@contract('C12', [AP + '.get_current_usage', AP + '.get_current_power_consumptions', AP + '.get_power_demand',
                  AP + '.get_thermal_gains', AP + '.get_energy_consumption'])
def power(S):
    """rated power while running, stand-by power otherwise, nothing for appliances that are not owned"""
    sim, n, k = state(S)
    a = sim.appliances
    # contract of _get_variable_loads_consumptions, see variable_loads
    v = S.arr('variable', (n, k), lo=0)
    S.assume(both(S, n, k, lambda i, j: S.Implies(S.Not(S.And(
        S.at(a['use_variable_loads'], j), S.at(sim.available_appliances, i, j), S.at(sim.n_steps_left, i, j) > 0)),
        S.at(v, i, j) == 0)) if S.symbolic else True)
    if not S.symbolic:
        v = np.where(a['use_variable_loads'] & sim.available_appliances & (sim.n_steps_left > 0), v, 0)
    S.stub(sim, '_get_variable_loads_consumptions', lambda: v)
    u = sim.get_current_usage()
    S.ensure('used are the owned appliances with steps left', both(S, n, k, lambda i, j: S.Iff(S.at(u, i, j), S.And(
        S.at(sim.available_appliances, i, j), S.at(sim.n_steps_left, i, j) > 0))))
    p = sim.get_current_power_consumptions()
    S.ensure('one power per household and appliance', S.shape_is(p, n, k))
    S.ensure('appliances that are not owned consume nothing', both(S, n, k, lambda i, j: S.Or(
        S.at(sim.available_appliances, i, j), S.eq(S.at(p, i, j), 0))))
    S.ensure('stand-by power when not running', both(S, n, k, lambda i, j: S.Implies(S.And(
        S.at(sim.available_appliances, i, j), S.Not(S.at(u, i, j))), lambda: S.eq(S.at(p, i, j), S.at(a['standby_consumption'], j)))))
    S.ensure('rated power or load profile when running', both(S, n, k, lambda i, j: S.Implies(
        S.at(u, i, j), lambda: S.eq(S.at(p, i, j), S.ite(S.at(a['use_variable_loads'], j), S.at(v, i, j), S.at(a['mean_elec_consumption'], j))))))
    tot = S.sum(p, 1)
    for name in ('get_power_demand', 'get_thermal_gains', 'get_energy_consumption'):
        d = getattr(sim, name)()
        S.ensure(name + ' is the sum over the appliances', S.same(d, tot))


@contract('C12', [AP + '.get_current_water_consumptions', AP + '.get_dhw_heating_demand', OC + '.get_current_water_consumptions'])
def water(S):
    occ = S.choice('simulator', [0, 1])
    sim, n, k = state(S, [AP, OC][occ])
    a = sim.appliances
    if occ:
        # durations are set for owned appliances only
        S.assume(both(S, n, k, lambda i, j: S.Or(S.at(sim.available_appliances, i, j), S.at(sim.n_steps_left, i, j) <= 0)))
    w = sim.get_current_water_consumptions()
    S.ensure('litres per minute of the running appliances', both(S, n, k, lambda i, j: S.eq(S.at(w, i, j), S.ite(
        S.And(S.at(sim.available_appliances, i, j), S.at(sim.n_steps_left, i, j) > 0),
        lambda: S.at(a['mean_water_consumption'], j) * (S.ite(S.at(sim.n_steps_left, i, j) < 1, S.at(sim.n_steps_left, i, j), 1.) if occ else 1.),
        0.))))
    d = sim.get_dhw_heating_demand()
    tot = S.sum(w, 1)
    S.ensure('one demand per household', S.shape_is(d, n))
    S.ensure('thermal conductance of the total flow', S.forall(n, lambda i: S.eq(
        S.at(d, i), S.at(tot, i) * 4200.0 / 60)))


def pairs(S, n, k):
    """distinct households and appliances, in order"""
    want = S.arr('want', (n, k), 'b')
    return want, S.np.where(want)


@contract('C12', [AP + '.switch_on', AP + '._switch_on_variable_loads', AP + '._switch_on_constant_loads'])
def start(S):
    sim, n, k = state(S)
    a = sim.appliances
    left, wait, own = S.copy(sim.n_steps_left), S.copy(sim.n_steps_till_refresh), S.copy(sim.available_appliances)
    want, (hh, app) = pairs(S, n, k)
    dur = S.arr('sampled', (n, k), gen=lambda r, s: r.choice([1., 2., .5], size=s))     # contract of sample_durations
    S.stub(sim, 'sample_durations', lambda h, p: dur[h, p])
    sim.switch_on(hh, app)
    d = lambda i, j: S.ite(S.at(a['use_variable_loads'], j), S.to_real(S.at(sim.load_duration, i, j)), S.at(dur, i, j))
    S.ensure('started appliances run for their duration, the others are unaffected', both(S, n, k, lambda i, j: S.eq(
        S.at(sim.n_steps_left, i, j), S.ite(S.at(want, i, j), lambda: d(i, j), S.at(left, i, j)))))
    S.ensure('and wait for their delay afterwards', both(S, n, k, lambda i, j: S.eq(
        S.at(sim.n_steps_till_refresh, i, j), S.ite(S.at(want, i, j), lambda: S.to_int(d(i, j) + S.at(a['after_cycle_delay'], j)), S.at(wait, i, j)))))
    S.ensure('ownership is unchanged', S.same(own, sim.available_appliances))


@contract('C12', [AP + '.sample_durations', AP + '._sample_durations_water_poisson'])
def durations(S):
    sim, n, k = state(S)
    a = sim.appliances
    want, (hh, app) = pairs(S, n, k)
    mean = S.copy(a['mean_duration'])
    out = sim.sample_durations(hh, app)
    S.ensure('one duration per switch-on', S.shape_is(out, hh.shape[0]))
    S.ensure('load profiles last their length, other appliances their mean duration', S.forall(hh.shape[0], lambda q: S.Implies(
        S.Or(S.at(sim.load_duration, S.at(hh, q), S.at(app, q)) > 0, S.Not(S.at(a['uses_water'], S.at(app, q)))),
        lambda: S.eq(S.at(out, q), S.ite(S.at(sim.load_duration, S.at(hh, q), S.at(app, q)) > 0,
                     lambda: S.to_real(S.at(sim.load_duration, S.at(hh, q), S.at(app, q))), S.at(mean, S.at(app, q)))))))
    S.ensure('durations are not negative', S.forall(hh.shape[0], lambda q: S.at(out, q) >= 0))
    S.ensure('the table is unchanged', S.same(mean, a['mean_duration']))


@contract('C12', [OC + '.get_switchon_probs'])
def switch_on_probabilities(S):
    sim, n, k = state(S, OC)
    g, q, w = S.dim('groups', 1, 2), S.dim('activities', 1, 3), S.dim('occupancies', 1, 3)
    sim.current_activity_pdf = S.arr('pdf', (g, q, w), lo=0, hi=1)
    sim.hh_types = S.arr('types', (n,), 'i', lo=0, hi=g - 1)
    sim.activities_inverse = S.arr('activity', (k,), 'i', lo=0, hi=q - 1)
    occ = S.arr('occupancy', (n,), 'i', lo=0, hi=w - 1)
    p = sim.get_switchon_probs(occ)
    S.ensure('one probability per household and appliance', S.shape_is(p, n, k))
    S.ensure('appliances that are not owned, running or waiting cannot start', both(S, n, k, lambda i, j: S.Or(S.And(
        S.at(sim.available_appliances, i, j), S.at(sim.n_steps_left, i, j) <= 0, S.at(sim.n_steps_till_refresh, i, j) <= 0),
        S.at(p, i, j) == 0)))
    S.ensure('probability of the activity for the occupancy of the household times the one of the appliance', both(
        S, n, k, lambda i, j: S.Implies(S.at(sim.get_mask_available_appliances(), i, j), lambda: S.eq(
            S.at(p, i, j), S.at(a_(sim), j) * S.at(sim.current_activity_pdf, S.at(sim.hh_types, i), S.at(sim.activities_inverse, j), S.at(occ, i))))))


def a_(sim):
    return sim.appliances['switch_on_prob_crest']


@contract('C12', [OC + '.switch_on', OC + '._switch_on_water_fixtures'])
def occupancy_start(S):
    sim, n, k = state(S, OC)
    a = sim.appliances
    left, wait = S.copy(sim.n_steps_left), S.copy(sim.n_steps_till_refresh)
    want, (hh, app) = pairs(S, n, k)
    dur = S.arr('sampled', (n, k), gen=lambda r, s: r.choice([1., 2., .5], size=s))     # contract of sample_durations
    S.stub(sim, 'sample_durations', lambda h, p: dur[h, p])
    sim.switch_on(hh, app)
    S.ensure('started appliances run for their duration', both(S, n, k, lambda i, j: S.Implies(
        S.And(S.at(want, i, j), S.Not(S.at(a['uses_water'], j))),
        lambda: S.eq(S.at(sim.n_steps_left, i, j), S.at(dur, i, j)))))
    S.ensure('the others are unaffected', both(S, n, k, lambda i, j: S.Or(S.at(want, i, j), S.And(S.eq(
        S.at(sim.n_steps_left, i, j), S.at(left, i, j)), S.eq(S.at(sim.n_steps_till_refresh, i, j), S.at(wait, i, j))))))
    S.ensure('and wait for their delay afterwards', both(S, n, k, lambda i, j: S.Implies(S.at(want, i, j), lambda: S.eq(
        S.at(sim.n_steps_till_refresh, i, j), S.to_int(S.at(sim.n_steps_left, i, j) + S.at(a['after_cycle_delay'], j))))))
    S.ensure('durations are not negative', both(S, n, k, lambda i, j: S.Implies(
        S.And(S.at(want, i, j), S.Or(S.at(a['uses_water'], j), S.at(dur, i, j) >= 0)), lambda: S.at(sim.n_steps_left, i, j) >= 0)))


@contract('C12', [OC + '.switch_off_inactive'])
def inactive(S):
    sim, n, k = state(S, OC)
    a = sim.appliances
    left, wait = S.copy(sim.n_steps_left), S.copy(sim.n_steps_till_refresh)
    occ = S.arr('occupancy', (n,), 'i', lo=0, hi=2)
    sim.switch_off_inactive(occ)
    off = lambda i, j: S.And(S.at(occ, i) == 0, S.at(a['inactive_switch_off'], j))
    S.ensure('appliances that need someone stop when nobody is active', both(S, n, k, lambda i, j: S.eq(
        S.at(sim.n_steps_left, i, j), S.ite(off(i, j), 0., lambda: S.at(left, i, j)))))
    S.ensure('and wait for their delay at most', both(S, n, k, lambda i, j: S.eq(
        S.at(sim.n_steps_till_refresh, i, j), S.ite(S.And(off(i, j), S.at(wait, i, j) > S.at(a['after_cycle_delay'], j)),
                                                    lambda: S.at(a['after_cycle_delay'], j), lambda: S.at(wait, i, j)))))


class Data:
    pass


@contract('C12', [OC + '.step', OC + '.update_iteration_variables', OC + '.get_switchon_probs'])
def occupancy_step(S):
    """one step of an occupancy simulator, from any state"""
    g, q, w, T = S.dim('groups', 1, 2), S.dim('activities', 1, 3), S.dim('occupancies', 1, 3), S.dim('T', 1, 3)
    sim, n, k = state(S, OC)
    a = sim.appliances
    own = S.copy(sim.available_appliances)
    # what the simulator guarantees: only owned appliances run
    S.assume(both(S, n, k, lambda i, j: S.Or(S.at(own, i, j), S.at(sim.n_steps_left, i, j) <= 0)) if S.symbolic else True)
    if not S.symbolic:
        sim.n_steps_left[~own] = 0
    old = S.copy(sim.n_steps_left)
    wait = S.copy(sim.n_steps_till_refresh)
    pdf = S.arr('pdf', (T, g, q, w), lo=0, hi=1, gen=lambda r, s: r.choice([0, .5, 1], size=s))
    sim.current_activity_pdf = S.arr('current', (g, q, w), lo=0, hi=1, gen=lambda r, s: r.choice([0, .5, 1], size=s))
    cur = S.copy(sim.current_activity_pdf)
    sim.activities_pdf_iterator = S.cycle(pdf)
    sim.hh_types = S.arr('types', (n,), 'i', lo=0, hi=g - 1)
    sim.activities_inverse = S.arr('activity', (k,), 'i', lo=0, hi=q - 1)
    occ = S.arr('occupancy', (n,), 'i', lo=0, hi=w - 1)
    sim.current_time, sim.step_size, sim.current_time_step = S.datetime('now'), S.dt.timedelta(minutes=1), S.int('t', 0, 9)
    now, t = sim.current_time, sim.current_time_step
    sim.logger, sim.data = None, Data()
    sim.data.refresh_time = S.time('refresh')
    S.stub(sim, 'on_before_refresh_time', lambda: None)      # its tables: see occupancy_histories
    dur = S.arr('sampled', (n, k), lo=1, hi=4)               # contract of sample_durations
    S.stub(sim, 'sample_durations', lambda h, p: dur[h, p])
    if S.flag('getter before the step'):
        sim.get_mask_available_appliances()
        sim.get_current_usage()
    step(S, sim, occ)
    u = S.drawn(0, n, k)
    left1 = lambda i, j: S.at(old, i, j) - S.ite(S.at(old, i, j) > 0, 1., 0.)
    wait1 = lambda i, j: S.at(wait, i, j) - S.ite(S.at(wait, i, j) > 0, 1, 0)
    new = now.minute % 10 == 0
    p = lambda i, j: S.at(a_(sim), j) * S.ite(
        new, lambda: S.at(pdf, 0, S.at(sim.hh_types, i), S.at(sim.activities_inverse, j), S.at(occ, i)),
        lambda: S.at(cur, S.at(sim.hh_types, i), S.at(sim.activities_inverse, j), S.at(occ, i)))
    on = lambda i, j: S.And(S.at(own, i, j), left1(i, j) <= 0, wait1(i, j) <= 0, lambda: S.exact_lt(S.at(u, i, j), p(i, j)))
    off = lambda i, j: S.And(S.at(occ, i) == 0, S.at(a['inactive_switch_off'], j))
    S.ensure('appliances run their whole duration from the step where they start, or until nobody is active', both(
        S, n, k, lambda i, j: S.Or(S.And(S.at(a['uses_water'], j), lambda: on(i, j)), lambda: S.eq(S.at(sim.n_steps_left, i, j), S.ite(
            off(i, j), 0., lambda: S.ite(on(i, j), lambda: S.at(dur, i, j), lambda: left1(i, j)))))))
    S.ensure('only owned appliances run', both(S, n, k, lambda i, j: S.Or(S.at(own, i, j), S.at(sim.n_steps_left, i, j) <= 0)))
    S.ensure('appliances that nobody starts only count down', both(S, n, k, lambda i, j: S.Or(on(i, j), off(i, j), lambda: S.eq(
        S.at(sim.n_steps_till_refresh, i, j), wait1(i, j)))))
    S.ensure('ownership is unchanged', S.same(own, sim.available_appliances))
    S.ensure('the clock', S.And(sim.current_time == now + S.dt.timedelta(minutes=1), sim.current_time_step == t + 1))
    v = S.copy(sim.get_current_usage())
    S.ensure('the usage after the step', both(S, n, k, lambda i, j: S.Iff(S.at(v, i, j), S.And(
        S.at(own, i, j), S.at(sim.n_steps_left, i, j) > 0))))


# ------------------------------------------------------------------ appliances driven by activities
ACTS = ['a', 'b']


def activity_state(S, path, acts=ACTS):
    def more(n, k):
        return dict(_is_used=S.arr('used', (n, k), 'b'))
    sim, n, k = state(S, path, more)
    sim.appliances['related_activity'] = S.arr('related', (k,), 's', options=acts + ['level'])
    prev = {x: S.arr('before_' + x, (n,), 'i', lo=0, hi=2) for x in acts}
    now = {x: S.arr('now_' + x, (n,), 'i', lo=0, hi=2) for x in acts}
    sim.previous_act_dict = dict(prev)
    sim.current_time, sim.step_size, sim.current_time_step = S.datetime('now'), S.dt.timedelta(minutes=1), S.int('t', 0, 9)
    sim.logger = None
    return sim, n, k, prev, now


def of_activity(S, sim, j, d, i):
    return S.ite(S.at(sim.appliances['related_activity'], j) == 'a', S.at(d['a'], i), S.at(d['b'], i))


def is_related(S, sim, j):
    r = S.at(sim.appliances['related_activity'], j)
    return S.Or(r == 'a', r == 'b')


@contract('C12', [AC + '.step', AC + '.switch_off', AC + '.get_current_usage', AC + '._switch_on_constant_loads',
                  AC + '._switch_on_variable_loads', AC + '.update_iteration_variables'])
def activity_step(S):
    """one step of appliances that run while their activity is performed"""
    sim, n, k, prev, now = activity_state(S, AC)
    a = sim.appliances
    own, used = S.copy(sim.available_appliances), S.copy(sim._is_used)
    left = S.copy(sim.n_steps_left)
    if S.flag('getter before the step'):
        sim.get_current_usage()
    step(S, sim, now)
    begins = lambda i, j: S.And(is_related(S, sim, j), of_activity(S, sim, j, prev, i) == 0, of_activity(S, sim, j, now, i) != 0)
    ends = lambda i, j: S.And(is_related(S, sim, j), S.at(a['inactive_switch_off'], j), of_activity(S, sim, j, prev, i) != 0,
                              of_activity(S, sim, j, now, i) == 0)
    u = sim.get_current_usage()
    S.ensure('one value per household and appliance', S.shape_is(u, n, k))
    S.ensure('owned appliances start with their activity and stop when it ends', both(S, n, k, lambda i, j: S.Iff(
        S.at(u, i, j), S.And(S.at(own, i, j), S.Or(begins(i, j), S.And(S.at(used, i, j), S.Not(ends(i, j))))))))
    S.ensure('ownership is unchanged', S.same(own, sim.available_appliances))
    var = lambda j: S.at(a['use_variable_loads'], j)
    dur = lambda i, j: S.to_real(S.at(sim.load_duration, i, j))
    at0 = lambda i, j: S.ite(S.And(begins(i, j), var(j)), lambda: dur(i, j), lambda: S.at(left, i, j))
    at1 = lambda i, j: at0(i, j) - S.ite(at0(i, j) > 0, 1., 0.)
    S.ensure('load profiles start from the beginning, advance one step and are repeated', both(S, n, k, lambda i, j: S.eq(
        S.at(sim.n_steps_left, i, j), at1(i, j) + S.ite(S.And(var(j), at0(i, j) > 0, at1(i, j) <= 0), lambda: dur(i, j), 0.))))
    S.ensure('the activities are remembered', S.And(*[S.same(sim.previous_act_dict[x], now[x]) for x in ACTS]))


@contract('C12', [PR + '._compute_switch_on_probs', PR + '._compute_switch_on_probs_for_one_time', PR + '.switch_off'])
def probabilities_of_activity_appliances(S):
    sim, n, k, prev, now = activity_state(S, PR)
    dict_ = S.arr('dictated', (k,), 'b')
    sim.apps_dictated_start = S.np.where(dict_)[0]
    sim.switch_on_probs = S.arr('probs', (n, k), lo=0, hi=1)
    want, (hh, app) = pairs(S, n, k)
    p = sim._compute_switch_on_probs(hh, app)
    q = sim._compute_switch_on_probs_for_one_time(hh, app)
    free = lambda z: S.And(S.at(sim.available_appliances, S.at(hh, z), S.at(app, z)), S.at(sim.n_steps_left, S.at(hh, z), S.at(app, z)) <= 0)
    S.ensure('owned appliances that are not running and not started by something else', S.forall(hh.shape[0], lambda z: S.eq(
        S.at(p, z), S.ite(S.And(free(z), S.Not(S.at(dict_, S.at(app, z)))), lambda: S.at(sim.switch_on_probs, S.at(hh, z), S.at(app, z)), 0.))))
    S.ensure('owned appliances that are not running', S.forall(hh.shape[0], lambda z: S.eq(
        S.at(q, z), S.ite(free(z), lambda: S.at(sim.switch_on_probs, S.at(hh, z), S.at(app, z)), 0.))))
    left, wait = S.copy(sim.n_steps_left), S.copy(sim.n_steps_till_refresh)
    sim.switch_off(hh, app)
    S.ensure('switched off appliances have no steps left, the others are unaffected', both(S, n, k, lambda i, j: S.eq(
        S.at(sim.n_steps_left, i, j), S.ite(S.at(want, i, j), 0., lambda: S.at(left, i, j)))))
    S.ensure('and wait for their delay', both(S, n, k, lambda i, j: S.eq(
        S.at(sim.n_steps_till_refresh, i, j), S.ite(S.at(want, i, j), lambda: S.at(sim.appliances['after_cycle_delay'], j), lambda: S.at(wait, i, j)))))


@contract('C12', [PR + '.step', PR + '._get_start_after_activity', PR + '.update_iteration_variables'])
def probabilistic_step(S):
    """one step of appliances started at random during their activity"""
    sim, n, k, prev, now = activity_state(S, PR, ['a'])
    a = sim.appliances
    own = S.copy(sim.available_appliances)
    dict_ = S.arr('dictated', (k,), 'b')
    sim.apps_dictated_start = S.np.where(dict_)[0]
    sim.switch_on_probs = S.arr('probs', (n, k), lo=0, hi=1, gen=lambda r, s: r.choice([0, .5, 1], size=s))
    S.assume(both(S, n, k, lambda i, j: S.Or(S.at(own, i, j), S.at(sim.n_steps_left, i, j) <= 0)) if S.symbolic else True)
    if not S.symbolic:
        sim.n_steps_left[~own] = 0
    old = S.copy(sim.n_steps_left)
    if S.flag('getter before the step'):
        sim.get_current_usage()
    dur = S.arr('sampled', (n, k), lo=1, hi=4)               # contract of sample_durations
    S.stub(sim, 'sample_durations', lambda h, p: dur[h, p])
    step(S, sim, now)
    full = lambda i, j: S.ite(S.at(a['use_variable_loads'], j), lambda: S.to_real(S.at(sim.load_duration, i, j)), lambda: S.at(dur, i, j))
    left1 = lambda i, j: S.at(old, i, j) - S.ite(S.at(old, i, j) > 0, 1., 0.)
    mine = lambda j: S.at(a['related_activity'], j) == 'a'
    ends = lambda i, j: S.And(mine(j), S.at(a['inactive_switch_off'], j), S.at(prev['a'], i) != 0, S.at(now['a'], i) == 0)
    can = lambda i, j: S.And(mine(j), S.at(own, i, j), left1(i, j) <= 0, S.Not(S.at(dict_, j)),
                             S.at(now['a'], i) > 0, S.at(sim.switch_on_probs, i, j) > 0)
    L = lambda i, j: S.at(sim.n_steps_left, i, j)
    S.ensure('appliances count down or start a whole cycle', both(S, n, k, lambda i, j: S.Or(
        S.And(ends(i, j), L(i, j) == 0), S.And(can(i, j), lambda: S.eq(L(i, j), full(i, j))),
        S.And(S.Not(ends(i, j)), lambda: S.eq(L(i, j), left1(i, j))))))
    S.for_all((n, k), lambda i, j: S.ensure('certain starts happen', S.Implies(
        S.And(can(i, j), S.at(sim.switch_on_probs, i, j) == 1), lambda: S.eq(L(i, j), full(i, j)))))
    S.ensure('only owned appliances run', both(S, n, k, lambda i, j: S.Or(S.at(own, i, j), L(i, j) <= 0)))
    v = sim.get_current_usage()
    S.ensure('the usage after the step', both(S, n, k, lambda i, j: S.Iff(S.at(v, i, j), S.And(S.at(own, i, j), L(i, j) > 0))))
    S.ensure('the activities are remembered', S.same(sim.previous_act_dict['a'], now['a']))


# ------------------------------------------------------------------ whole simulators (bounded)
TYPES = ['wash', 'dry', 'tv', 'fridge']


class AppData:
    """a small appliance dataset"""
    step_size = datetime.timedelta(minutes=1)
    refresh_time = datetime.time(4)
    version = name = 'fake'

    def __init__(self, S, k, acts, level=False):
        r = S.nrng
        self.acts = acts
        pick = lambda o: np.array([o[r.randint(len(o))] for _ in range(k)])
        typ = pick(TYPES)
        rel = pick(acts + (['level'] if level else []))
        self.table = dict(
            number=k, name=np.array(['APP%d' % i for i in range(k)]), type=typ, related_activity=rel,
            equipped_prob=r.choice([0., .5, 1.], size=k), mean_duration=r.choice([1., 2., 3.], size=k),
            mean_elec_consumption=r.choice([10., 100.], size=k), standby_consumption=r.choice([0., 1., 2.], size=k),
            after_cycle_delay=r.choice([0, 0, 2], size=k), uses_water=r.uniform(size=k) < .2,
            poisson_sampling_lambda_liters=np.full(k, 3.), mean_water_consumption=np.full(k, 2.),
            inactive_switch_off=r.uniform(size=k) < .5, switch_on_prob_crest=r.choice([0., .5, 1.], size=k),
            previous_appliance_type=np.array([TYPES[r.randint(4)] if r.uniform() < .3 else 'nan' for _ in range(k)], dtype=object),
            previous_activity=np.array([acts[r.randint(len(acts))] if r.uniform() < .2 else 'nan' for _ in range(k)], dtype=object),
            probabilistic=np.ones(k, bool), target_switchons=r.choice([0., 1e5, 1e9], size=k))
        self.loads = {t: {'L%d' % i: r.uniform(1, 50, size=r.randint(2, 5)) for i in range(r.randint(1, 3))}
                      for t in TYPES if r.uniform() < .5}
        self.profiles = {a: r.choice([0., .5, 1.], size=(144, 4)) for a in acts + ['level']}

    def load_appliance_dict(self):
        return {a: (b.copy() if hasattr(b, 'copy') else b) for a, b in self.table.items()}

    def load_real_profiles_dict(self, kind):
        return self.loads

    def load_appliance_ownership_dict(self, subgroup):
        return {}

    def load_activity_probability_profiles(self, subgroup):
        return self.profiles

    def load_yearly_target_switchons(self, subgroup):
        return {}

    def load_activity_probabilities(self, subgroup):
        return {a: np.array([.5, .1]) for a in self.acts}

    def load_daily_activity_starts(self, subgroup):
        return {a: np.array([.5, .5]) for a in self.acts}


ALGOS = ['nothing', 'only_switched_on', 'only_always_on', 'uniform']


def check_outputs(S, sim, own):
    """the getters agree with the counters of the simulator"""
    a = sim.appliances
    u = sim.get_current_usage()
    p = sim.get_current_power_consumptions()
    S.ensure('only owned appliances are used', not (u & ~own).any())
    S.ensure('ownership does not change', np.array_equal(sim.available_appliances, own))
    S.ensure('appliances that are not owned consume nothing', not p[~own].any())
    idle = own & ~u
    S.ensure('stand-by power when not running', np.allclose(p[idle], np.broadcast_to(a['standby_consumption'], p.shape)[idle]))
    const = u & ~a['use_variable_loads']
    S.ensure('rated power when running', np.allclose(p[const], np.broadcast_to(a['mean_elec_consumption'], p.shape)[const]))
    # (water fixtures have no load profile in any dataset: their duration is drawn)
    for i, j in zip(*np.where(u & a['use_variable_loads'] & ~a['uses_water'])):
        load = list(sim.data.loads[a['type'][j]].values())[sim.corresponding_load_id[i, j]]
        S.ensure('the profile of the appliance, as far as it has run', np.isclose(
            p[i, j], load[int(len(load) - sim.n_steps_left[i, j])]))
    S.ensure('the sum over the appliances', np.allclose(sim.get_power_demand(), p.sum(axis=1)))
    S.ensure('gains', np.allclose(sim.get_thermal_gains(), p.sum(axis=1)))
    S.ensure('energy', np.allclose(sim.get_energy_consumption(), p.sum(axis=1)))
    S.ensure('water', np.allclose(sim.get_dhw_heating_demand(), 70. * sim.get_current_water_consumptions().sum(axis=1)))
    return u


def start_of(S, refresh=False):
    d = datetime.datetime(2020, 1, 1 + S.rng.randint(0, 20), S.rng.choice([3, 4, 23]), S.rng.choice([0, 50, 57, 59]))
    return d


@contract('C12', [OC + '.__init__', OC + '.initialize_starting_state', OC + '.step', OC + '.set_activity_pdf',
                  OC + '.on_before_refresh_time', AP + '.initialize_starting_state', AP + '._get_variable_loads_consumptions',
                  AP + '._sample_switched_on_load_profiles', AP + '._sample_always_on_load_profiles',
                  AP + '.sample_real_load_profiles', OC + '._initialize_real_loads'], proof=False, runs=160, quick_runs=40)
def occupancy_histories(S):
    n, k = S.dim('n', 1, 4), S.dim('k', 1, 5)
    data = AppData(S, k, ['cook', 'clean'], level=S.flag('level'))
    if S.flag('no water'):
        data.table['uses_water'][:] = False
    n1 = S.rng.randint(0, n)
    first = S.choice('initial occupancy', ['some', 'none', 'default'])
    if first == 'default':
        data.profiles = {x: np.ones((144, 1)) * np.array([0, 1, 1, 1]) for x in data.profiles}
    start = start_of(S)
    start = start.replace(hour=3, minute=57) if S.rng.random() < .5 else start.replace(hour=4, minute=0)
    sim = S.cls(OC)([{'n_residents': 1}, {'n_residents': 2}], [n1, n - n1], data, start_datetime=start,
                    equipped_sampling_algo=S.choice('owned', ['basic', 'all']), real_profiles_algo=S.choice('profiles', ALGOS),
                    initial_active_occupancy={'some': np.ones(n, int), 'none': np.zeros(n, int), 'default': None}[first])
    own = sim.available_appliances.copy()
    used = check_outputs(S, sim, own)
    a = sim.appliances
    if first == 'none':
        S.ensure('nothing that needs somebody runs when nobody was active', not used[:, a['inactive_switch_off']].any())
    elif first == 'default' and start.hour == 3:
        sure = own & (a['switch_on_prob_crest'] == 1) & np.array([(data.profiles[x][:, 1] == 1).all() for x in a['related_activity']])
        S.ensure('somebody was active by default', used[sure & (sim.load_duration == 0) & (a['after_cycle_delay'] == 0) & ~a['uses_water']].all())
    for t in range(S.dim('steps', 1, 12)):
        before, occ = sim.n_steps_left.copy(), S.nrng.randint(0, 3, size=n)
        wait = sim.n_steps_till_refresh.copy()
        now = sim.current_time
        step(S, sim, occ)
        u = check_outputs(S, sim, own)
        left = np.where(before > 0, before - 1, before)
        off = (occ == 0)[:, None] & a['inactive_switch_off']
        S.ensure('stopped when nobody is active', not u[off].any())
        run = (left > 0) & ~off
        S.ensure('running appliances are not restarted', np.allclose(sim.n_steps_left[run], left[run]))
        new = u & ~(left > 0)
        rated = np.where(sim.load_duration > 0, sim.load_duration, a['mean_duration'])
        dry = new & ~np.broadcast_to(a['uses_water'], new.shape)
        S.ensure('a new cycle has its whole duration left', np.allclose(sim.n_steps_left[dry], rated[dry]))
        S.ensure('appliances that wait do not start', not (new & (wait - 1 > 0)).any())
        S.ensure('probability zero never starts', not new[:, a['switch_on_prob_crest'] == 0].any())
        slot = ((now.hour * 60 + now.minute - 240) % 1440) // 10
        pr = np.array([[data.profiles[x][slot, occ[i]] for x in a['related_activity']] for i in range(n)]) * a['switch_on_prob_crest']
        S.ensure('activity profile of the time of day', not (new & (pr == 0)).any())
        must = own & (pr == 1) & ~(left > 0) & ~off & (wait - 1 <= 0) & ~a['uses_water']
        S.ensure('probability one always starts', new[must].all())


@contract('C12', [AC + '.__init__', AC + '.initialize_starting_state', AC + '.step', AC + '.get_current_usage',
                  AP + '._initialize_real_loads', AP + '._get_variable_loads_consumptions'], proof=False, runs=160, quick_runs=40)
def activity_histories(S):
    n, k = S.dim('n', 1, 4), S.dim('k', 1, 5)
    acts = ['cook', 'clean']
    data = AppData(S, k, acts, level=S.flag('level'))
    del data.table['probabilistic']
    performing = lambda: {x: S.nrng.randint(0, 3, size=n) for x in acts}
    prev = performing()
    sim = S.cls(AC)(n, prev, data, start_datetime=start_of(S), step_size=data.step_size,
                    equipped_sampling_algo=S.choice('owned', ['basic', 'all']), real_profiles_algo=S.choice('profiles', ALGOS))
    own = sim.available_appliances.copy()
    a = sim.appliances
    rel = a['related_activity']
    used = np.array([[x == 'level' or prev[x][i] > 0 for x in rel] for i in range(n)]).reshape(n, len(rel)) & own
    S.ensure('used from the start', np.array_equal(check_outputs(S, sim, own), used))
    for t in range(S.dim('steps', 1, 12)):
        now = performing()
        step(S, sim, now)
        for j, x in enumerate(rel):
            if x == 'level':
                continue
            used[:, j] |= own[:, j] & (now[x] > 0) & (prev[x] == 0)
            if a['inactive_switch_off'][j]:
                used[:, j] &= now[x] > 0
        prev = now
        S.ensure('used while the activity is performed', np.array_equal(check_outputs(S, sim, own), used))


@contract('C12', [PR + '.__init__', PR + '.initialize_starting_state', PR + '.step', PR + '._get_start_after_activity',
                  PR + '._get_start_after_appliance', PR + '._assign_dictated_start', AP + '._initialize_real_loads'],
          proof=False, runs=160, quick_runs=50)
def probabilistic_histories(S):
    n, k = S.dim('n', 1, 4), S.dim('k', 1, 5)
    acts = ['cook', 'clean']
    data = AppData(S, k, acts, level=S.flag('level'))
    data.table['uses_water'][:] = False
    performing = lambda: {x: S.nrng.randint(0, 3, size=n) for x in acts}
    prev = performing()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sim = S.cls(PR)(n, prev, data, start_datetime=start_of(S), step_size=data.step_size,
                        equipped_sampling_algo=S.choice('owned', ['basic', 'all']), real_profiles_algo=S.choice('profiles', ALGOS))
    own = sim.available_appliances.copy()
    a = sim.appliances
    rel, pt, pa = a['related_activity'], a['previous_appliance_type'], a['previous_activity']
    S.ensure('always on appliances with a profile run from the start', check_outputs(S, sim, own)[
        (sim.load_duration > 0) & (rel == 'level')].all())
    p = sim.switch_on_probs
    for t in range(S.dim('steps', 1, 12)):
        before = sim.n_steps_left.copy()
        now = performing()
        if S.rng.random() < .5:
            check_outputs(S, sim, own)
        step(S, sim, now)
        check_outputs(S, sim, own)
        left = np.where(before > 0, before - 1, before)
        ended = (before > 0) & ~(left > 0)
        rated = np.where(sim.load_duration > 0, sim.load_duration, a['mean_duration'])
        for i in range(n):
            for j in range(len(rel)):
                x = rel[j]
                stops = x in acts and prev[x][i] > 0 and now[x][i] == 0
                by_app = pt[j] != 'nan' and any(ended[i, q] for q in range(len(rel)) if a['type'][q] == pt[j])
                by_act = pa[j] != 'nan' and prev[pa[j]][i] > 0 and now[pa[j]][i] == 0
                free = pt[j] == 'nan' and pa[j] == 'nan'
                by_now = free and x in acts and now[x][i] > 0
                L = sim.n_steps_left[i, j]
                if stops and a['inactive_switch_off'][j]:
                    S.ensure('stopped with the activity', L == 0 or by_act)
                elif left[i, j] > 0:
                    S.ensure('running appliances are not restarted', L == left[i, j])
                elif L > 0:
                    S.ensure('a new cycle has its whole duration left', L == rated[i, j])
                    S.ensure('only what may start', own[i, j] and p[i, j] > 0 and (by_app or by_act or by_now))
                elif own[i, j] and p[i, j] >= 1:
                    S.ensure('what must start', not (by_app or by_act or by_now))
        prev = now


@contract('C12', [AP + '.initialize_starting_state', AP + '._parse_subgroups'], proof=False)
def initial_state(S):
    k = S.dim('k', 1, 4)
    sim = S.new(AP)
    groups = S.dim('groups', 1, 3)
    sizes = [S.rng.randint(0, 3) for _ in range(groups)]
    if sum(sizes) == 0:
        sizes[0] = 1
    n = sum(sizes)
    sim._parse_subgroups(n, [{}] * groups, sizes)
    S.ensure('the households of the subgroups, in order', np.array_equal(sim.hh_types, np.repeat(np.arange(groups), sizes)))
    e = S.raises(ValueError, lambda: sim._parse_subgroups(n + 1, [{}] * groups, sizes))
    S.ensure('wrong totals are rejected', e is not None)
    for a, b in (([{}], None), (None, [1])):
        S.ensure('both or none', S.raises(AttributeError, lambda: sim._parse_subgroups(1, a, b)) is not None)
    sim._parse_subgroups(n, None, None)
    S.ensure('one group without subgroups', np.array_equal(sim.hh_types, np.zeros(n, int)) and len(sim.subgroups_list) == 1)
    d = AppData(S, k, ['cook'])
    sim = S.cls(AP)(n, d.load_appliance_dict(), equipped_sampling_algo='all', start_datetime=start_of(S),
                    step_size=d.step_size)
    sim.initialize_starting_state()
    S.ensure('everything is off', not sim.get_current_usage().any())
    S.ensure('delays within the delay of the appliance', ((sim.n_steps_till_refresh >= 0) & (
        sim.n_steps_till_refresh <= np.maximum(sim.appliances['after_cycle_delay'] - 1, 0))).all())


@contract('C12', [OC + '.step', OC + '.switch_on', OC + '.get_switchon_probs'], proof=False, quick_runs=10, runs=100)
def frequency(S):
    """whatever the source of the random numbers: appliances start independently with their probabilities"""
    n, k = S.dim('n', 1, 3), S.dim('k', 1, 3)
    data = AppData(S, k, ['cook', 'clean'])
    t = data.table
    t['uses_water'][:] = False
    t['switch_on_prob_crest'] = S.arr('probabilities', (k,), lo=0, hi=1)
    data.profiles = {x: np.ones((144, 1)) * S.arr(x, (4,), lo=0, hi=1) for x in data.profiles}
    occ = S.arr('occupancy', (n,), 'i', lo=0, hi=3)
    sim = S.cls(OC)([{'n_residents': 3}], [n], data, start_datetime=datetime.datetime(2020, 1, 1, 4), equipped_sampling_algo='all',
                    real_profiles_algo='nothing', initial_active_occupancy=np.ones(n, int))
    p = np.array([[data.profiles[x][0, o] for x in t['related_activity']] for o in occ]) * t['switch_on_prob_crest']
    p[(occ == 0)[:, None] & t['inactive_switch_off']] = 0
    p = p.ravel()
    S.natural(S.dim('seed', 0, 10**6))

    def started():
        sim.n_steps_left[:] = 0
        sim.n_steps_till_refresh[:] = 0
        sim.step(occ)
        return sim.get_current_usage().ravel().astype(int)
    frequencies(S, started, np.stack([1 - p, p], -1), runs=1000)
