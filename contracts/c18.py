"""C18  Composition of the full load simulator."""
import datetime

import numpy as np

from dv.harness import contract
from contracts.common import step

M = 'demod.simulators.load_simulators'
LS = M + '.LoadSimulator'
HEAT = ['total_heat_demand', 'dhw_heat_demand', 'sh_heat_demand', 'temperatures']
EXT = ['external_target_temperature', 'external_heat_outputs', 'external_dhw_outputs', 'external_sh_outputs',
       'external_cylinder_temperature']


class Part:
    """a component of any behaviour: every step moves to new values"""
    values = ()

    def __init__(self, S, name, n, order):
        self.S, self.name, self.n, self.order, self.k = S, name, n, order, 0
        self.inputs = []
        self.move()

    def move(self):
        S = self.S
        self.now = {v: S.arr('%s %s %d' % (self.name, v, self.k), (self.n,)) for v in self.values}
        self.k += 1

    def did(self, **inputs):
        self.order.append(self.name)
        self.inputs.append(inputs)
        self.move()


class Activity(Part):
    values = ('occupancy', 'gains')
    step = lambda self: self.did()
    get_active_occupancy = lambda self: self.now['occupancy']
    get_thermal_gains = lambda self: self.now['gains']


class Appliances(Part):
    values = ('power', 'gains', 'water')
    step = lambda self, active_occupancy: self.did(occupancy=active_occupancy)
    get_power_demand = lambda self: self.now['power']
    get_thermal_gains = lambda self: self.now['gains']
    get_dhw_heating_demand = lambda self: self.now['water']


class Lights(Part):
    values = ('power', 'gains')
    step = lambda self, active_occupancy, irradiance: self.did(occupancy=active_occupancy, irradiance=irradiance)
    get_power_demand = lambda self: self.now['power']
    get_thermal_gains = lambda self: self.now['gains']


class Climate(Part):
    def move(self):
        self.now = {v: self.S.real('climate %s %d' % (v, self.k)) for v in ('temperature', 'irradiance')}
        self.k += 1
    step = lambda self: self.did()
    get_outside_temperature = lambda self: self.now['temperature']
    get_irradiance = lambda self: self.now['irradiance']


class Heating(Part):
    values = ('power',) + tuple(HEAT)

    def step(self, outside_temperature, irradiance, dhw_heating_demand, occupancy_thermal_gains, lighting_thermal_gains,
             appliances_thermal_gains, external_target_temperature=None, external_heat_outputs=None, external_dhw_outputs=None,
             external_sh_outputs=None, external_cylinder_temperature=None):
        inputs = dict(locals())
        inputs.pop('self')
        self.did(**inputs)
    get_power_demand = lambda self: self.now['power']


for v in HEAT:
    setattr(Heating, 'get_' + v, lambda self, v=v: self.now[v])


class Population:
    def __init__(self, S):
        self.pdf = S.np.array([.5, .5])
        self.groups = [{'n_residents': 1}, {'n_residents': 2}]

    def load_population_subgroups(self):
        return self.groups, self.pdf, 100


def build(S, n, heating, climate, start, **k):
    """the constructor, with any components in place of the real ones"""
    mod = S.mod(M)
    made = {}
    order = []
    data = Population(S)
    counts = [n - 1, 1]

    def sample(n_, pdf, *a, **kw):
        made['population'] = (n_, pdf)
        return counts

    def activity(subgroups, counts_, *a, subsimulator=None, start_datetime=None, data=None, **kw):
        made['activity'] = (subgroups, counts_, start_datetime, data)
        made['activity simulator'] = Activity(S, 'activity', n, order)
        return made['activity simulator']

    def appliances(subgroups, counts_, initial_active_occupancy=None, start_datetime=None, data=None, **kw):
        made['appliances'] = (subgroups, counts_, start_datetime, data)
        made['initial occupancy'] = initial_active_occupancy
        made['appliance simulator'] = Appliances(S, 'appliances', n, order)
        return made['appliance simulator']

    def lights(n_, data=None, **kw):
        made['lights'] = (n_, data)
        made['light simulator'] = Lights(S, 'lights', n, order)
        return made['light simulator']

    def weather(data=None, start_datetime=None, step_size=None, **kw):
        made['climate'] = (data, start_datetime, step_size)
        made['climate simulator'] = Climate(S, 'climate', n, order)
        return made['climate simulator']

    def heater(n_, temperature, data=None, **kw):
        made['heating'] = (n_, data)
        made['initial temperature'] = temperature
        made['heating simulator'] = Heating(S, 'heating', n, order)
        return made['heating simulator']
    for name, f in (('sample_population', sample), ('SubgroupsActivitySimulator', activity), ('OccupancyApplianceSimulator', appliances),
                    ('CrestLightingSimulator', lights), ('RealInterpolatedClimate', weather), ('FiveModulesHeatingSimulator', heater)):
        S.stub(mod, name, f)
    sim = S.cls(LS)(n, start, include_heating=heating, include_climate=climate, data=data, **k)
    return sim, made, order, data, counts


@contract('C18', [LS + '.__init__', M + '._instantiate_activity_simulator', M + '._instantiate_climate'])
def construction(S):
    n = S.int('n', 2, 6)
    start = S.datetime('start')
    heating, climate = S.flag('heating'), S.flag('climate')
    outside = S.real('outside')
    given = S.flag('temperature given')
    sim, made, order, data, counts = build(S, n, heating, climate, start, **(dict(initial_outside_temperature=outside) if given else {}))
    S.ensure('one population for all components', S.And(made['population'][0] == n, made['population'][1] is data.pdf))
    for part in ('activity', 'appliances'):
        g, c, t, d = made[part]
        S.ensure('households, start and data of the ' + part, S.And(g is data.groups, c is counts, t == start, d is data))
    S.ensure('the lights of all households', S.And(made['lights'][0] == n, made['lights'][1] is data))
    S.ensure('appliances start with the occupancy of the activities',
             S.same(made['initial occupancy'], made['activity simulator'].get_active_occupancy()))
    S.ensure('a climate exactly when included', ('climate' in made) == climate)
    S.ensure('heating exactly when included', ('heating' in made) == heating)
    if climate:
        S.ensure('the climate of the start', S.And(made['climate'][0] is data, made['climate'][1] == start, made['climate'][2] == sim.step_size))
    if heating:
        S.ensure('heating of all households', S.And(made['heating'][0] == n, made['heating'][1] is data))
        S.ensure('heating starts with the outside temperature', S.eq(made['initial temperature'], made[
            'climate simulator'].get_outside_temperature() if climate else (outside if given else 5.)))
    S.ensure('no step is performed', S.And(len(order) == 0, sim.current_time_step == 0, sim.current_time == start, sim.n_households == n))
    S.ensure('steps of one minute', sim.step_size == datetime.timedelta(minutes=1))


@contract('C18', [M + '._instantiate_activity_simulator', M + '._instantiate_climate'])
def fallbacks(S):
    """data without the preferred model: the other one, and an error when there is none"""
    mod = S.mod(M)
    made = []

    def fails(*a, **k):
        raise NotImplementedError()
    start, step, data = S.datetime('start'), datetime.timedelta(minutes=1), object()
    crest = S.flag('CREST data')

    def states(n, data=None, start_datetime=None, **k):
        made.append((n, data, start_datetime))
        return 'crest'

    def weather(data=None, start_datetime=None, step_size=None, **k):
        made.append((step_size, data, start_datetime))
        return 'crest'
    counts = [S.int('a', 0, 5), S.int('b', 0, 5)]
    for name, f in (('SubgroupsActivitySimulator', fails), ('RealInterpolatedClimate', fails),
                    ('Crest4StatesModel', states if crest else fails), ('CrestClimateSimulator', weather if crest else fails)):
        S.stub(mod, name, f)
    act = lambda: mod._instantiate_activity_simulator(data, [{}, {}], counts, start)
    cli = lambda: mod._instantiate_climate(data, start, step)
    if crest:
        S.ensure('the activities of CREST', act() == 'crest')
        S.ensure('for all households', S.And(made[0][0] == counts[0] + counts[1], made[0][1] is data, made[0][2] == start))
        S.ensure('the climate of CREST', cli() == 'crest')
        S.ensure('of that start and step', S.And(made[1][0] == step, made[1][1] is data, made[1][2] == start))
    else:
        S.ensure('no activities is an error', S.raises(NotImplementedError, act) is not None)
        S.ensure('no climate is an error', S.raises(NotImplementedError, cli) is not None)


@contract('C18', [LS + '.' + x for x in ('step', 'get_power_demand', 'get_total_heat_demand', 'get_dhw_heat_demand', 'get_sh_heat_demand', 'get_temperatures')])
def one_step(S):
    """any step of a simulator with any components"""
    n = S.int('n', 2, 5)
    heating, climate = S.flag('heating'), S.flag('climate')
    start = S.datetime('start')
    sim, made, order, data, counts = build(S, n, heating, climate, start)
    t = S.int('t', 0, 10**6, gen=lambda r: r.choice([0, 1, 9, 10, 11, 20, 25, 1440]))
    sim.current_time_step = t
    act, app, light = made['activity simulator'], made['appliance simulator'], made['light simulator']
    if S.flag('asked before'):
        sim.get_power_demand()
    kw = {}
    given = S.choice('climate given', ['none', 'both', 'temperature', 'irradiance'])
    if given in ('both', 'temperature'):
        kw['external_outside_temperature'] = S.real('external temperature', -30, 40, gen=lambda r: r.choice([0., -5., 12.5]))
    if given in ('both', 'irradiance'):
        kw['external_irradiance'] = S.real('external irradiance', 0, 1000, gen=lambda r: r.choice([0., 100., 12.5]))
    if S.flag('heating inputs'):
        for x in EXT:
            kw[x] = S.arr(x, (n,), nan=True)
    due = S.branch(t % 10 == 0)
    if not climate and given != 'both':
        S.ensure('a missing climate is an error', S.raises(ValueError, lambda: sim.step(**kw)) is not None)
        S.ensure('and nothing is simulated', S.And(len(order) == 0, sim.current_time_step == t, sim.current_time == start))
        return
    step(S, sim, **kw)
    parts = ['appliances', 'lights'] + ['climate'] * climate + ['heating'] * heating
    S.ensure('activities are simulated every ten minutes', order.count('activity') == (1 if due else 0))
    S.ensure('every other component is stepped exactly once', all(order.count(p) == 1 for p in parts) and
             len(order) == len(parts) + (1 if due else 0))
    S.ensure('one step counted', S.And(sim.current_time_step == t + 1, sim.current_time == start + sim.step_size))
    occ = act.get_active_occupancy()
    S.ensure('appliances see the occupancy of this step', S.same(app.inputs[0]['occupancy'], occ))
    S.ensure('lights see the occupancy of this step', S.same(light.inputs[0]['occupancy'], occ))
    cl = made.get('climate simulator')
    temperature = kw['external_outside_temperature'] if given in ('both', 'temperature') else cl.get_outside_temperature()
    irradiance = kw['external_irradiance'] if given in ('both', 'irradiance') else cl.get_irradiance()
    S.ensure('lights see the irradiance of this step', S.eq(light.inputs[0]['irradiance'], irradiance))
    if heating:
        x = made['heating simulator'].inputs[0]
        S.ensure('heating sees the climate of this step', S.And(S.eq(x['outside_temperature'], temperature), S.eq(x['irradiance'], irradiance)))
        S.ensure('heating sees the hot water of this step', S.same(x['dhw_heating_demand'], app.get_dhw_heating_demand()))
        S.ensure('heating sees the gains of this step', S.And(
            S.same(x['occupancy_thermal_gains'], act.get_thermal_gains()), S.same(x['lighting_thermal_gains'], light.get_thermal_gains()),
            S.same(x['appliances_thermal_gains'], app.get_thermal_gains())))
        S.ensure('external inputs reach the heating', all(x[e] is kw.get(e) for e in EXT))
    p = sim.get_power_demand()
    heat = (lambda i: S.at(made['heating simulator'].get_power_demand(), i)) if heating else (lambda i: 0)
    S.ensure('total power of every household', S.And(S.shape_is(p, n), S.forall(n, lambda i: S.eq(S.at(p, i), S.at(
        app.get_power_demand(), i) + S.at(light.get_power_demand(), i) + heat(i)))))
    i = S.int('i', 0, 4)
    i = i if S.symbolic else i % n
    S.assume(i < n)
    S.ensure('power of one household', S.eq(sim.get_power_demand(i), S.at(p, i)))
    if heating:
        for v in HEAT:
            S.ensure('heating reports its own ' + v, S.same(getattr(sim, 'get_' + v)(), made['heating simulator'].now[v]))
    S.ensure('asking changes nothing', len(order) == len(parts) + (1 if due else 0))


@contract('C18', [LS + '.step', LS + '.get_power_demand'], proof=False)
def histories(S):
    n = S.dim('n', 2, 4)
    heating = S.flag('heating')
    log = S.mod('demod.simulators.base_simulators').SimLogger('get_power_demand', aggregated=False)
    sim, made, order, data, counts = build(S, n, heating, True, S.datetime('start'), logger=log)
    steps = S.dim('steps', 1, 25)
    want = []
    for k in range(steps):
        now = sum(made[p].get_power_demand() for p in ['appliance simulator', 'light simulator'] + ['heating simulator'] * heating)
        want.append(now)
        step(S, sim)
    S.ensure('the logged power is that of the steps', np.allclose(sim.logger.get('get_power_demand'), want))
    S.ensure('activities every ten minutes', order.count('activity') == (steps + 9) // 10)
