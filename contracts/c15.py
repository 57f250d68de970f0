"""C15  Building thermal dynamics and heat demand."""
import datetime

import numpy as np

from dv.harness import contract
from contracts.common import step
from contracts.c14 import BuildingData, H, NODES, copies, draw_1d, flags, reals

BT, HD, FM, HS = [H + x for x in ('BuildingThermalDynamics', 'HeatDemand', 'FiveModulesHeatingSimulator', 'HeatingSystem')]
SEC, DAY, MS = datetime.timedelta(seconds=1), datetime.timedelta(days=1), datetime.timedelta(milliseconds=1)
DEAD = {'space_heating': 1, 'hot_water': 5, 'emitter': 5}


def duration(S):
    """a step of any positive length, and its seconds"""
    step = S.timedelta('dt', MS, 2 * DAY, gen=lambda r: r.choice([
        60 * SEC, 1800 * SEC, SEC, 90.5 * SEC, .25 * SEC, DAY, DAY + 60 * SEC, r.random() * 3600 * SEC]))
    return step, step.total_seconds()


class Boiler:
    def __init__(self, S, n):
        self.h_loss = S.arr('h_loss', (n,), lo=0, gen=lambda r, s: r.choice([0., 1., 2.5], size=s))
        self.C_cyl = capacity(S, 'C_cyl', n)


def capacity(S, name, n):
    a = S.arr(name, (n,), lo=0, gen=lambda r, s: r.choice([1e3, 2e5, 5e6], size=s))
    S.assume(S.forall(n, lambda i: S.at(a, i) > 0))
    return a


def building(S, n, data=None, given=True, step=None):
    if S.symbolic:
        S.stub(S.mod(H[:-1]), 'monte_carlo_from_1d_cdf', draw_1d(S))
    data = data or BuildingData(S)
    before = copies(S, {k: v for k, v in data.building.items() if k != 'number'})
    length, dt = duration(S)
    out = S.real('outside', -30, 40)
    goal = S.arr('goal', (n,), lo=10, hi=30)
    boiler = Boiler(S, n)
    sim = S.cls(BT)(n, boiler, out, length, goal, data=data)
    par = {k: (lambda i, k=k: S.at(before[k], S.at(sim.building_types, i))) for k in before}
    par['h_loss'] = lambda i: S.at(boiler.h_loss, i)
    par['C_cyl'] = lambda i: S.at(boiler.C_cyl, i)
    return sim, par, length, dt, out, goal, boiler


@contract('C15', [BT + '.__init__', BT + '.assign_building_to_households', BT + '.initialize_temperatures', BT + '.read_buildings',
                  BT + '.get_temperatures'])
def building_start(S):
    n = S.dim('n', 1, 4)
    data = BuildingData(S)
    before = copies(S, {k: v for k, v in data.building.items() if k != 'number'})
    sim, par, length, dt, out, goal, boiler = building(S, n, data)
    T = sim.get_temperatures()
    S.ensure('a building that can occur', S.forall(n, lambda i: S.And(
        S.at(sim.building_types, i) >= 0, S.at(sim.building_types, i) < data.k, par['equipped_prob'](i) > 0)))
    S.ensure('one temperature per household', S.And(*[S.shape_is(T[x], n) for x in NODES]))
    S.ensure('rooms start within one degree of their target', S.forall(n, lambda i: S.And(
        S.at(T['interior'], i) >= S.at(goal, i) - 1, S.at(T['interior'], i) <= S.at(goal, i) + 1)))
    S.ensure('walls start between the outside and the target', S.forall(n, lambda i: S.eq(
        S.at(T['building'], i), (out + S.at(goal, i)) / 2)))
    S.ensure('emitters start hot where the room is too cold', S.forall(n, lambda i: S.eq(S.at(T['emitter'], i), S.ite(
        S.at(T['interior'], i) >= S.at(goal, i), lambda: S.at(T['interior'], i), lambda: par['emitters_target_temperature'](i)))))
    S.ensure('cylinders start between 50 and 52 degrees', S.forall(n, lambda i: S.And(
        S.at(T['cylinder'], i) >= 50, S.at(T['cylinder'], i) <= 52)))
    S.ensure('the dataset is unchanged', S.And(*[S.same(before[x], data.building[x]) for x in before]))


def inputs(S, n):
    pos = lambda x: S.arr(x, (n,), lo=0, gen=lambda r, s: r.choice([0., 50., 300.], size=s))
    g = dict(dhw_heating_demand=pos('h_dhw'), occupancy_thermal_gains=pos('g_occ'), lighting_thermal_gains=pos('g_light'),
             appliances_thermal_gains=pos('g_app'))
    return dict(g, outside_temperature=S.real('now_outside', -30, 40), irradiance=S.real('irradiance', 0, 1200))


def flows(S, T, h, x, par, cold):
    fn = lambda d: {k: (lambda i, k=k: S.at(d[k], i)) for k in d}
    return flows_of(S, fn(T), fn(h), x, par, cold)


def flows_of(S, T, h, x, par, cold):
    """net heat flow into each node"""
    a = S.at
    tb, ti, te, tc = [T[k] for k in NODES]
    to, irr = x['outside_temperature'], x['irradiance']
    return {
        'building': ('ext_capacitance', lambda i: par['build_int_transfer_coef'](i) * (ti(i) - tb(i))
                     + par['out_build_transfer_coef'](i) * (to - tb(i))),
        'interior': ('int_capacitance', lambda i: par['build_int_transfer_coef'](i) * (tb(i) - ti(i))
                     + par['ventilation_transfer_coef'](i) * (to - ti(i)) + par['emitters_transfer_coef'](i) * (te(i) - ti(i))
                     + par['h_loss'](i) * (tc(i) - ti(i)) + irr * par['irradiance_multiplier'](i)
                     + a(x['occupancy_thermal_gains'], i) + a(x['lighting_thermal_gains'], i) + a(x['appliances_thermal_gains'], i)),
        'emitter': ('emitters_capacitance', lambda i: par['emitters_transfer_coef'](i) * (ti(i) - te(i)) + h['space_heating'](i)),
        'cylinder': ('C_cyl', lambda i: par['h_loss'](i) * (ti(i) - tc(i)) + a(x['dhw_heating_demand'], i) * (cold - tc(i))
                     + h['dhw'](i))}


def any_temperatures(S, sim, n):
    T = reals(S, n, *NODES)
    sim.temperatures.update({k: S.copy(v) for k, v in T.items()})
    return T


@contract('C15', BT + '.step')
def dynamics(S):
    """each temperature changes by the duration times the net flow over the capacity"""
    n = S.dim('n', 1, 4)
    sim, par, length, dt, out, goal, boiler = building(S, n)
    T = any_temperatures(S, sim, n)
    cold = sim.get_temperatures()['cold_water']
    x, h = inputs(S, n), {k: S.arr('heat_' + k, (n,), lo=0, gen=lambda r, s: r.choice([0., 50., 4e3], size=s))
                          for k in ('dhw', 'space_heating')}
    x0 = copies(S, {k: v for k, v in x.items() if k not in ('outside_temperature', 'irradiance')})
    h0 = copies(S, h)
    step(S, sim, heat_outputs=h, **x)
    N = sim.get_temperatures()
    fl = flows(S, T, h0, dict(x, **x0), par, cold)
    for k, (c, f) in fl.items():
        S.ensure('temperature follows the net flow: ' + k, S.And(S.shape_is(N[k], n), S.forall(n, lambda i: S.eq(
            S.at(N[k], i), S.at(T[k], i) + dt / par[c](i) * f(i)))))
    S.ensure('water is supplied at ten degrees', S.And(S.eq(cold, 10), S.eq(N['cold_water'], cold)))
    S.ensure('inputs are unchanged', S.And(*[S.same(x0[k], x[k]) for k in x0], *[S.same(h0[k], h[k]) for k in h0]))
    quiet = lambda i: S.And(*[S.eq(S.at(T[k], i), x['outside_temperature']) for k in NODES], *[S.eq(S.at(x0[k], i), 0) for k in x0],
                            *[S.eq(S.at(h0[k], i), 0) for k in h0], S.eq(x['irradiance'], 0))
    S.ensure('without gains and differences nothing changes', S.forall(n, lambda i: S.Implies(quiet(i), lambda: S.And(
        *[S.eq(S.at(N[k], i), S.at(T[k], i)) for k in NODES]))))


@contract('C15', [HD + '.step', HD + '.get_heat_demand', HD + '.__init__', HD + '._compute_target_heat_output_hot_water',
                  HD + '._compute_target_heat_output_space_heating'])
def demand(S):
    """the heat demand, delivered during one step, brings water and emitters to their target"""
    n = S.dim('n', 1, 4)
    sim, par, length, dt, out, goal, boiler = building(S, n)
    dead = {c: S.real('dead_' + c, 0, 5) for c in DEAD}
    algo = S.choice('algo', ['heat_max_emmiters', 'room_estimation', 'without outside'])
    dem = S.cls(HD)(n, boiler, sim, length, 'heat_max_emmiters' if algo == 'heat_max_emmiters' else 'room_estimation', dead)
    d = dem.get_heat_demand()
    S.ensure('no demand before the first step', S.forall(n, lambda i: S.And(S.at(d['dhw'], i) == 0, S.at(d['space_heating'], i) == 0)))
    T = any_temperatures(S, sim, n)
    goal = {k: S.arr('goal_' + k, (n,), gen=lambda r, s: r.choice([18., 20., 50.], size=s)) for k in ('space_heating', 'dhw', 'emitter')}
    g0 = copies(S, goal)
    x = inputs(S, n)
    to = x['outside_temperature']
    temps = sim.get_temperatures()
    a = S.at
    if algo == 'room_estimation':
        S.assume(S.forall(n, lambda i: S.And(par['build_int_transfer_coef'](i) > 0, par['out_build_transfer_coef'](i) > 0)))
    dem.step(temps, goal, x['dhw_heating_demand'], *([] if algo == 'without outside' else [to]))
    d = dem.get_heat_demand()
    d0 = copies(S, d)
    S.ensure('one demand per household', S.And(S.shape_is(d['dhw'], n), S.shape_is(d['space_heating'], n)))
    S.ensure('temperatures and targets are unchanged', S.And(*[S.same(T[k], temps[k]) for k in NODES], *[S.same(g0[k], goal[k]) for k in g0]))
    if algo == 'room_estimation':
        inv = lambda h: 1 / h
        S.ensure('demand balances the room', S.forall(n, lambda i: S.eq(
            a(d0['space_heating'], i), par['int_capacitance'](i) / dt * (a(g0['space_heating'], i) + dead['space_heating'] - a(T['interior'], i))
            - par['emitters_transfer_coef'](i) * (a(T['emitter'], i) - a(T['interior'], i))
            + par['ventilation_transfer_coef'](i) * (a(T['interior'], i) - to)
            + 1 / (inv(par['build_int_transfer_coef'](i)) + inv(par['out_build_transfer_coef'](i))) * (a(T['interior'], i) - to))))
    step(S, sim, heat_outputs=d, **x)
    N = sim.get_temperatures()
    S.ensure('water reaches its target', S.forall(n, lambda i: S.eq(a(N['cylinder'], i), a(g0['dhw'], i) + dead['hot_water'])))
    if algo != 'room_estimation':
        S.ensure('emitters reach their target', S.forall(n, lambda i: S.eq(a(N['emitter'], i), a(g0['emitter'], i) + dead['emitter'])))
    bad = S.cls(HD)(n, boiler, sim, length, 'no such algorithm', dead)
    try:
        bad.step(sim.get_temperatures(), goal, x['dhw_heating_demand'], to)
        ok = False
    except ValueError:
        ok = True
    S.ensure('unknown algorithm is rejected', ok)


class Data(BuildingData):
    def __init__(self, S):
        from contracts.c14 import Dataset, probabilities
        BuildingData.__init__(self, S)
        self.heating = Dataset(S, positive=True).system
        k = self.heating['number']
        self.heating['fuel_type'] = self.heating['cyl_volume'] if S.symbolic else np.array(['Mainsgas', 'Electricity', 'Mainsgas'])[:k]
        self.dead = {c: S.real('dead_' + c, 0, 5) for c in DEAD}
        p, self.room = probabilities(S, 'target_prob', S.dim('targets', 1, 3)), None
        self.cdf = S.cum(p, 0)
        self.values = S.arr('target_values', (p.shape[0],), lo=15, hi=30)
        self.hot = S.real('emitter_setpoint', 30, 60)

    def load_heating_system_dict(self, subgroup={}):
        return self.heating

    def load_thermostat_dict(self):
        return dict(home_temperatures_cdf=self.cdf, home_temperatures_values=self.values, water_temperatures_cdf=self.cdf,
                    water_temperatures_values=self.values, emitter_setpoints=self.hot, deadband=self.dead)


@contract('C15', [FM + '.' + x for x in (
    '__init__', 'step', '_assign_external_heat_outputs', '_set_external_heating_systems', '_compute_dhw_external_cyl',
    'get_total_heat_demand', 'get_dhw_heat_demand', 'get_sh_heat_demand', 'get_room_temperature', 'get_power_demand')])
def whole_step(S):
    """the five modules together: every one of them sees the temperatures at the beginning of the step"""
    n = S.dim('n', 1, 4)
    data = Data(S)
    if S.symbolic:
        S.stub(S.mod(H[:-1]), 'monte_carlo_from_1d_cdf', draw_1d(S))
        S.stub(S.cls(HS), 'get_power_demand', lambda self: S.fresh('own_power', (n,), 'f', lo=0))
    length, dt = duration(S)
    algo = S.choice('algo', ['heat_max_emmiters', 'room_estimation'])
    sim = S.cls(FM)(n, S.real('outside', -30, 40), heatdemand_algo=algo, data=data, step_size=length)
    hs, bs, ts = sim.heatingsystem, sim.building_sim, sim.thermostats_sim
    a = S.at
    given_data = copies(S, {k: v for k, v in data.building.items() if k != 'number'})
    par = {k: (lambda i, v=v: a(v, a(bs.building_types, i))) for k, v in given_data.items()}
    par['h_loss'], par['C_cyl'] = lambda i: a(hs.h_loss, i), lambda i: a(hs.C_cyl, i)
    # any history of the simulator
    T = any_temperatures(S, bs, n)
    cold = bs.get_temperatures()['cold_water']
    on = flags(S, n, 'hot_water', 'space_heating', 'emitter')
    ts.thermostat_states.update(copies(S, on))
    goal0 = {k: S.arr('goal_' + k, (n,), gen=lambda r, s: r.choice([18., 20., 50.], size=s)) for k in ('space_heating', 'dhw', 'emitter')}
    ts.target_temperatures.update(copies(S, goal0))
    if algo == 'room_estimation':
        S.assume(S.forall(n, lambda i: S.And(par['build_int_transfer_coef'](i) > 0, par['out_build_transfer_coef'](i) > 0)))
    x = inputs(S, n)
    ext = lambda name, *v: S.arr(name, (n,), nan=True, gen=lambda r, s: r.choice([np.nan, *v], size=s))
    given, kw = S.choice('external', ['nothing', 'target', 'dhw and rooms', 'dict', 'cylinder']), {}
    if given == 'target':
        kw['external_target_temperature'] = ext('ext_target', 19., 22.)
    if given == 'dhw and rooms':
        kw['external_dhw_outputs'], kw['external_sh_outputs'] = ext('ext_dhw', 0., 500.), ext('ext_sh', 0., 900.)
    if given == 'dict':
        kw['external_heat_outputs'] = {'space_heating': ext('ext_sh', 0., 900.)}
    if given == 'cylinder':
        kw['external_cylinder_temperature'] = ext('ext_cyl', 40., 60.)
    cyl = kw.get('external_cylinder_temperature')
    heat_ext = {'dhw': kw.get('external_dhw_outputs'), 'space_heating': kw.get('external_sh_outputs', kw.get(
        'external_heat_outputs', {}).get('space_heating'))}
    heat_ext = {k: S.copy(v) for k, v in heat_ext.items() if v is not None}
    known = lambda v, i: S.Not(S.isnan(a(v, i)))
    choose = lambda v, i, other: other(i) if v is None else S.ite(known(v, i), lambda: a(v, i), lambda: other(i))
    start = {k: lambda i, k=k: a(T[k], i) for k in NODES}
    start['cylinder'] = lambda i: choose(cyl, i, lambda i: a(T['cylinder'], i))
    kw0 = {k: S.copy(v) for k, v in kw.items() if k != 'external_heat_outputs'}
    step(S, sim, **x, **kw)
    # thermostats
    goal, state, con = sim.get_target_temperatures(), sim.get_thermostat_states(), sim.get_controls()
    S.ensure('target of the rooms', S.forall(n, lambda i: S.eq(a(goal['space_heating'], i), choose(
        kw0.get('external_target_temperature'), i, lambda i: a(goal0['space_heating'], i)))))
    for c, node, t in (('hot_water', 'cylinder', 'dhw'), ('space_heating', 'interior', 'space_heating'), ('emitter', 'emitter', 'emitter')):
        S.ensure('thermostats see the temperatures at the beginning: ' + c, S.forall(n, lambda i: S.Iff(a(state[c], i), S.Or(
            S.And(a(on[c], i), start[node](i) < a(goal[t], i) + data.dead[c]),
            S.And(S.Not(a(on[c], i)), start[node](i) <= a(goal[t], i) - data.dead[c])))))
    # controls
    S.ensure('controls follow the thermostats', S.forall(n, lambda i: S.And(
        S.Iff(a(con['heat_water_on'], i), S.ite(a(hs.is_combi_boiler, i), lambda: a(x['dhw_heating_demand'], i) > 0,
                                                lambda: a(state['hot_water'], i))),
        S.Iff(a(con['space_heating_on'], i), S.And(a(state['space_heating'], i), a(state['emitter'], i))),
        S.Iff(a(con['heater_on'], i), S.Or(a(con['heat_water_on'], i), a(con['space_heating_on'], i))))))
    # demand
    to = x['outside_temperature']
    ti = start['interior']
    water = lambda i: (par['C_cyl'](i) / dt * (a(goal['dhw'], i) + data.dead['hot_water'] - start['cylinder'](i))
                       + a(x['dhw_heating_demand'], i) * (start['cylinder'](i) - cold) + par['h_loss'](i) * (start['cylinder'](i) - ti(i)))
    if algo == 'room_estimation':
        room = lambda i: (par['int_capacitance'](i) / dt * (a(goal['space_heating'], i) + data.dead['space_heating'] - ti(i))
                          - par['emitters_transfer_coef'](i) * (start['emitter'](i) - ti(i)) + par['ventilation_transfer_coef'](i) * (ti(i) - to)
                          + 1 / (1 / par['build_int_transfer_coef'](i) + 1 / par['out_build_transfer_coef'](i)) * (ti(i) - to))
    else:
        room = lambda i: (par['emitters_capacitance'](i) / dt * (a(goal['emitter'], i) + data.dead['emitter'] - start['emitter'](i))
                          + par['emitters_transfer_coef'](i) * (start['emitter'](i) - ti(i)))
    if given != 'cylinder':
        S.ensure('demand of hot water', S.forall(n, lambda i: S.eq(a(sim.get_dhw_heat_demand(), i), S.ite(
            a(con['heat_water_on'], i), lambda: water(i), lambda: 0.))))
        S.ensure('total demand', S.forall(n, lambda i: S.eq(
            a(sim.get_total_heat_demand(), i), a(sim.get_dhw_heat_demand(), i) + a(sim.get_sh_heat_demand(), i))))
    S.ensure('demand of the rooms', S.forall(n, lambda i: S.eq(a(sim.get_sh_heat_demand(), i), S.ite(
        a(con['space_heating_on'], i), lambda: room(i), lambda: 0.))))
    # delivered heat
    pos, least = lambda v: S.ite(v > 0, lambda: v, lambda: 0.), lambda p, q: S.ite(p < q, lambda: p, lambda: q)
    own_w = lambda i: S.ite(a(con['heat_water_on'], i), lambda: least(pos(water(i)), a(hs.max_Phi_h_dhw, i)), lambda: 0.)
    own_s = lambda i: S.ite(a(con['space_heating_on'], i), lambda: least(pos(room(i)), pos(a(hs.max_Phi_h_space, i) - own_w(i))), lambda: 0.)
    heat = {'dhw': lambda i: choose(heat_ext.get('dhw'), i, own_w), 'space_heating': lambda i: choose(heat_ext.get('space_heating'), i, own_s)}
    out = sim.get_heat_outputs()
    for k in heat:
        S.ensure('delivered by the system unless given: ' + k, S.forall(n, lambda i: S.eq(a(out[k], i), heat[k](i))))
    # temperatures
    N = sim.get_temperatures()
    S0 = {k: S.copy(v) for k, v in T.items()}
    fl = flows_of(S, start, {k: (lambda i, k=k: a(out[k], i)) for k in heat}, x, par, cold)
    for k, (c, f) in fl.items():
        S.ensure('temperature follows the net flow: ' + k, S.forall(n, lambda i: S.eq(a(N[k], i), start[k](i) + dt / par[c](i) * f(i))))
    S.ensure('room temperature', S.forall(n, lambda i: S.eq(a(sim.get_room_temperature(), i), a(N['interior'], i))))
    power = sim.get_power_demand()
    S.ensure('no own power where the heat is given', S.forall(n, lambda i: S.Implies(
        S.Or(*[known(v, i) for v in heat_ext.values()]), lambda: a(power, i) == 0)))
    S.ensure('given arrays are unchanged', S.And(*[S.same(kw0[k], kw[k]) for k in kw0]))
