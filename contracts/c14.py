"""C14  Heating system outputs and controls."""
import numpy as np
from dv.harness import contract
from contracts.common import step

H = 'demod.simulators.heating_simulators.'
HS, TH, SC, HD, FM, VT = [H + x for x in ('HeatingSystem', 'Thermostats', 'SystemControls', 'HeatDemand',
                                          'FiveModulesHeatingSimulator', 'VariableThermostatTemperatureSimulator')]
NUM = ['pump_power', 'standby_power', 'fuel_flow_rate', 'flow_rate_to_W', 'heat_output_sh', 'heat_output_dhw', 'cyl_loss', 'cyl_volume']
NODES = ['building', 'interior', 'emitter', 'cylinder']


class Dataset:
    """heating systems, thermostats and buildings of any values"""

    def __init__(self, S, positive=False):
        self.S = S
        k = self.k = S.dim('systems', 1, 3)
        g = lambda r, s: r.choice([0., 1., 2.5, 20., 300.], size=s)
        gp = lambda r, s: r.choice([1., 2.5, 20., 300.], size=s)
        self.system = {x: S.arr(x, (k,), lo=0, gen=gp if x == 'cyl_volume' else g) for x in NUM}
        if positive:
            S.assume(S.forall(k, lambda i: S.at(self.system['cyl_volume'], i) > 0))
        self.system.update(equipped_prob=probabilities(S, 'equipped', k), is_combi=S.arr('is_combi', (k,), 'b'), fuel_type=np.array(['Mainsgas']), number=k)

    def load_heating_system_dict(self, subgroup={}):
        return self.system


def probabilities(S, name, k):
    from contracts.common import gen_pdf
    p = S.arr(name, (k,), lo=0, hi=1, gen=gen_pdf)
    if S.symbolic:
        from contracts.common import ends, increases
        c = S.cum(p, 0)
        S.assume(S.at(c, k - 1) == 1)
        ends(S, c, k)
        increases(S, c, p, k)
    return p


BUILDING = ['emitters_target_temperature', 'emitters_capacitance', 'emitters_transfer_coef', 'ext_capacitance', 'int_capacitance',
            'build_int_transfer_coef', 'out_build_transfer_coef', 'ventilation_transfer_coef', 'floor_area', 'irradiance_multiplier']


class BuildingData:
    """buildings of any values; capacities are positive"""

    def __init__(self, S, k=None):
        k = self.k = S.dim('buildings', 1, 3)
        self.building = {x: S.arr(x, (k,), lo=0, gen=lambda r, s, x=x: r.choice(
            [1e4, 5e6, 3e7] if 'capacitance' in x else [1., 20., 300.], size=s)) for x in BUILDING}
        for x in BUILDING:
            if 'capacitance' in x:
                S.assume(S.forall(k, lambda i, x=x: S.at(self.building[x], i) > 0))
        self.building.update(equipped_prob=probabilities(S, 'building_prob', k), number=k)

    def load_buildings_dict(self, subgroup={}):
        return self.building


def attributes(S, sim, n, *names):
    """replaces what the constructor read from the dataset by arbitrary non-negative values"""
    return {x: S.arr(x, (n,), lo=0, gen=lambda r, s: r.choice([0., 1., 2.5, 20., 300.], size=s)) for x in names}


def flags(S, n, *names):
    return {x: S.arr(x, (n,), 'b') for x in names}


def reals(S, n, *names, lo=None, hi=None):
    return {x: S.arr(x, (n,), lo=lo, hi=hi, gen=lambda r, s: r.choice(
        [-50., 0., 1., 10., 20.5, 49., 400.] if lo is None else [0., 1., 10., 20.5, 400.], size=s)) for x in names}


def copies(S, d):
    return {k: S.copy(v) for k, v in d.items()}


def system(S, n):
    sim = S.new(HS, n_households=n, _cache={}, logger=None, current_time_step=0, heat_outputs={},
                max_Phi_h_space=S.arr('max_space', (n,), lo=0, gen=lambda r, s: r.choice([0., 5., 20., 300.], size=s)),
                max_Phi_h_dhw=S.arr('max_dhw', (n,), lo=0, gen=lambda r, s: r.choice([0., 5., 20., 300.], size=s)))
    return sim


@contract('C14', [HS + '.step', HS + '.get_heat_outputs'])
def outputs(S):
    """what a heating system delivers, for all demands and controls"""
    n = S.dim('n', 1, 4)
    sim = system(S, n)
    con = flags(S, n, 'heater_on', 'heat_water_on', 'space_heating_on')
    dem = reals(S, n, 'dhw', 'space_heating')
    c0, d0 = copies(S, con), copies(S, dem)
    step(S, sim, con, dem)
    out = sim.get_heat_outputs()
    w, s, t = out['dhw'], out['space_heating'], out['total']
    mw, ms = sim.max_Phi_h_dhw, sim.max_Phi_h_space
    al = lambda f: S.forall((n,), f)
    pos = lambda x: S.ite(x > 0, x, 0.)
    S.ensure('one output per household', S.And(S.shape_is(w, n), S.shape_is(s, n), S.shape_is(t, n)))
    S.ensure('outputs are not negative', al(lambda i: S.And(S.at(w, i) >= 0, S.at(s, i) >= 0)))
    S.ensure('never more than the rated output', al(lambda i: S.And(S.at(w, i) <= S.at(mw, i), S.at(s, i) <= S.at(ms, i))))
    S.ensure('never more than called for', al(lambda i: S.And(
        S.at(w, i) <= pos(S.at(d0['dhw'], i)), S.at(s, i) <= pos(S.at(d0['space_heating'], i)))))
    S.ensure('the total', al(lambda i: S.eq(S.at(t, i), S.at(w, i) + S.at(s, i))))
    S.ensure('the total does not exceed what the unit can produce', al(lambda i: S.Or(
        S.le(S.at(t, i), S.at(mw, i)), S.le(S.at(t, i), S.at(ms, i)))))
    hot = lambda i: S.And(S.at(c0['heater_on'], i), S.at(c0['heat_water_on'], i))
    room = lambda i: S.And(S.at(c0['heater_on'], i), S.at(c0['space_heating_on'], i))
    S.ensure('hot water only on request, space heating only on request', al(lambda i: S.And(
        S.Or(hot(i), S.at(w, i) == 0), S.Or(room(i), S.at(s, i) == 0))))
    least = lambda a, b: S.ite(a < b, a, b)
    S.ensure('hot water is served first', al(lambda i: S.Implies(hot(i), lambda: S.eq(
        S.at(w, i), least(pos(S.at(d0['dhw'], i)), S.at(mw, i))))))
    S.ensure('the rest serves the rooms', al(lambda i: S.Implies(room(i), lambda: S.eq(
        S.at(s, i), least(pos(S.at(d0['space_heating'], i)), pos(S.at(ms, i) - S.at(w, i)))))))
    S.ensure('controls and demand are unchanged', S.And(*[S.same(c0[x], con[x]) for x in con], *[S.same(d0[x], dem[x]) for x in dem]))


@contract('C14', [HS + '.__init__', HS + '.read_heating_system', HS + '.assign_heating_systems_to_households', HS + '.initialize_starting_state'])
def system_of_household(S):
    """every household gets all the attributes of one system that can occur"""
    from contracts.common import callees
    n = S.dim('n', 1, 4)
    d = Dataset(S)
    mod = S.mod(H[:-1])
    callees(S, mod)
    if S.symbolic and 'monte_carlo_from_1d_cdf' in vars(mod):
        S.stub(mod, 'monte_carlo_from_1d_cdf', draw_1d(S))
    d.system['fuel_type'] = d.system['cyl_volume']      # a name per system; any value serves
    before = copies(S, d.system)
    sim = S.cls(HS)(n, data=d)
    S.ensure('a system that can occur', S.forall(n, lambda i: S.And(
        S.at(sim.heating_types, i) >= 0, S.at(sim.heating_types, i) < d.k, S.at(before['equipped_prob'], S.at(sim.heating_types, i)) > 0)))
    for a, b in (('dblP_pump', 'pump_power'), ('dblP_standby', 'standby_power'), ('dblFuelFlowRate', 'fuel_flow_rate'),
                 ('flow_rate_to_W', 'flow_rate_to_W'), ('max_Phi_h_space', 'heat_output_sh'), ('max_Phi_h_dhw', 'heat_output_dhw'),
                 ('h_loss', 'cyl_loss'), ('is_combi_boiler', 'is_combi')):
        S.ensure(b + ' of that system', S.And(S.shape_is(getattr(sim, a), n), S.forall(n, lambda i: S.eq(
            S.at(getattr(sim, a), i), S.at(before[b], S.at(sim.heating_types, i))))))
    S.ensure('heat capacity of the water in the cylinder', S.forall(n, lambda i: S.eq(
        S.at(sim.C_cyl, i), S.at(before['cyl_volume'], S.at(sim.heating_types, i)) * 4200.)))
    out = sim.get_heat_outputs()
    S.ensure('nothing is delivered before the first step', S.forall(n, lambda i: S.And(
        S.at(out['dhw'], i) == 0, S.at(out['space_heating'], i) == 0, S.at(out['total'], i) == 0)))


def draw_1d(S):
    def monte_carlo_from_1d_cdf(cdf, n_samples=1):
        m = cdf.shape[0]
        out = S.fresh('drawn', (n_samples,), 'i', lo=0)
        u = S.np.random.uniform(size=n_samples)
        S.assume(S.forall(n_samples, lambda i: S.And(S.at(out, i) < m, S.at(u, i) < S.at(cdf, S.at(out, i)))))
        S.assume(S.forall(n_samples, lambda i: S.Implies(S.at(out, i) >= 1, lambda: S.at(cdf, S.at(out, i) - 1) <= S.at(u, i))))
        return out
    return monte_carlo_from_1d_cdf


COMP = (('hot_water', 'cylinder', 'dhw'), ('space_heating', 'interior', 'space_heating'), ('emitter', 'emitter', 'emitter'))


@contract('C14', [TH + '.step', TH + '.get_thermostat_states', TH + '.get_target_temperatures', TH + '.set_new_target_temperature'])
def thermostats(S):
    """hysteresis of the thermostats, for all temperatures, targets and dead bands"""
    n = S.dim('n', 1, 4)
    dead = {c: S.real('dead_' + c, 0, 5) for c, _, _ in COMP}
    state = {c: S.arr('on_' + c, (n,), 'b') for c, _, _ in COMP}
    target = {t: S.arr('target_' + t, (n,), gen=lambda r, s: r.choice([18., 20., 50.], size=s)) for _, _, t in COMP}
    temp = {t: S.arr('temp_' + t, (n,), gen=lambda r, s: r.choice([15., 18., 19., 20., 21., 47., 50., 60.], size=s)) for _, t, _ in COMP}
    sim = S.new(TH, n_households=n, _cache={}, logger=None, current_time_step=0, thermostat={'deadband': dead},
                thermostat_states=dict(state), target_temperatures=dict(target))
    s0, t0, x0 = copies(S, state), copies(S, target), copies(S, temp)
    ext = S.choice('external', ['none', 'array', 'dict'])
    new = {}
    if ext != 'none':
        new = {'space_heating': S.arr('external_room', (n,), nan=True, gen=lambda r, s: r.choice([np.nan, 19., 21.], size=s))}
        if ext == 'dict':
            new['dhw'] = S.arr('external_dhw', (n,), nan=True, gen=lambda r, s: r.choice([np.nan, 45., 55.], size=s))
        n0 = copies(S, new)
        step(S, sim, temp, new['space_heating'] if ext == 'array' else new)
    else:
        n0 = {}
        step(S, sim, temp)
    goal, on = sim.get_target_temperatures(), sim.get_thermostat_states()
    for c, x, t in COMP:
        S.ensure('one state and target per household: ' + c, S.And(S.shape_is(on[c], n), S.shape_is(goal[t], n)))
        want = lambda i, t=t: S.ite(S.Not(S.isnan(S.at(n0[t], i))), lambda: S.at(n0[t], i), lambda: S.at(t0[t], i)) if t in n0 else S.at(t0[t], i)
        S.ensure('external target unless missing: ' + c, S.forall(n, lambda i: S.eq(S.at(goal[t], i), want(i))))
        S.ensure('switched off only above the dead band, on only below it: ' + c, S.forall(n, lambda i: S.Iff(S.at(on[c], i), S.Or(
            S.And(S.at(s0[c], i), S.at(x0[x], i) < S.at(goal[t], i) + dead[c]),
            S.And(S.Not(S.at(s0[c], i)), S.at(x0[x], i) <= S.at(goal[t], i) - dead[c])))))
    S.ensure('temperatures are unchanged', S.And(*[S.same(x0[k], temp[k]) for k in temp]))


@contract('C14', [TH + '.__init__', TH + '.initialize_starting_state', TH + '.initialize_target_temperatures', TH + '.read_thermostats'])
def thermostats_start(S):
    n, a, b = S.dim('n', 1, 4), S.dim('rooms', 1, 3), S.dim('waters', 1, 3)
    if S.symbolic:
        S.stub(S.mod(H[:-1]), 'monte_carlo_from_1d_cdf', draw_1d(S))
    pa, pb = probabilities(S, 'room_prob', a), probabilities(S, 'water_prob', b)
    room, water, em = S.arr('room', (a,), lo=10, hi=30), S.arr('water', (b,), lo=40, hi=60), S.real('emitter', 30, 60)

    class D:
        def load_thermostat_dict(self):
            return dict(home_temperatures_cdf=S.cum(pa, 0), home_temperatures_values=room, water_temperatures_cdf=S.cum(pb, 0),
                        water_temperatures_values=water, emitter_setpoints=em, deadband={'space_heating': 1, 'hot_water': 5, 'emitter': 5})
    given = S.flag('temperatures given')
    temp = reals(S, n, *NODES) if given else None
    sim = S.cls(TH)(n, temp, data=D())
    goal, on = sim.get_target_temperatures(), sim.get_thermostat_states()
    S.ensure('the target of a room is one of the table that can occur', S.And(S.shape_is(goal['space_heating'], n), S.forall(n, lambda i: S.exists(
        a, lambda j: S.And(S.eq(S.at(goal['space_heating'], i), S.at(room, j)), S.at(pa, j) > 0)))))
    S.ensure('the target of the water is one of the table that can occur', S.And(S.shape_is(goal['dhw'], n), S.forall(n, lambda i: S.exists(
        b, lambda j: S.And(S.eq(S.at(goal['dhw'], i), S.at(water, j)), S.at(pb, j) > 0)))))
    S.ensure('the target of the emitters', S.forall(n, lambda i: S.eq(S.at(goal['emitter'], i), em)))
    for c, x, t in COMP:
        S.ensure('on below the target: ' + c, S.And(S.shape_is(on[c], n), S.forall(n, lambda i: S.Iff(
            S.at(on[c], i), S.at(temp[x], i) < S.at(goal[t], i) if given else False))))


@contract('C14', [SC + '.__init__', SC + '.step', SC + '.get_controls', SC + '.initialize_starting_state'])
def controls(S):
    n = S.dim('n', 1, 4)
    kind = S.choice('boilers', ['none', 'given'])
    combi = S.arr('combi', (n,), 'b')
    combi0 = S.copy(combi)
    sim = S.cls(SC)(n, combi if kind == 'given' else None)
    c = sim.get_controls()
    for x in ('heater_on', 'heat_water_on', 'space_heating_on'):
        S.ensure('off at the start: ' + x, S.forall(n, lambda i: S.Not(S.at(c[x], i))))
    is_combi = lambda i: S.at(combi0, i) if kind == 'given' else False
    for q in ('first', 'second'):       # what holds at one step does not depend on the one before
        with_cyl = S.flag('external cylinder at the %s step' % q)
        cyl = S.arr('cylinder ' + q, (n,), 'b')
        dhw = S.arr('dhw ' + q, (n,), lo=0, gen=lambda r, s: r.choice([0., 3., .01], size=s))
        th = {x: S.arr(x + ' ' + q, (n,), 'b') for x in ('hot_water', 'space_heating', 'emitter')}
        t0, d0, c0 = copies(S, th), S.copy(dhw), S.copy(cyl)
        step(S, sim, dhw, th, cyl) if with_cyl else step(S, sim, dhw, th)
        c = sim.get_controls()
        demand = lambda i: S.Or(is_combi(i), S.at(c0, i) if with_cyl else False)
        S.ensure('water is heated on demand or for the cylinder', S.forall(n, lambda i: S.Iff(
            S.at(c['heat_water_on'], i), S.ite(demand(i), lambda: S.at(d0, i) > 0, lambda: S.at(t0['hot_water'], i)))))
        S.ensure('rooms are heated when the room and its emitters call', S.forall(n, lambda i: S.Iff(
            S.at(c['space_heating_on'], i), S.And(S.at(t0['space_heating'], i), S.at(t0['emitter'], i)))))
        S.ensure('the heater runs for either of them', S.forall(n, lambda i: S.Iff(
            S.at(c['heater_on'], i), S.Or(S.at(c['heat_water_on'], i), S.at(c['space_heating_on'], i)))))


@contract('C14', FM + '._split_heat_outputs_dhw_sh')
def split(S):
    """what an external system delivers is shared without loss"""
    n = S.dim('n', 1, 4)
    sim = S.new(FM)
    con = flags(S, n, 'heater_on', 'heat_water_on', 'space_heating_on')
    dem = reals(S, n, 'dhw', 'space_heating')
    heat = S.arr('heat', (n,), lo=0, gen=lambda r, s: r.choice([0., 5., 20., 300.], size=s))
    d0, h0 = copies(S, dem), S.copy(heat)
    out = sim._split_heat_outputs_dhw_sh(heat, con, dem)
    w, s = out['dhw'], out['space_heating']
    S.ensure('one output per household', S.And(S.shape_is(w, n), S.shape_is(s, n)))
    S.ensure('the shares total what is produced', S.forall(n, lambda i: S.eq(S.at(w, i) + S.at(s, i), S.at(h0, i))))
    S.ensure('shares are not negative', S.forall(n, lambda i: S.And(S.at(s, i) >= 0, S.le(0, S.at(w, i)))))
    S.ensure('rooms get heat only on request and no more than called for', S.forall(n, lambda i: S.Or(
        S.at(s, i) == 0, S.And(S.at(con['heater_on'], i), S.at(con['space_heating_on'], i), S.at(s, i) <= S.at(d0['space_heating'], i)))))
    S.ensure('inputs are unchanged', S.And(S.same(h0, heat), *[S.same(d0[x], dem[x]) for x in dem]))


@contract('C14', [HS + '.get_fuel_consumptions', HS + '.get_energy_consumption', HS + '.get_power_demand',
                  HS + '.get_pumps_power_consumptions'])
def consumption(S):
    n = S.dim('n', 1, 4)
    d = Dataset(S)
    k = d.k
    fuels = ['Mainsgas', 'Electricity']
    d.system['fuel_type'] = S.arr('fuel', (k,), 's', options=fuels)
    if not S.symbolic:
        d.system['fuel_flow_rate'][(d.system['heat_output_sh'] > 0) | (d.system['heat_output_dhw'] > 0)] += .5
    q0 = copies(S, {x: v for x, v in d.system.items() if x != 'number'})
    S.assume(S.forall(k, lambda j: S.Or(S.at(q0['fuel_flow_rate'], j) > 0, S.And(      # a system that delivers heat burns fuel
        S.at(q0['heat_output_sh'], j) == 0, S.at(q0['heat_output_dhw'], j) == 0))))
    if S.symbolic:
        S.stub(S.mod(H[:-1]), 'monte_carlo_from_1d_cdf', draw_1d(S))
    sim = S.cls(HS)(n, data=d)
    q = {x: (lambda i, v=v: S.at(v, S.at(sim.heating_types, i))) for x, v in q0.items()}
    con = flags(S, n, 'heat_water_on', 'space_heating_on')
    con['heater_on'] = con['heat_water_on'] | con['space_heating_on']
    step(S, sim, con, reals(S, n, 'dhw', 'space_heating'))
    out = sim.get_heat_outputs()
    fuel, power, energy = sim.get_fuel_consumptions(), sim.get_power_demand(), sim.get_energy_consumption()

    part = lambda i, x, y: S.ite(q[y](i) > 0, lambda: S.at(out[x], i) / q[y](i), lambda: 0.)
    share = lambda i: part(i, 'dhw', 'heat_output_dhw') + part(i, 'space_heating', 'heat_output_sh')
    pump = lambda i: S.ite(S.at(con['space_heating_on'], i), lambda: q['pump_power'](i), lambda: q['standby_power'](i))
    uses = lambda i, f: S.eq(q['fuel_type'](i), f)
    S.ensure('only known fuels', set(fuel) <= set(fuels))
    for f in fuels:
        if f not in fuel:
            S.ensure('a fuel without entry is not used: ' + f, S.forall(n, lambda i: S.Not(uses(i, f))))
            continue
        S.ensure('only the fuel of the system is used: ' + f, S.And(S.shape_is(fuel[f], n), S.forall(n, lambda i: S.Or(
            uses(i, f), S.at(fuel[f], i) == 0))))
        unit = (lambda v: v / 3600.) if f == 'Mainsgas' else lambda v: v * 1000.
        S.ensure('gas in m3/s, electricity in W, in proportion to the output: ' + f, S.forall(n, lambda i: S.Implies(
            uses(i, f), lambda: S.eq(S.at(fuel[f], i), share(i) * unit(q['fuel_flow_rate'](i))))))
    el = lambda i: S.ite(uses(i, 'Electricity'), lambda: share(i) * q['fuel_flow_rate'](i) * 1000., lambda: 0.)
    S.ensure('electric power', S.And(S.shape_is(power, n), S.forall(n, lambda i: S.eq(S.at(power, i), pump(i) + el(i)))))
    S.ensure('all energy in W', S.And(S.shape_is(energy, n), S.forall(n, lambda i: S.eq(S.at(energy, i), pump(i) + S.ite(
        uses(i, 'Mainsgas'), lambda: share(i) * q['flow_rate_to_W'](i), lambda: el(i))))))


PATTERNS = [(17, 1.5), (18.5, 1), (20, 2), (23, 2), (20, .5), (21, 1)]


@contract('C14', [VT + '.' + x for x in ('__init__', 'step', 'update_fluctuators', 'update_onoff_switchers', 'update_constant_patterns',
                                         'update_thermostat_temperatures', 'get_thermostat_temperatures', 'attribute_patterns',
                                         'initialize_fixed_patterns')], proof=False)
def variable_thermostat(S):
    """set temperatures stay in the range of the pattern of the household and follow its presence"""
    import datetime
    r = S.nrng
    n = S.dim('n', 1, 8)
    occ, act = r.randint(0, 3, size=n), r.randint(0, 3, size=n)
    start = datetime.datetime(2020, 5, 1, S.rng.choice([0, 6, 23]), S.rng.choice([0, 30, 50]))
    sim = S.cls(VT)(n, occ, act, start)
    T = sim.get_thermostat_temperatures()
    lab = sim.pattern_type
    mean, dev = np.array([p[0] for p in PATTERNS])[lab], np.array([p[1] for p in PATTERNS])[lab]
    S.ensure('mean temperature at the start', np.allclose(T, mean))
    for q in range(S.dim('steps', 1, 160) if S.rng.random() < .2 else S.dim('few', 1, 4)):
        po, pa, prev = occ, act, T
        occ, act = r.randint(0, 3, size=n), r.randint(0, 3, size=n)
        step(S, sim, occ, act)
        T = sim.get_thermostat_temperatures()
        S.ensure('one temperature per household', T.shape == (n,))
        for i in range(n):
            if lab[i] in (1, 5):
                S.ensure('fixed patterns use three temperatures', np.isclose(abs(T[i] - mean[i]), [0, dev[i]]).any())
                f = {x: v[i] for x, v in sim.fixed_pattern_dict.items()}
                now = (sim.time.hour, sim.time.minute)
                at = lambda x: (f[x + ' hour'], f[x + ' minutes']) == now
                leaves = at('leaving') and bool(f['change during day'])
                e = (mean[i] + dev[i] if at('wake up') else mean[i] if at('bed time') else mean[i] + dev[i] if at('returning')
                     else mean[i] - dev[i] if leaves else prev[i])
                S.ensure('fixed patterns follow their times', np.isclose(T[i], e))
                continue
            if lab[i] == 4:
                S.ensure('warm exactly when someone is at home', np.isclose(T[i], 20 if occ[i] > 0 else 16))
                continue
            S.ensure('between the lowest and the comfort temperature', 16 <= T[i] <= mean[i] + dev[i])
            if act[i] == 0:
                leave, arrive = po[i] > 0 and occ[i] == 0, po[i] == 0 and occ[i] > 0
                e = 16 if leave else mean[i] + dev[i] if arrive else mean[i] if pa[i] > 0 else prev[i]
                S.ensure('presence and activity set the temperature', np.isclose(T[i], e))
            else:
                change = np.isclose(T[i], prev[i]) or T[i] == 16 or T[i] >= mean[i]
                S.ensure('comfort never lowers below the mean', change)


@contract('C14', ['demod.simulators.util.assign_external_array', 'demod.simulators.util.assign_external_dict'])
def external_values(S):
    """values given for some households replace theirs alone"""
    u = S.mod('demod.simulators.util')
    n = S.dim('n', 1, 4)
    own = {k: S.arr('own ' + k, (n,)) for k in ('dhw', 'space_heating')}
    o0 = copies(S, own)
    ext = S.arr('given', (n,), nan=True, gen=lambda r, s: r.choice([np.nan, 0., 3.], size=s))
    e0 = S.copy(ext)
    want = lambda k, i: S.ite(S.isnan(S.at(e0, i)), lambda: S.at(o0[k], i), lambda: S.at(e0, i))
    if S.flag('array'):
        out = u.assign_external_array(own['dhw'], ext)
        S.ensure('the given value, otherwise the own one', S.And(S.shape_is(out, n), S.forall(n, lambda i: S.eq(S.at(out, i), want('dhw', i)))))
        S.ensure('the own values are not modified', S.same(own['dhw'], o0['dhw']))
        S.ensure('nothing given: the own values', S.same(u.assign_external_array(own['dhw'], None), o0['dhw']))
    else:
        nothing = S.flag('nothing')
        out = u.assign_external_dict(dict(own), None if nothing else {'space_heating': ext})
        S.ensure('nothing given for hot water', S.same(out['dhw'], o0['dhw']))
        if nothing:
            S.ensure('nothing given', S.same(out['space_heating'], o0['space_heating']))
        else:
            S.ensure('the given values of space heating', S.forall(n, lambda i: S.eq(S.at(out['space_heating'], i), want('space_heating', i))))
    S.ensure('given values are not modified', S.forall(n, lambda i: S.And(S.Iff(S.isnan(S.at(ext, i)), S.isnan(S.at(e0, i))), S.Or(
        S.isnan(S.at(e0, i)), lambda: S.at(ext, i) == S.at(e0, i)))))
