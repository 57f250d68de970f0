"""C05  Simulator bookkeeping and cached getters."""
import numpy as np
from dv.harness import contract

B = 'demod.simulators.base_simulators'


@contract('C05', B + '.Simulator.__init__')
def number_of_households(S):
    n = S.int('n', -5, 50)
    e = S.raises((TypeError, ValueError), lambda: S.cls(B + '.Simulator')(n))
    if e is None:
        S.ensure('only positive numbers are accepted', n >= 1)
        S.ensure('the number is kept', S.result.n_households == n)
        S.ensure('no logger', S.result.logger is None)
        S.ensure('empty cache', len(S.result._cache) == 0)
    else:
        S.ensure('rejected because it is not positive', n <= 0)
        S.ensure('as a ValueError', isinstance(e, ValueError))


@contract('C05', B + '.Simulator.__init__')
def castable_to_integer(S):
    kind = S.choice('kind', ['float', 'text', 'numpy', 'none', 'word', 'list', 'logger', 'zero', 'others'])
    Sim = S.cls(B + '.Simulator')
    if kind == 'logger':
        e = S.raises(TypeError, lambda: Sim(2, logger='no logger'))
        S.ensure('a logger must be a SimLogger', e is not None)
        return
    if kind == 'zero':
        given = S.choice('castable to zero or less', [0.5, -0.5, 1e-9, '0', '-1', False, np.float64(.99), np.int64(0), -3.2])
        S.ensure('what casts to zero or less is rejected', S.raises(ValueError, lambda: Sim(given)) is not None)
        return
    if kind == 'others':
        given = S.choice('castable', [1.99, '12', True, np.float64(1.5), np.array(4), ' 7 ', 2.0])
        S.ensure('kept as the integer', Sim(given).n_households == int(given))
        return
    given, expect = {'float': (3.7, 3), 'text': ('4', 4), 'numpy': (np.int64(5), 5),
                     'none': (None, None), 'word': ('four', None), 'list': ([1, 2], None)}[kind]
    e = S.raises(TypeError, lambda: Sim(given))
    if expect is None:
        S.ensure('a TypeError for what cannot be cast to an integer', e is not None)
    else:
        S.ensure('cast to an integer', e is None and S.result.n_households == expect)


def counting(S):
    class Sim(S.cls(B + '.Simulator')):
        def step(self, *a, **k):
            self.calls = self.calls + 1
            S.ensure('steps get the given arguments', (a, k) == ((7,), {'x': 8}))
            super().step()
    return Sim


@contract('C05', [B + '.Simulator.initialize_starting_state', B + '.Simulator.step'])
def preliminary_steps(S):
    sim = counting(S)(2)
    sim.calls = 0
    k = S.int('k', 0, 30)

    def havoc(i):
        sim.calls = S.ghost_int('calls')
        sim.current_time_step = S.ghost_int('time_step')
    S.loop('Simulator.initialize_starting_state',
           lambda i, env: S.And(sim.calls == i, sim.current_time_step == i), havoc=havoc)
    sim.initialize_starting_state(k, 7, x=8)
    S.ensure('exactly that many steps are performed', sim.calls == k)
    S.ensure('and counted', sim.current_time_step == k)


@contract('C05', B + '.Simulator.initialize_starting_state')
def preliminary_steps_rejected(S):
    sim = counting(S)(2)
    sim.calls = 0
    k = S.int('k', -5, -1)
    e = S.raises(ValueError, lambda: sim.initialize_starting_state(k))
    S.ensure('a negative number of steps is rejected', S.And(e is not None, sim.calls == 0))
    e = S.raises(TypeError, lambda: sim.initialize_starting_state(2.5))
    S.ensure('a number of steps that is not an integer is rejected', S.And(e is not None, sim.calls == 0))


@contract('C05', B + '.Simulator.step')
def one_step(S):
    sim = S.cls(B + '.Simulator')(3)
    t = S.int('t', 0, 10**6)
    sim.current_time_step = t
    if S.flag('cached'):
        sim._cache['something'] = 1
    sim.step()
    S.ensure('the step is counted', sim.current_time_step == t + 1)
    S.ensure('cached values are dropped', len(sim._cache) == 0)
    S.ensure('number of households is kept', sim.n_households == 3)


def getter_sim(S, n, log):
    B_ = S.mod(B)

    class Sim(B_.Simulator):
        def __init__(self, n_, log):
            super().__init__(n_)
            self.log = log

        def step(self, state):
            self.state = state
            super().step()

        @B_.cached_getter
        def get_value(self):
            self.log.append('value')
            return self.state * 2

        @B_.cached_getter
        def get_other(self):
            self.log.append('other')
            return self.state + 1
    return Sim(n, log)


@contract('C05', [B + '.cached_getter', B + '.Simulator.step'])
def getter_after_any_call(S):
    """invariant of the cache: what it holds is the value of the current state"""
    n = S.dim('n', 1, 5)
    log = []
    sim = getter_sim(S, n, log)
    sim.current_time_step = 0
    x = S.arr('x', (n,))
    sim.state = x
    i = S.int('i', 0, 4)
    S.assume(i < n)
    if S.flag('other before'):
        sim.get_other()
    if S.flag('same before'):
        sim.get_value()
    if S.flag('single before'):
        sim.get_value(i)
    v = sim.get_value()
    S.ensure('value of the current state', S.same(v, x * 2))
    S.ensure('one household: the entry of the full result', S.eq(sim.get_value(i), S.at(x, i) * 2))
    S.ensure('also as keyword', S.eq(sim.get_value(n_ieth_hh=i), S.at(x, i) * 2))
    S.ensure('computed once between two steps', log.count('value') == 1)
    S.ensure('getters do not share results', S.same(sim.get_other(), x + 1))
    y = S.arr('y', (n,))
    sim.step(y)
    S.ensure('recomputed after a step', S.same(sim.get_value(), y * 2))
    S.ensure('recomputed after a step (one household)', S.eq(sim.get_other(i), S.at(y, i) + 1))
    S.ensure('one more computation', log.count('value') == 2)


@contract('C05', [B + '.cached_getter'])
def getters_of_two_simulators(S):
    n = S.dim('n', 1, 5)
    a, b = getter_sim(S, n, []), getter_sim(S, n, [])
    x, y = S.arr('x', (n,)), S.arr('y', (n,))
    a.state, b.state = x, y
    a.get_value()
    S.ensure('simulators do not share results', S.same(b.get_value(), y * 2))
    S.ensure('simulators do not share results (first)', S.same(a.get_value(), x * 2))


@contract('C05', [B + '.cached_getter', B + '.Simulator.step'], proof=False)
def getter_histories(S):
    n = S.dim('n', 1, 3)
    log = []
    sim = getter_sim(S, n, log)
    sim.current_time_step = 0
    sim.state = np.zeros(n)
    fresh = 0
    for k in range(S.dim('length', 1, 12)):
        op = S.choice('op%d' % k, ['step', 'get', 'one', 'other', 'negative'])
        if op == 'step':
            sim.step(S.arr('s%d' % k, (n,)))
            fresh = 0
        elif op == 'get':
            S.ensure('current value', S.same(sim.get_value(), sim.state * 2))
        elif op == 'one':
            j = S.int('j%d' % k, 0, 2)
            if j < n:
                S.ensure('entry of the current value', S.eq(sim.get_value(j), sim.state[j] * 2))
        elif op == 'other':
            S.ensure('current value', S.same(sim.get_other(), sim.state + 1))
    S.ensure('steps are counted', sim.current_time_step == sum(1 for q in S.log if str(q).startswith('s') and str(q)[1:].isdigit()))


@contract('C05', [B + '.ExampleSimulator.step', B + '.ExampleSimulator.initialize_starting_state'])
def example_simulator(S):
    n = S.dim('n', 1, 4)
    a, l = S.arr('arriving', (n,), 'i', lo=0, hi=3), S.arr('leaving', (n,), 'i', lo=0, hi=3)
    sim = S.cls(B + '.ExampleSimulator')(n, 4)
    before = S.copy(sim.occupants)
    S.ensure('starts at time step 0', sim.current_time_step == 0)
    sim.step(a, l)
    S.ensure('arrivals and departures are applied once', S.forall((n,), lambda i: S.at(sim.occupants, i) == S.at(
        before, i) + S.at(a, i) - S.at(l, i)))
    S.ensure('one step counted', sim.current_time_step == 1)


# --------------------------------------------- every step of every simulator: the step contracts of C10 .. C18,
# re-run for the bookkeeping clauses alone
from contracts import c10, c11, c12, c14, c15, c16, c17, c18  # noqa: E402
from contracts.common import COUNTED, DROPPED  # noqa: E402
from dv.harness import same_contract  # noqa: E402

for mod, names in [(c10, ['next_state', 'semi_step', 'sparse_step']), (c11, ['crest_histories', 'crest_model', 'individuals_histories']),
                   (c12, ['occupancy_step', 'activity_step', 'probabilistic_step']),
                   (c14, ['outputs', 'thermostats', 'controls', 'consumption', 'variable_thermostat']),
                   (c15, ['dynamics', 'demand', 'whole_step']), (c16, ['fisher', 'crest_step']),
                   (c17, ['recordings_at_any_time', 'crest_irradiance', 'crest_climate_step']), (c18, ['one_step'])]:
    for fn in names:
        same_contract('C05', getattr(mod, fn), only=(COUNTED, DROPPED))
