"""C06  The simulated clock."""
import datetime
import numpy as np
from dv.harness import contract

B = 'demod.simulators.base_simulators'
SEC = datetime.timedelta(seconds=1)
DAY = datetime.timedelta(days=1)


def clock(S, given=((5,), {'x': 6})):
    class Sim(S.cls(B + '.TimeAwareSimulator')):
        def step(self, *a, **k):
            self.calls = self.calls + 1
            S.ensure('steps get the given arguments', (a, k) == given)
            super().step()
    return Sim


def prepare(S, hi_step=DAY, given=((5,), {'x': 6})):
    S.local_timezone()
    start = S.datetime('start')
    step = S.timedelta('step', SEC, hi_step)
    sim = clock(S, given)(2, start_datetime=start, step_size=step)
    sim.calls = 0
    return start, step, sim


def loop(S, sim, first, step):
    """first(): clock before the preliminary steps"""
    box = {}

    def inv(i, env):
        if 't' not in box:
            box['t'] = sim.current_time
        return S.And(sim.calls == i, sim.current_time_step == i, sim.current_time == box['t'] + step * i)

    def havoc(i):
        sim.calls = S.ghost_int('calls')
        sim.current_time_step = S.ghost_int('time_step')
        sim.current_time = box['t'] + step * i
    S.loop('Simulator.initialize_starting_state', inv, havoc=havoc)


@contract('C06', B + '.TimeAwareSimulator.step')
def one_step(S):
    start, step, sim = prepare(S, given=((), {}))
    t = S.int('t', 0, 10**6)
    sim.current_time_step = t
    sim.step()
    S.ensure('the clock advances by the step size', sim.current_time == start + step)
    S.ensure('the step is counted', sim.current_time_step == t + 1)
    S.ensure('the step size is kept', sim.step_size == step)
    S.ensure('cached values are dropped', len(sim._cache) == 0)


@contract('C06', B + '.TimeAwareSimulator.__init__')
def construction(S):
    start, step, sim = prepare(S)
    S.ensure('the clock shows the start', sim.current_time == start)
    S.ensure('step size', sim.step_size == step)
    S.ensure('households', sim.n_households == 2)
    C = S.cls(B + '.TimeAwareSimulator')
    S.ensure('a start that is no datetime is rejected', S.raises(
        TypeError, lambda: C(2, start_datetime='2014-01-01')) is not None)
    S.ensure('a step size that is no timedelta is rejected', S.raises(
        TypeError, lambda: C(2, step_size=60)) is not None)


def after_init(S, sim, start, step, elapsed):
    S.ensure('the clock shows the requested start', sim.current_time == start)
    S.ensure('the whole number of steps that fit are performed', S.And(
        step * sim.calls <= elapsed, elapsed < step * (sim.calls + 1)))
    S.ensure('and counted', sim.current_time_step == sim.calls)
    S.ensure('the step size is kept', sim.step_size == step)


@contract('C06', [B + '.TimeAwareSimulator.initialize_starting_state', B + '.TimeAwareSimulator.step'])
def from_datetime(S):
    start, step, sim = prepare(S)
    back = S.timedelta('back', -2 * DAY, 2 * DAY)
    if not S.symbolic:
        S.assume(back // step < 3000)
    loop(S, sim, None, step)
    e = S.raises(ValueError, lambda: sim.initialize_starting_state(5, x=6, initialization_time=start - back))
    zero = datetime.timedelta(0)
    if e is None:
        S.ensure('only a datetime that is not in the future is accepted', back >= zero)
        after_init(S, sim, start, step, back)
    else:
        S.ensure('only a datetime in the future is rejected', back < zero)
        S.ensure('without performing a step', sim.calls == 0)


@contract('C06', [B + '.TimeAwareSimulator.initialize_starting_state'])
def from_time_of_day(S):
    start, step, sim = prepare(S)
    us = S.dt.timedelta(microseconds=1)
    # concrete runs: often a whole number of steps before the start, or a microsecond from it
    tod = S.time('time of day', gen=lambda r: (S.tod(start) - r.randint(0, 200) * (step // us) + r.choice([0, 0, -1, 1])) % (86400 * 10**6))
    if not S.symbolic:
        S.assume(step > 20 * SEC)
    loop(S, sim, None, step)
    sim.initialize_starting_state(5, x=6, initialization_time=tod)
    # the latest moment with that time of day that is not after the start
    d = S.tod(start) - S.tod(tod)
    day = 86400 * 10**6
    el = S.ite(d >= 0, lambda: d, lambda: d + day)
    after_init(S, sim, start, step, S.dt.timedelta(microseconds=el))


@contract('C06', [B + '.TimeAwareSimulator.initialize_starting_state'])
def without_initialization(S):
    start, step, sim = prepare(S, given=((5,), {}))
    loop(S, sim, None, step)
    if S.flag('now'):
        sim.initialize_starting_state(5, initialization_time=start, start_time_step=4)
    else:
        sim.initialize_starting_state(5)
    S.ensure('no step is performed', S.And(sim.calls == 0, sim.current_time_step == 0))
    S.ensure('the clock shows the requested start', sim.current_time == start)


@contract('C06', [B + '.TimeAwareSimulator.initialize_starting_state'])
def unknown_initialization(S):
    start, step, sim = prepare(S)
    S.ensure('an initialisation time of another type is rejected', S.raises(
        NotImplementedError, lambda: sim.initialize_starting_state(initialization_time='04:00')) is not None)


@contract('C06', [B + '.TimeAwareExampleSimulator.__init__', B + '.TimeAwareExampleSimulator.step'], proof=False)
def example(S):
    start = S.datetime('start')
    step = S.timedelta('step', 60 * SEC, 60 * 60 * SEC)
    sim = S.cls(B + '.TimeAwareExampleSimulator')(3, 2, start_datetime=start, step_size=step)
    S.ensure('the clock shows the requested start', sim.current_time == start)
    four = start.replace(hour=4, minute=0, second=0, microsecond=0)
    if four > start:
        four -= DAY
    S.ensure('initialised at 4 a.m.', sim.current_time_step == (start - four) // step)
    for k in range(S.dim('steps', 1, 4)):
        n0 = sim.current_time_step
        sim.step(np.zeros(3), np.zeros(3))
        S.ensure('one step', sim.current_time_step == n0 + 1 and sim.current_time == start + (k + 1) * step)


# --------------------------------------------- the clock of every simulator: the step contracts of C11 .. C18,
# re-run for this clause alone
from contracts import c11, c12, c17, c18  # noqa: E402
from contracts.common import CLOCK  # noqa: E402
from dv.harness import same_contract  # noqa: E402

for fn in [c11.crest_model, c12.occupancy_step, c12.activity_step, c12.probabilistic_step, c17.recordings_at_any_time,
           c17.crest_irradiance, c17.crest_climate_step, c18.one_step]:
    same_contract('C06', fn, only=(CLOCK,))
