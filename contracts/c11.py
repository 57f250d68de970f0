"""C11  Decoding of occupancy states."""
import numpy as np
from dv.harness import contract
from contracts.common import gen_pdf, step
from contracts.c10 import Diaries, gen_sparse

A = 'demod.simulators.activity_simulators'
SP = 'demod.simulators.sparse_simulators'
CR = 'demod.simulators.crest_simulators'
CO = CR + '.CrestOccupancySimulator'
ST = SP + '.SparseStatesSimulator'
TR = SP + '.SparseTransitStatesSimulator'


def crest(S):
    """a simulator in any state of any table of labels 'persons at home, persons active'"""
    n, m, r = S.dim('n', 1, 4), S.dim('m', 1, 5), S.int('r', 1, 6)
    home = S.arr('home', (m,), 'i', lo=0, hi=r)
    act = S.arr('act', (m,), 'i', lo=0, hi=r)
    states = S.arr('states', (n,), 'i', lo=0, hi=m - 1)
    sim = S.new(CO, n_households=n, n_states=m, n_residents=r, state_labels=home * 10 + act,
                current_states=states, current_time_step=0, _cache={}, logger=None)
    return sim, n, r, lambda i: S.at(home, S.at(states, i)), lambda i: S.at(act, S.at(states, i))


def least(S, a, b):
    return S.ite(a <= b, a, b)


@contract('C11', [CO + '.get_occupancy', CO + '.get_active_occupancy', CO + '.get_thermal_gains'])
def crest_states(S):
    sim, n, r, home, act = crest(S)
    occ, active, gains = sim.get_occupancy(), sim.get_active_occupancy(), sim.get_thermal_gains()
    S.ensure('one value per household', S.And(S.shape_is(occ, n), S.shape_is(active, n), S.shape_is(gains, n)))
    S.ensure('occupants are the persons at home', S.forall(n, lambda i: S.at(occ, i) == home(i)))
    S.ensure('active occupants are at home and active', S.forall(n, lambda i: S.at(active, i) == least(S, home(i), act(i))))
    S.ensure('active occupants are occupants, occupants are residents', S.forall(n, lambda i: S.And(
        S.at(active, i) >= 0, S.at(active, i) <= S.at(occ, i), S.at(occ, i) <= r)))
    S.ensure('gains: 147 W per active, 84 W per other occupant', S.forall(n, lambda i: S.eq(
        S.at(gains, i), 147 * S.at(active, i) + 84 * (S.at(occ, i) - S.at(active, i)))))


class CrestData:
    def __init__(self, S):
        self.S, self.refresh_time, self.tables = S, S.dt.time(0, 0), {}

    def load_tpm(self, sub):
        k = sub['n_residents'], tuple(sub['weekday'])
        if k not in self.tables:
            m = (k[0] + 1) ** 2
            lab = np.array([10 * a + b for a in range(k[0] + 1) for b in range(k[0] + 1)])
            lab = lab[self.S.nrng.permutation(m)]
            tpm = np.array([np.eye(m)[self.S.nrng.permutation(m)] for _ in range(144)]) if self.S.nrng.randint(2) else \
                gen_pdf(self.S.nrng, (144, m, m))
            self.tables[k] = tpm, lab, gen_pdf(self.S.nrng, (m,))
        return self.tables[k]

    def load_population_subgroups(self, kind):
        return [{'n_residents': i} for i in (1, 2, 3)], np.array([.5, .25, .25]), {}


@contract('C11', [CO + '.__init__', CO + '.get_occupancy', CO + '.get_active_occupancy', CO + '.get_thermal_gains',
                  CO + '.step'], proof=False)
def crest_histories(S):
    n, r = S.dim('n', 1, 4), S.dim('r', 1, 3)
    sim = S.cls(CO)(n, r, S.choice('day', ['d', 'e']), data=CrestData(S))
    for t in range(S.dim('steps', 1, 8)):
        op = S.choice('op%d' % t, ['step', 'occupancy', 'active', 'gains'])
        lab = sim.state_labels[sim.current_states]
        occ, active = lab // 10, np.minimum(lab // 10, lab % 10)
        if op == 'step':
            step(S, sim)
        elif op == 'occupancy':
            S.ensure('occupants of the current state', np.array_equal(sim.get_occupancy(), occ))
        elif op == 'active':
            S.ensure('active occupants of the current state', np.array_equal(sim.get_active_occupancy(), active))
        else:
            S.ensure('gains of the current state', np.array_equal(sim.get_thermal_gains(), 147 * active + 84 * (occ - active)))


@contract('C11', [CR + '.Crest4StatesModel.__init__', CR + '.Crest4StatesModel.step',
                  CR + '.Crest4StatesModel.on_before_refresh_time'], proof=False, runs=100, quick_runs=25)
def crest_model(S):
    n = S.dim('n', 1, 6)
    start = S.datetime('start').replace(second=0, microsecond=0)
    start = start.replace(hour=S.rng.choice([0, 1, 22, 23]), minute=10 * (start.minute // 10))
    data = CrestData(S)
    sim = S.cls(CR + '.Crest4StatesModel')(n, data, start)
    S.ensure('households', sim.n_households == n and len(sim.n_residents) == n)
    for t in range(S.dim('steps', 1, 20)):
        if t:
            step(S, sim)
        S.ensure('clock', sim.current_time == start + S.dt.timedelta(minutes=10) * t)
        lab = sim.get_states_labeled()
        occ, act = sim.get_occupancy(), sim.get_active_occupancy()
        S.ensure('occupants', np.array_equal(occ, lab // 10))
        S.ensure('active occupants', np.array_equal(act, np.minimum(lab // 10, lab % 10)))
        S.ensure('not more than the residents', (occ <= sim.n_residents).all())
        S.ensure('gains', np.array_equal(sim.get_thermal_gains(), 147 * act + 84 * (occ - act)))
        S.ensure('sub-simulators by number of residents', np.array_equal(sim.get_mask_subgroup({'n_residents': 2}), sim.n_residents == 2))


# ------------------------------------------------------------------ sparse states
def digits(S, n, m, k, name='', hi=6):
    """state labels with the digit d at position k of base 7"""
    p = 7 ** k
    lo = S.arr('lo' + name, (m,), 'i', lo=0, hi=p - 1)
    d = S.arr('d' + name, (m,), 'i', lo=0, hi=hi)
    up = S.arr('up' + name, (m,), 'i', lo=0, hi=7 ** 5)
    return lo + d * p + up * (7 * p), d


@contract('C11', [ST + '.get_n_doing_state', ST + '.get_n_doing_activity'])
def sparse_digits(S):
    n, m = S.dim('n', 1, 4), S.dim('m', 1, 4)
    k = S.choice('position', list(range(10)))
    lab, d = digits(S, n, m, k)
    states = S.arr('states', (n,), 'i', lo=0, hi=m - 1)
    sim = S.new(ST, state_labels=lab, current_states=states, n_households=n, _cache={})
    got = sim.get_n_doing_state(k)
    S.ensure('one value per household', S.shape_is(got, n))
    S.ensure('the digit of the activity', S.forall(n, lambda i: S.at(got, i) == S.at(d, S.at(states, i))))
    two = sim.get_n_doing_state([k, k])
    S.ensure('one result per state of a list', len(two) == 2)
    S.ensure('each the one of the state', S.And(S.same(two[0], got), S.same(two[1], got)))
    S.ensure('other types are rejected', S.raises(TypeError, lambda: sim.get_n_doing_state(1.5)) is not None)


@contract('C11', [ST + '.get_n_doing_state', ST + '.get_n_doing_activity'], proof=False)
def sparse_names(S):
    n, a = S.dim('n', 1, 5), S.dim('activities', 1, 9)
    names = np.array(['act%d' % i for i in S.nrng.permutation(a)])
    m = S.dim('m', 1, 5)
    dig = S.nrng.randint(0, 7, size=(m, a))
    lab = (dig * 7 ** np.arange(a)).sum(1)
    if S.flag('unsigned'):
        lab = lab.astype(np.uint64)
    states = S.nrng.randint(m, size=n)
    sim = S.new(ST, state_labels=lab, current_states=states, n_households=n, _cache={}, activity_labels=names)
    for j, nm in enumerate(names):
        for q in (str(nm), int(j)):
            S.ensure('persons doing the activity', np.array_equal(sim.get_n_doing_activity(q), dig[states, j]))
    S.ensure('a list of activities', np.array_equal(sim.get_n_doing_activity([str(x) for x in names]), dig[states].T))
    S.ensure('unknown activities are rejected', S.raises(ValueError, lambda: sim.get_n_doing_activity('unknown')) is not None)


@contract('C11', [TR + '.get_occupancy', TR + '.get_active_occupancy', TR + '.get_thermal_gains'])
def transit(S):
    """occupants and gains, given the numbers of persons doing the activities (contract sparse_digits)"""
    n, r = S.dim('n', 1, 4), S.int('r', 1, 6)
    num = {k: S.arr(k, (n,), 'i', lo=0, hi=r) for k in ('active', 'HWH', 'HOH')}
    S.assume(S.forall(n, lambda i: S.at(num['HWH'], i) + S.at(num['HOH'], i) <= r))
    sim = S.new(TR, n_residents=r, n_households=n, _cache={})
    S.stub(sim, 'get_n_doing_state', lambda s: num[s])
    order = S.choice('order', [0, 1])
    if order:
        gains, active, occ = sim.get_thermal_gains(), sim.get_active_occupancy(), sim.get_occupancy()
    else:
        occ, active, gains = sim.get_occupancy(), sim.get_active_occupancy(), sim.get_thermal_gains()
    S.ensure('one value per household', S.And(S.shape_is(occ, n), S.shape_is(active, n), S.shape_is(gains, n)))
    S.ensure('occupants are the residents not in transit', S.forall(n, lambda i: S.at(occ, i) == r - S.at(
        num['HWH'], i) - S.at(num['HOH'], i)))
    S.ensure('active occupants', S.forall(n, lambda i: S.at(active, i) == least(S, S.at(occ, i), S.at(num['active'], i))))
    S.ensure('active occupants are occupants, occupants are residents', S.forall(n, lambda i: S.And(
        S.at(active, i) >= 0, S.at(active, i) <= S.at(occ, i), S.at(occ, i) <= r)))
    S.ensure('gains: 147 W per active, 84 W per other occupant', S.forall(n, lambda i: S.eq(
        S.at(gains, i), 147 * S.at(active, i) + 84 * (S.at(occ, i) - S.at(active, i)))))


@contract('C11', [TR + '.__init__', TR + '.step', TR + '.get_occupancy', TR + '.get_active_occupancy', TR + '.get_thermal_gains',
                  SP + '.SubgroupsActivitySimulator.__init__', SP + '.SubgroupsActivitySimulator.get_n_doing_state'], proof=False)
def transit_histories(S):
    T = 144
    tables = {}

    class Data:
        def load_sparse_tpm(self, sub):
            k = sub['n_residents'], str(sub.get('weekday'))
            if k not in tables:
                r = sub['n_residents']
                m = S.nrng.randint(1, 6)
                lab = []
                for _ in range(m):
                    d = [S.nrng.randint(r + 1), 0, 0]
                    d[1] = S.nrng.randint(r + 1)
                    d[2] = S.nrng.randint(r + 1 - d[1])
                    lab.append(d[0] * 49 + d[1] * 7 + d[2])
                lab = np.unique(lab)
                dense, tpm = gen_sparse(S, len(lab), T, False)
                tables[k] = tpm, lab, np.array(['HOH', 'HWH', 'active']), gen_pdf(S.nrng, (len(lab),))
            return tables[k]
    groups = [{'n_residents': r} for r in (1, 2, 4)[:S.dim('groups', 1, 3)]]
    nh = [S.dim('n%d' % i, 0, 3) for i in range(len(groups))]
    if not sum(nh):
        nh[0] = 1
    kw = {}
    if S.flag('aware'):
        kw['start_datetime'] = S.datetime('start').replace(hour=4, minute=10, second=0, microsecond=0)
    sim = S.cls(SP + '.SubgroupsActivitySimulator')(groups, nh, data=Data(), **kw)
    res = np.repeat([g['n_residents'] for g in groups], nh)
    S.ensure('households', sim.n_households == sum(nh))
    for t in range(S.dim('steps', 1, 10)):
        op = S.choice('op%d' % t, ['step', 'occupancy', 'active', 'gains', 'away'])
        if op == 'step':
            step(S, sim)
            continue
        lab = np.concatenate([s.state_labels[s.current_states] for s in sim.simulators])
        hoh, hwh, act = lab % 7, lab // 7 % 7, lab // 49 % 7
        occ = res - hoh - hwh
        active = np.minimum(occ, act)
        if op == 'occupancy':
            S.ensure('occupants of the current state', np.array_equal(sim.get_occupancy(), occ))
        elif op == 'active':
            S.ensure('active occupants of the current state', np.array_equal(sim.get_active_occupancy(), active))
        elif op == 'gains':
            S.ensure('gains of the current state', np.array_equal(sim.get_thermal_gains(), 147 * active + 84 * (occ - active)))
        else:
            S.ensure('persons doing an activity', np.array_equal(sim.get_n_doing_activity('HWH'), hwh))


# ------------------------------------------------------------------ individuals
SI = A + '.SubgroupsIndividualsActivitySimulator'


@contract('C11', [SI + '.get_occupancy', SI + '.get_active_occupancy', SI + '.get_activity_states'])
def individuals(S):
    n = S.dim('n', 1, 4)
    num = {k: S.arr(k, (n,), 'i', lo=0, hi=6) for k in ('away', 'sleeping', 'cook')}
    res = num['away'] + num['sleeping'] + num['cook']
    sim = S.new(SI, n_residents=res, n_households=n, _cache={}, activity_labels=['away', 'sleeping', 'cook'])
    S.stub(sim, 'get_n_doing_activity', lambda a: num[a])
    first = S.flag('first')
    states = sim.get_activity_states() if first else None
    occ, active = sim.get_occupancy(), sim.get_active_occupancy()
    states = sim.get_activity_states()
    S.ensure('all activities', set(states) == {'away', 'sleeping', 'cook', 'active_occupancy'})
    S.ensure('with their persons', S.And(*[S.same(states[k], num[k]) for k in num]))
    S.ensure('occupants are the residents not away', S.forall(n, lambda i: S.at(occ, i) == S.at(res, i) - S.at(num['away'], i)))
    S.ensure('active occupants do not sleep', S.forall(n, lambda i: S.at(active, i) == S.at(occ, i) - S.at(num['sleeping'], i)))
    S.ensure('active occupants are occupants, occupants are residents', S.forall(n, lambda i: S.And(
        S.at(active, i) >= 0, S.at(active, i) <= S.at(occ, i), S.at(occ, i) <= S.at(res, i))))
    S.ensure('as listed among the states', S.same(states['active_occupancy'], active))


@contract('C11', [SI + '.get_occupancy', SI + '.get_active_occupancy', SI + '.get_n_doing_activity', SI + '.get_activity_states'],
          proof=False)
def individuals_histories(S):
    mod = S.mod(A)
    groups = [dict(n_residents=1, household_type=1), dict(n_residents=3, household_type=4)][:S.dim('groups', 1, 2)]
    nh = [S.dim('n%d' % i, 1, 3) for i in range(len(groups))]
    sim = mod.SubgroupsIndividualsActivitySimulator(groups, nh, data=Diaries(S, 144, False),
                                                    start_datetime=S.dt.datetime(2015, 3, 2, 4, 0))
    N = sum(nh)
    for t in range(S.dim('steps', 1, 8)):
        op = S.choice('op%d' % t, ['step', 'occupancy', 'active', 'cook', 'cook', 'states'])
        if op == 'step':
            step(S, sim)
            continue
        now = np.concatenate([s.state_labels[s.current_states] for s in sim.simulators])
        cnt = {a: np.bincount(sim.hh_of_persons[now == a], minlength=N) for a in ('away', 'sleeping', 'cook', 'tv')}
        if op == 'occupancy':
            S.ensure('occupants of the current state', np.array_equal(sim.get_occupancy(), sim.n_residents - cnt['away']))
        elif op == 'active':
            S.ensure('active occupants of the current state', np.array_equal(
                sim.get_active_occupancy(), sim.n_residents - cnt['away'] - cnt['sleeping']))
        elif op == 'cook':
            S.ensure('persons doing an activity', np.array_equal(sim.get_performing_activity('cook'), cnt['cook']))
        else:
            st = sim.get_activity_states()
            S.ensure('persons doing each activity', all(np.array_equal(st[a], cnt[a]) for a in cnt))
