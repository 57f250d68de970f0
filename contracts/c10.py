"""C10  Markov activity dynamics."""
import numpy as np
from dv.harness import contract
from dv.core import Unsupported
from contracts.common import callees, ends, frequencies, gen_pdf, increases, inversion, step, totals

A = 'demod.simulators.activity_simulators'
MK = A + '.MarkovChain1rstOrder'
SM = A + '.SemiMarkovSimulator'
SP = 'demod.simulators.sparse_simulators'
CR = 'demod.simulators.crest_simulators'


def iterator(sim, name):
    it = getattr(sim, name, None)
    if it is None:
        raise Unsupported('the simulator does not keep its matrices in ' + name)
    return it


def markov(S):
    n, m, T = S.dim('n', 1, 4), S.dim('m', 1, 4), S.dim('T', 1, 3)
    tpm = S.arr('tpm', (T, m, m), lo=0, gen=gen_pdf)
    pdf = S.arr('pdf', (m,), lo=0, gen=gen_pdf)
    c, cp = totals(S, tpm, T, m, m), totals(S, pdf, m)
    callees(S, S.mod(A))
    return n, m, T, tpm, pdf, c, cp


def skip(S, sim, k, n, m):
    """k steps of any outcome"""
    if not S.symbolic:
        for _ in range(k):
            step(S, sim)
        return
    S.advance(iterator(sim, '_cdf_iterator'), k)
    if hasattr(sim, '_times_cdf_iterator'):
        S.advance(sim._times_cdf_iterator, k)
    sim.current_states = S.arr('states', (n,), 'i', lo=0, hi=m - 1)
    sim.current_time_step = k


@contract('C10', [MK + '.__init__'])
def markov_arguments(S):
    n, t, a, b, q = (S.dim(x, 1, 4) for x in ('n', 't', 'a', 'b', 'q'))
    tpm = S.arr('tpm', (t, a, b))
    e = S.raises(ValueError, lambda: S.cls(MK)(n, q, tpm))
    S.ensure('matrices of n_states x n_states only', S.Iff(e is not None, S.Or(a != b, a != q)))
    if e is None:
        S.ensure('number of states', S.result.n_states == q)
        S.ensure('labels are the numbers of the states by default', S.forall(q, lambda i: S.at(S.result.state_labels, i) == i))
    l = S.dim('number of labels', 1, 4)
    lab = S.arr('labels', (l,), 'i')
    e = S.raises(ValueError, lambda: S.cls(MK)(n, b, tpm, lab))
    S.ensure('one label per state', S.Iff(e is not None, S.Or(a != b, l != b)))
    if e is None:
        S.ensure('the labels', S.same(S.result.state_labels, lab))
    e = S.raises(TypeError, lambda: S.cls(MK)(n, 1, [[[1.0]]]))
    S.ensure('matrices must be an array', e is not None)


@contract('C10', [MK + '.initialize_starting_state', MK + '._set_tpm'])
def starting_states(S):
    n, m, T, tpm, pdf, c, cp = markov(S)
    sim = S.cls(MK)(n, m, tpm)
    sim.initialize_starting_state(pdf)
    inversion(S, sim.current_states, lambda i, j: S.at(cp, j), S.drawn(0, n), n, m)
    S.ensure('no step yet', sim.current_time_step == 0)


@contract('C10', [MK + '.initialize_starting_state', MK + '._set_tpm'])
def invalid_tables(S):
    n, m, T = S.dim('n', 1, 3), S.dim('m', 1, 3), S.dim('T', 1, 3)
    tpm = S.arr('tpm', (T, m, m), lo=0, gen=lambda r, s: gen_pdf(r, s) * r.choice([1, 1, 1, .5, 2], size=s[:2] + (1,)))
    pdf = S.arr('pdf', (m,), lo=0, gen=gen_pdf)
    c, cp = S.cum(tpm, 2), totals(S, pdf, m)
    ends(S, c, T, m, m)
    callees(S, S.mod(A))
    S.assume(S.forall((T, m), lambda t, i: S.Or(S.at(c, t, i, m - 1) == 1, lambda: S.at(c, t, i, m - 1) <= .9, lambda: S.at(
        c, t, i, m - 1) >= 1.1)))
    sim = S.cls(MK)(n, m, tpm)
    e = S.raises(ValueError, lambda: sim.initialize_starting_state(pdf))
    ones = S.forall((T, m), lambda t, i: S.at(c, t, i, m - 1) == 1)
    if e is None:
        S.ensure('rows that do not total one are rejected', ones)
    else:
        increases(S, c, tpm, T, m, m)
        S.assume(ones)
        S.ensure('tables with rows that total one are accepted', False)


@contract('C10', [MK + '.step', MK + '._set_tpm'])
def next_state(S):
    """after any number of steps, from any states"""
    n, m, T, tpm, pdf, c, cp = markov(S)
    k = S.dim('k', 0, 4)
    sim = S.cls(MK)(n, m, tpm)
    sim.initialize_starting_state(pdf)
    skip(S, sim, k, n, m)
    old = S.copy(sim.current_states)
    keep = S.copy(tpm)
    nd = S.n_draws()
    step(S, sim)
    # the tables start with the transition to the first time, hence k + 1
    inversion(S, sim.current_states, lambda i, j: S.at(c, (k + 1) % T, S.at(old, i), j), S.drawn(nd, n), n, m)
    S.ensure('the step is counted', sim.current_time_step == k + 1)
    S.ensure('the tables are unchanged', S.same(tpm, keep))


@contract('C10', [MK + '.initialize_starting_state', MK + '.step'])
def preliminary_steps(S):
    n, m, T, tpm, pdf, c, cp = markov(S)
    sim = S.cls(MK)(n, m, tpm)
    sim.initialize_starting_state(pdf, 1)
    S.ensure('one step was performed', sim.current_time_step == 1)
    u0, u1 = S.drawn(0, n), S.drawn(1, n)
    S.ensure('its result is reached from a state of the starting distribution', S.forall((n,), lambda i: S.exists((m,), lambda s: S.And(
        S.exact_lt(S.at(u0, i), S.at(cp, s)), S.Or(s == 0, lambda: S.exact_le(S.at(cp, s - 1), S.at(u0, i))),
        S.exact_lt(S.at(u1, i), S.at(c, 1 % T, s, S.at(sim.current_states, i))),
        S.Or(S.at(sim.current_states, i) == 0, lambda: S.exact_le(
            S.at(c, 1 % T, s, S.at(sim.current_states, i) - 1), S.at(u1, i)))))))


@contract('C10', [MK + '.get_n_doing_state', MK + '.get_n_doing_activity'])
def doing(S):
    n, m = S.dim('n', 1, 4), 3
    sim = S.cls(MK)(n, m, S.arr('tpm', (1, m, m)), ['a', 'b', 'c'])
    sim.current_states = S.arr('states', (n,), 'i', lo=0, hi=2)
    i = S.choice('activity', [0, 1, 2])
    S.ensure('households in the state', S.forall(n, lambda h: S.Iff(S.at(sim.get_n_doing_state(i), h), S.at(sim.current_states, h) == i)))
    S.ensure('by the name of the state', S.same(sim.get_n_doing_activity('abc'[i]), sim.get_n_doing_state(i)))


def relabel_spec(S, sim, old_states, old_labels, new_labels, n):
    for h in range(n):
        lab = old_labels[old_states[h]]
        at = [j for j in range(len(new_labels)) if new_labels[j] == lab]
        S.ensure('the label of every household is kept, unknown labels become the first state',
                 sim.current_states[h] == (at[0] if len(at) == 1 else 0))
    S.ensure('new labels', list(sim.state_labels) == list(new_labels))


@contract('C10', [MK + '._set_tpm', MK + '._assign_new_labels'], proof=False)
def new_labels(S):
    n, m, T, tpm, pdf, c, cp = markov(S)
    pool = list('pqrstu')
    S.rng.shuffle(pool)
    old = np.array(pool[:m])
    m2 = S.dim('m2', 1, 6)
    S.rng.shuffle(pool)
    new = np.array(pool[:m2])
    sim = S.cls(MK)(n, m, tpm, old)
    sim.initialize_starting_state(pdf)
    for _ in range(S.dim('k', 0, 3)):
        step(S, sim)
    before = np.array(sim.current_states)
    tpm2 = gen_pdf(S.nrng, (T, m2, m2))
    if S.symbolic:
        raise Unsupported('bounded only')
    sim._set_tpm(tpm2, new_labels=new)
    relabel_spec(S, sim, before, old, new, n)
    cur = np.array(sim.current_states)
    c2 = np.cumsum(tpm2, axis=-1)
    S.pool(c2)
    sim.n_states = m2
    for t in range(S.dim('steps', 1, 4)):
        nd = S.n_draws()
        step(S, sim)
        inversion(S, sim.current_states, lambda i, j: c2[(t + 1) % T, cur[i], j], S.drawn(nd, n), n, m2)
        cur = np.array(sim.current_states)


# ------------------------------------------------------------------ semi-Markov
def semi(S, four):
    n, m, T, tpm, pdf, c, cp = markov(S)
    D = S.dim('D', 1, 4)
    dur = S.arr('dur', (T, m, m, D) if four else (T, m, D), lo=0, gen=gen_pdf)
    dims = (T, m, m, D) if four else (T, m, D)
    cd = totals(S, dur, *dims)
    left = S.arr('left', (m, D), lo=0, gen=gen_pdf)
    cl = totals(S, left, m, D)
    sim = S.cls(SM)(n, m, tpm, dur)
    return n, m, T, D, tpm, pdf, dur, left, c, cp, cd, cl, sim


@contract('C10', [SM + '.initialize_starting_state', SM + '._set_duration_pdfs'])
def semi_start(S):
    n, m, T, D, tpm, pdf, dur, left, c, cp, cd, cl, sim = semi(S, S.flag('four'))
    sim.initialize_starting_state(pdf, left)
    inversion(S, sim.current_states, lambda i, j: S.at(cp, j), S.drawn(0, n), n, m)
    inversion(S, sim.times_left + 1, lambda i, j: S.at(cl, S.at(sim.current_states, i), j), S.drawn(1, n), n, D)


@contract('C10', [SM + '.step'], timeout=40)
def semi_step(S):
    """after any number of steps, from any states and durations"""
    four = S.flag('four')
    n, m, T, D, tpm, pdf, dur, left, c, cp, cd, cl, sim = semi(S, four)
    k = S.dim('k', 0, 4)
    sim.initialize_starting_state(pdf, left)
    skip(S, sim, k, n, m)
    if S.symbolic:
        sim.times_left = S.arr('times_left', (n,), 'i', lo=-1, hi=D)
    old, old_left = S.copy(sim.current_states), S.copy(sim.times_left)
    nd = S.n_draws()
    step(S, sim)
    t = (k + 1) % T
    new, now = sim.current_states, sim.times_left
    S.ensure('one state per household', S.And(S.shape_is(new, n), S.shape_is(now, n)))
    S.ensure('the state is kept until its duration has elapsed', S.forall(n, lambda i: S.Implies(
        S.at(old_left, i) >= 1, lambda: S.And(S.at(new, i) == S.at(old, i), S.at(now, i) == S.at(old_left, i) - 1))))
    S.ensure('a valid state', S.forall(n, lambda i: S.And(S.at(new, i) >= 0, S.at(new, i) < m)))
    S.ensure('a possible transition', S.forall(n, lambda i: S.Implies(S.at(old_left, i) < 1, lambda: step_up(
        S, lambda j: S.at(c, t, S.at(old, i), j), S.at(new, i)))))
    row = (lambda i, j: S.at(cd, t, S.at(old, i), S.at(new, i), j)) if four else (lambda i, j: S.at(cd, t, S.at(new, i), j))
    S.ensure('a valid duration', S.forall(n, lambda i: S.Implies(S.at(old_left, i) < 1, lambda: S.And(
        S.at(now, i) + 1 >= 0, S.at(now, i) + 1 < D))))
    S.ensure('a possible duration of the new state', S.forall(n, lambda i: S.Implies(S.at(old_left, i) < 1, lambda: step_up(
        S, lambda j: row(i, j), S.at(now, i) + 1))))
    S.ensure('the step is counted', sim.current_time_step == k + 1)
    # which random number a household uses: those that change, in order
    try:
        u, v = S.drawn(nd), S.drawn(nd + 1)
    except Exception:
        u = None
    if u is not None and not S.symbolic:
        u, v = np.ravel(u), np.ravel(v)
        mask = np.flatnonzero(np.asarray(old_left) < 1)
        if len(u) == len(v) == len(mask):
            for q, i in enumerate(mask):
                S.ensure('the state drawn', drawn_is(c[t, old[i]], u[q]) == new[i])
                S.ensure('the duration drawn', drawn_is([row(i, j) for j in range(D)], v[q]) == now[i] + 1)


def step_up(S, cum, s):
    """the cumulative probability increases at s: s has a positive probability"""
    return S.Or(S.And(s == 0, lambda: S.exact_lt(0, cum(s))), S.And(s > 0, lambda: S.exact_lt(cum(s - 1), cum(s))))


def drawn_is(cdf, u):
    return int(np.argmax(np.asarray(cdf) > u))


@contract('C10', [SM + '.step', SM + '.initialize_starting_state'], proof=False)
def semi_durations(S):
    """a state whose drawn duration is d lasts max(d, 1) steps"""
    n, m, T, D, tpm, pdf, dur, left, c, cp, cd, cl, sim = semi(S, S.flag('four'))
    sim.initialize_starting_state(pdf, left, S.dim('pre', 0, 2))
    due = None
    for t in range(S.dim('steps', 1, 10)):
        old, old_left = np.array(sim.current_states), np.array(sim.times_left)
        if due is None:
            due = np.maximum(old_left, 0)
        nd = S.n_draws()
        step(S, sim)
        changes = due == 0
        S.ensure('no change before the duration has elapsed', (np.array(sim.current_states)[~changes] == old[~changes]).all())
        v = np.ravel(S.drawn(nd + 1))
        if len(v) == changes.sum():
            tt = sim.current_time_step % T
            for q, i in enumerate(np.flatnonzero(changes)):
                row = cd[tt, old[i], sim.current_states[i]] if cd.ndim == 4 else cd[tt, sim.current_states[i]]
                due[i] = max(drawn_is(row, v[q]), 1)
        else:
            raise AssertionError('one duration per change')
        due -= 1


# ------------------------------------------------------------------ sparse
class AnyTPM:
    """the contract of a sparse transition matrix (C04)"""

    def __init__(self, S, T, m):
        self.S, self.shape, self.calls = S, (T, m, m), []

    def sparse_monte_carlo(self, t, states, *a, **k):
        S = self.S
        out = S.fresh('next%d' % len(self.calls), (states.shape[0],), 'i', lo=0, hi=self.shape[1] - 1)
        self.calls.append((t, S.copy(states), S.copy(out)))
        return out


@contract('C10', [SP + '.SparseStatesSimulator.step'])
def sparse_step(S):
    n, m = S.dim('n', 1, 4), S.dim('m', 1, 4)
    t = S.dim('t', 0, 400)
    tpm = AnyTPM(S, 144, m)
    states = S.arr('states', (n,), 'i', lo=0, hi=m - 1)
    aware = S.flag('aware')
    start = S.datetime('start')
    inc = S.timedelta('inc', S.dt.timedelta(0), S.dt.timedelta(minutes=30))
    days = []
    sim = S.new(SP + '.SparseStatesSimulator', tpm=tpm, current_states=S.copy(states), current_time_step=t, time_aware=aware,
                n_households=n, n_states=m, time=start, _cache={}, logger=None)
    S.stub(sim, 'update_new_day', lambda: days.append((sim.time, S.copy(sim.current_states), len(tpm.calls))))
    given = S.flag('given')
    step(S, sim, inc) if given else step(S, sim)
    dt_ = inc if given else S.dt.timedelta(minutes=10)
    S.ensure('one draw for all households', len(tpm.calls) == 1)
    S.ensure('from the matrix of the current time', tpm.calls[0][0] == t)
    S.ensure('from their current states', S.same(tpm.calls[0][1], states))
    S.ensure('the states drawn are the new states', S.same(sim.current_states, tpm.calls[0][2]))
    S.ensure('the step is counted', sim.current_time_step == t + 1)
    S.ensure('the clock advances when time aware', S.eq(sim.time, start + dt_ if aware else start))
    S.ensure('a new day after 144 steps of a time aware simulator, only then', S.Iff(
        len(days) == 1, S.And(aware, t % 144 == 0)))
    S.ensure('before the draw, once, at the new time', S.And(len(days) <= 1, *[
        S.And(c == 0, S.eq(tm, start + dt_)) for tm, _, c in days]))


@contract('C10', [SP + '.SparseStatesSimulator.__init__', SP + '.SparseStatesSimulator.initialize_starting_state',
                  SP + '.SparseStatesSimulator._getstart_time_step_from_datetime'])
def sparse_start_step(S):
    """the tables start at 4:00, with ten minutes a step"""
    d = S.datetime('start')
    sim = S.new(SP + '.SparseStatesSimulator')
    got = sim._getstart_time_step_from_datetime(d)
    us = 600 * 10**6
    S.ensure('steps since 4:00', S.eq(got, (S.tod(d) + 20 * 6 * us) % (144 * us) // us))


def gen_sparse(S, m, T, dead):
    dense = gen_pdf(S.nrng, (T, m, m))
    if dead and m > 1:
        for _ in range(S.nrng.randint(4)):
            dense[S.nrng.randint(T), S.nrng.randint(1, m)] = 0
    t, i, j = np.nonzero(dense)
    return dense, S.mod('demod.utils.sparse').SparseTPM(t, i, j, dense[t, i, j], n_states=m, n_times=T)


def sparse_next(dense, t, states, u):
    out = []
    for s, x in zip(states, u):
        row = dense[t % len(dense), s]
        if not row.any():      # no transition from this state: as from the first one
            row = dense[t % len(dense), 0]
        out.append(int(np.argmax(np.cumsum(row) > x)))
    return out


@contract('C10', [SP + '.SparseTransitStatesSimulator.__init__', SP + '.SparseTransitStatesSimulator.update_new_day',
                  SP + '.SparseStatesSimulator.step', SP + '.SparseStatesSimulator.__init__'], proof=False, runs=300,
          quick_runs=60)
def sparse_histories(S):
    """the transit simulator over several days, with tables of its own for every kind of day"""
    n = S.dim('n', 1, 4)
    T = 144
    tables = {}
    kinds = []
    aware = S.flag('aware')
    quarters, seven = S.flag('quarters'), S.flag('seven')
    weekends = S.flag('weekends') and not seven

    class Data:
        def load_sparse_tpm(self, subgroup):
            d, q = subgroup.get('weekday', None), subgroup.get('quarter', None)
            key = (tuple(d) if isinstance(d, list) else d, q)
            if key not in tables:
                m = S.nrng.randint(1, 5)
                lab = S.nrng.permutation(6)[:m] + 7 * S.nrng.randint(2)
                dense, tpm = gen_sparse(S, m, T, aware)
                tables[key] = (dense, tpm, lab, gen_pdf(S.nrng, (m,)))
            kinds.append(key)
            dense, tpm, lab, pdf = tables[key]
            return tpm, lab, np.array(['active', 'HWH', 'HOH']), pdf

    start = S.datetime('start').replace(second=0, microsecond=0)
    start = start.replace(hour=4 + start.hour % 2, minute=10 * (start.minute // 10))
    if not aware:
        sim = S.cls(SP + '.SparseTransitStatesSimulator')(n, {'n_residents': 2}, data=Data())
        dense, tpm, lab, pdf = tables[None, None]
        S.ensure('starts at the first step', sim.current_time_step == 0)
        S.pool(np.cumsum(dense[0], -1))
        for t in range(S.dim('steps', 1, 160)):
            old = np.array(sim.current_states)
            nd = S.n_draws()
            step(S, sim)
            want = sparse_next(dense, t, old, np.ravel(S.drawn(nd)))
            for h in range(n):
                S.ensure('next state', sim.current_states[h] == want[h])
        return
    sim = S.cls(SP + '.SparseTransitStatesSimulator')(
        n, {'n_residents': 2}, data=Data(), start_datetime=start, use_quarters=quarters, use_7days=seven, use_week_ends_days=weekends)
    S.ensure('the clock starts at the start', sim.time == start)
    since = (start.hour - 4) * 6 + start.minute // 10
    S.ensure('the steps since 4:00 were performed', sim.current_time_step == since)

    def kind(t):
        if seven:
            d = t.isoweekday()
        elif weekends:
            d = (1, 2, 3, 4, 5) if t.isoweekday() <= 5 else (6, 7)
        else:
            d = 0
        return d, (t.month - 1) // 3 if quarters else None
    S.ensure('the tables of the day', kinds[-1] == kind(start))
    now = start
    for k in range(S.dim('steps', 1, 300)):
        old, lab = np.array(sim.current_states), sim.state_labels[sim.current_states]
        nd = S.n_draws()
        t = sim.current_time_step
        step(S, sim)
        now += S.dt.timedelta(minutes=10)
        S.ensure('clock', sim.time == now)
        if t % 144 == 0:
            S.ensure('the tables of the new day', kinds[-1] == kind(now))
            labels = list(tables[kinds[-1]][2])
            old = np.array([labels.index(x) if x in labels else 0 for x in lab])
        dense = tables[kinds[-1]][0]
        want = sparse_next(dense, t, old, np.ravel(S.drawn(nd)))
        for h in range(n):
            S.ensure('next state', sim.current_states[h] == want[h])
        S.ensure('labels of the tables in use', list(sim.state_labels) == list(tables[kinds[-1]][2]))


# ------------------------------------------------------------------ individuals
class Diaries:
    """tables of persons, one per subgroup"""

    def __init__(self, S, T, semi_):
        self.S, self.T, self.semi, self.tables = S, T, semi_, {}
        self.refresh_time = S.dt.time(4, 0)

    def key(self, sub):
        return tuple(sorted((k, str(v)) for k, v in sub.items()))

    def get(self, sub):
        k = self.key(sub)
        if k not in self.tables:
            m = 4
            r = self.S.nrng
            lab = np.array(['away', 'sleeping', 'cook', 'tv'])[r.permutation(4)]
            self.tables[k] = (gen_pdf(r, (self.T, m, m)), gen_pdf(r, (self.T, m, 5)), lab, gen_pdf(r, (m,)), gen_pdf(r, (m, 5)))
        return self.tables[k]

    def load_tpm(self, sub):
        a, b, lab, p, q = self.get(sub)
        return a, lab, p

    def load_tpm_with_duration(self, sub):
        a, b, lab, p, q = self.get(sub)
        return a, b, lab, p, q


@contract('C10', [A + '.SubgroupsIndividualsActivitySimulator.__init__', A + '.SubgroupsIndividualsActivitySimulator.step',
                  A + '.SubgroupsIndividualsActivitySimulator._parse_subgroups_input',
                  A + '.SubgroupsIndividualsActivitySimulator.get_n_doing_activity',
                  A + '.SubgroupsIndividualsActivitySimulator.on_before_refresh_time'], proof=False, runs=300, quick_runs=60)
def individuals(S):
    mod = S.mod(A)
    semi_ = S.flag('semi')
    data = Diaries(S, 144, semi_)
    groups, nh = [], []
    kinds = [dict(n_residents=1, household_type=1), dict(n_residents=2, household_type=2), dict(n_residents=3, household_type=3),
             dict(n_residents=3, household_type=4), dict(n_residents=5, household_type=4)]
    for q in range(S.dim('groups', 1, 3)):
        groups.append(dict(S.choice('group%d' % q, kinds)))
        nh.append(S.dim('nh%d' % q, 1, 3))
    start = S.datetime('start').replace(second=0, microsecond=0)
    start = start.replace(hour=S.rng.choice([3, 4, 5]), minute=10 * (start.minute // 10))
    kw = S.choice('days', [{}, dict(use_week_ends_days=True), dict(use_7days=True), dict(use_quarters=True)])
    sim = mod.SubgroupsIndividualsActivitySimulator(
        groups, nh, subsimulator=mod.SemiMarkovSimulator if semi_ else mod.MarkovChain1rstOrder, data=data,
        start_datetime=start, **kw)
    N = sum(nh)
    residents = np.repeat([g['n_residents'] for g in groups], nh)
    S.ensure('households', sim.n_households == N)
    S.ensure('residents of each household', S.same(sim.n_residents, residents))
    S.ensure('one simulated person per resident', np.array_equal(
        np.bincount(sim.hh_of_persons, minlength=N), residents))
    S.ensure('persons of all the sub-simulators', sum(s.n_households for s in sim.simulators) == len(sim.hh_of_persons))
    # every person belongs to a household of its kind of person
    from_hh = S.mod('demod.utils.subgroup_handling').subgroup_households_to_persons([dict(g) for g in groups])
    of_hh = [p for ps, k in zip(from_hh, nh) for p in [ps] * k]
    plain = lambda p: repr(sorted((k, v) for k, v in dict(p).items() if k not in ('weekday', 'quarter')))
    want = {}
    for h, ps in enumerate(of_hh):
        for p in ps:
            want.setdefault(plain(p), []).append(h)
    off = 0
    for s, p in zip(sim.simulators, sim.subgroups_persons):
        S.ensure('persons are simulated by the simulator of their subgroup', sorted(
            sim.hh_of_persons[off:off + s.n_households]) == sorted(want.get(plain(p), [])))
        off += s.n_households
    steps = S.dim('steps', 1, 30)
    for t in range(steps):
        step(S, sim)
        S.ensure('clock', sim.current_time == start + S.dt.timedelta(minutes=10) * (t + 1))
        persons = {}
        off = 0
        for s in sim.simulators:
            for q in range(s.n_households):
                hh = sim.hh_of_persons[off + q]
                persons.setdefault(hh, []).append(str(s.state_labels[s.current_states[q]]))
            off += s.n_households
        for act in ('away', 'sleeping', 'cook', 'tv'):
            got = sim.get_n_doing_activity(act)
            S.ensure('number of persons of each household doing the activity', np.array_equal(
                got, [persons.get(h, []).count(act) for h in range(N)]))
        st = sim.get_activity_states()
        S.ensure('all activities, all persons', np.array_equal(sum(st[a] for a in ('away', 'sleeping', 'cook', 'tv')), residents))
        S.ensure('occupants', np.array_equal(sim.get_occupancy(), residents - st['away']))
        S.ensure('active occupants', np.array_equal(st['active_occupancy'], residents - st['away'] - st['sleeping']))


class Certain:
    """tables of persons or households without chance: a permutation of the states at every time of the day, of every subgroup"""
    names = ['away', 'sleeping', 'cook', 'tv']

    def __init__(self, S, refresh, labels=None):
        self.S, self.refresh_time, self.tables, self.labels = S, refresh, {}, labels
        self.asked = []

    def key(self, sub):
        return repr(sorted((k, str(v)) for k, v in dict(sub).items()))

    def get(self, sub):
        k = self.key(sub)
        self.asked.append(dict(sub))
        if k not in self.tables:
            r = self.S.nrng
            lab = np.array(self.names)[r.permutation(4)] if self.labels is None else self.labels(sub)
            m = len(lab)
            p = np.array([r.permutation(m) for _ in range(144)])
            start = np.zeros(m)
            start[r.randint(m)] = 1
            self.tables[k] = (p, np.eye(m)[p], lab, start)
        return self.tables[k]

    def load_tpm(self, sub):
        p, tpm, lab, start = self.get(sub)
        return tpm, lab, start

    def load_tpm_with_duration(self, sub):
        p, tpm, lab, start = self.get(sub)
        m = len(lab)
        one = np.zeros((144, m, 3))
        one[:, :, 1] = 1
        return tpm, one, lab, start, np.eye(3)[np.zeros(m, int)]

    def after(self, sub, slot, label):
        """the label after the step that starts at the slot; tables start with the transition to the first time"""
        p, _, lab, _ = self.tables[self.key(sub)]
        return lab[p[(slot + 1) % 144][list(lab).index(label)]]


@contract('C10', [A + '.SubgroupsIndividualsActivitySimulator.step', A + '.SubgroupsIndividualsActivitySimulator.initialize_starting_state',
                  A + '.SubgroupsIndividualsActivitySimulator._update_subgroups_with_time'], proof=False, runs=200, quick_runs=50)
def tables_of_the_day(S):
    """persons follow the tables of their subgroup and day, at the time of the day"""
    mod = S.mod(A)
    add_time = S.mod('demod.utils.subgroup_handling').add_time
    data = Certain(S, S.dt.time(4, 0))
    groups = [dict(n_residents=1, household_type=1), dict(n_residents=2, household_type=2)][:S.dim('groups', 1, 2)]
    start = S.datetime('start').replace(minute=10 * S.dim('slot', 0, 5), second=0, microsecond=0)
    kw = S.choice('days', [{}, dict(use_week_ends_days=True), dict(use_7days=True), dict(use_quarters=True), dict(use_week_sat_sun=True)])
    sim = mod.SubgroupsIndividualsActivitySimulator(
        groups, [1] * len(groups), subsimulator=[mod.MarkovChain1rstOrder, mod.SemiMarkovSimulator][S.choice('semi', [0, 1])],
        data=data, start_datetime=start, **kw)
    since = ((start.hour - 4) * 6 + start.minute // 10) % 144
    now = start - S.dt.timedelta(minutes=10) * since
    S.ensure('the steps since the start of the day were performed', sim.current_time_step == since)
    persons = [dict((k, v) for k, v in p.items() if k not in ('weekday', 'quarter')) for p in sim.subgroups_persons]
    untimed = [data.tables[data.key(p)] for p in persons]
    state = [u[2][np.argmax(u[3])] for u in untimed]        # the start of the table without time attributes
    slot = 0

    def forward():
        nonlocal now, slot
        for q, p in enumerate(persons):
            sub = p if not kw else add_time(dict(p), now - S.dt.timedelta(minutes=10) * slot, **{
                x: kw.get(x, False) for x in ('use_week_ends_days', 'use_week_sat_sun', 'use_7days', 'use_quarters')})
            S.ensure('the tables of the day were loaded', data.key(sub) in data.tables)
            state[q] = data.after(sub, slot, state[q])
        now += S.dt.timedelta(minutes=10)
        slot = (slot + 1) % 144
    for _ in range(since):
        forward()
    for _ in range(S.choice('steps', [1, 5, 150, 300])):
        step(S, sim)
        forward()
        S.ensure('the clock', sim.current_time == now)
        for q, s in enumerate(sim.simulators):
            S.ensure('the next activity is the one of the tables of the day at the time of the day', all(
                str(s.state_labels[x]) == state[q] for x in s.current_states))


@contract('C10', [CR + '.Crest4StatesModel.step', CR + '.CrestOccupancySimulator.__init__', CR + '.Crest4StatesModel.__init__'],
          proof=False, runs=150, quick_runs=40)
def crest_tables_of_the_day(S):
    """households follow the tables of their number of residents and type of day, at the time of the day"""
    r = S.nrng
    data = Certain(S, S.dt.time(0), labels=lambda sub: np.array([
        10 * a + b for a in range(sub['n_residents'] + 1) for b in range(sub['n_residents'] + 1)])[r.permutation((sub['n_residents'] + 1)**2)])
    share = np.zeros(3)
    share[:S.dim('groups', 1, 3)] = 1
    share /= share.sum()
    data.load_population_subgroups = lambda kind: ([{'n_residents': q} for q in (1, 2, 3)], share, 1)
    start = S.datetime('start').replace(minute=10 * S.dim('slot', 0, 5), second=0, microsecond=0)
    sim = S.cls(CR + '.Crest4StatesModel')(S.dim('n', 1, 4), data, start)
    since = start.hour * 6 + start.minute // 10
    S.ensure('the steps since the start of the day were performed', sim.current_time_step == since)
    now, slot = start - S.dt.timedelta(minutes=10) * since, 0

    def sub(s):
        return {'n_residents': s.n_residents, 'weekday': [1, 2, 3, 4, 5] if now.isoweekday() <= 5 else [6, 7]}
    state = []
    for s in sim.simulators:
        S.ensure('the tables of the day were loaded', data.key(sub(s)) in data.tables)
        _, _, lab, first = data.tables[data.key(sub(s))]
        state.append(lab[np.argmax(first)])

    def forward():
        nonlocal now, slot
        for q, s in enumerate(sim.simulators):
            S.ensure('the tables of the day were loaded', data.key(sub(s)) in data.tables)
            state[q] = data.after(sub(s), slot, state[q])
        now += S.dt.timedelta(minutes=10)
        slot = (slot + 1) % 144
    for _ in range(since):
        forward()
    for _ in range(S.choice('steps', [1, 150, 300, 1000])):
        step(S, sim)
        forward()
        S.ensure('the clock', sim.current_time == now)
        for q, s in enumerate(sim.simulators):
            S.ensure('the next state is the one of the tables of the day at the time of the day', all(
                s.state_labels[x] == state[q] for x in s.current_states))


# ------------------------------------------------------------------ whatever the source of the random numbers
@contract('C10', [MK + '.step', MK + '.initialize_starting_state', SM + '.step', SM + '.initialize_starting_state'],
          proof=False, quick_runs=12, runs=150)
def frequency(S):
    """households are drawn independently, with the probabilities of their own state"""
    n, m, T, k = S.dim('n', 2, 3), S.dim('m', 2, 3), S.dim('T', 1, 3), S.dim('k', 0, 2)
    dirichlet = lambda r, s: r.dirichlet(np.ones(s[-1]) * 2, s[:-1])
    tpm = S.arr('tpm', (T, m, m), lo=0, gen=dirichlet)
    pdf = S.arr('pdf', (m,), lo=0, gen=dirichlet)
    cls, more = MK, ()
    semi_ = S.flag('semi')
    if semi_:                                   # durations of one step
        cls, more = SM, (np.stack([np.zeros((T, m)), np.ones((T, m))], -1),)
    sim = S.cls(cls)(n, m, tpm, *more)
    first = (pdf, np.stack([np.ones(m), np.zeros(m)], -1)) if semi_ else (pdf,)
    S.natural(S.dim('seed', 0, 10**6))

    def begin():
        sim.initialize_starting_state(*first)
        return np.array(sim.current_states)
    frequencies(S, begin, [pdf] * n, runs=500)
    p = pdf
    for t in range(1, k + 1):
        p = p @ tpm[t % T]

    def two_steps():
        begin()
        for _ in range(k):
            sim.step()
        before = np.array(sim.current_states)
        sim.step()
        return before * m + sim.current_states
    frequencies(S, two_steps, [(p[:, None] * tpm[(k + 1) % T]).ravel()] * n, runs=1200)
