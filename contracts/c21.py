"""C21  Statistics of observed state sequences."""
import numpy as np

from dv.harness import contract

M = 'demod.utils.parse_helpers'


def f(S, name):
    return getattr(S.mod(M), name)


def diaries(S, states=3, lo=1, people=4, times=5, all_states=False):
    """observed states: int array of diaries x times"""
    n, m = S.dim('diaries', lo, people), S.dim('times', 1, times)
    k = S.dim('states', 1, states)
    x = S.arr('observed', (n, m), 'i', lo=0, hi=k - 1,
              gen=lambda r, s: r.randint(0, k, s) if r.random_sample() < .5 else np.repeat(
                  r.randint(0, k, (n, m)), 2, axis=1)[:, r.randint(0, 2):][:, :m])
    if all_states:
        x = np.unique(x, return_inverse=True)[1].reshape(x.shape)
        k = x.max() + 1
    return x, n, m, k


@contract('C21', M + '.counts_to_pdf')
def relative_frequencies(S):
    n, m = S.dim('n', 1, 4), S.dim('m', 1, 4)
    c = S.arr('counts', (n, m), 'f', lo=0, gen=lambda r, s: np.floor(r.random_sample(s) * 3))
    c0 = S.copy(c)
    t = c0.sum(axis=-1)
    valid = S.flag('ensure valid pdf')
    if not valid:
        S.assume(S.forall(n, lambda i: S.at(t, i) > 0))
    p = f(S, 'counts_to_pdf')(c) if valid else f(S, 'counts_to_pdf')(c, ensure_valid_pdf=False)
    S.ensure('one value per count', S.shape_is(p, n, m))
    S.ensure('the share of every count', S.forall((n, m), lambda i, j: S.Implies(
        S.at(t, i) > 0, lambda: S.eq(S.at(p, i, j), S.at(c0, i, j) / S.at(t, i)))))
    def empty(i):
        if S.branch(S.at(t, i) == 0):
            S.parts(c0, i)
            S.lemma('nothing was counted', S.forall(m, lambda j: S.at(c0, i, j) == 0))
            S.single(c, 0, i)
            S.ensure('certainly the first one where nothing was counted', S.forall(m, lambda j: S.eq(S.at(p, i, j), S.ite(j == 0, 1, 0))))
    S.for_all(n, empty)


@contract('C21', M + '.counts_to_pdf', proof=False)
def relative_frequencies_nd(S):
    shp = tuple(S.dim('d%d' % i, 1, 3) for i in range(S.dim('dims', 1, 3))) + (S.dim('m', 1, 4),)
    c = S.arr('counts', shp, S.choice('kind', 'if'), lo=0, gen=lambda r, s: np.floor(r.random_sample(s) * 3))
    c0 = c.copy()
    p = f(S, 'counts_to_pdf')(c)
    for i in np.ndindex(*shp[:-1]):
        t = c0[i].sum()
        S.ensure('the share of every count', np.allclose(p[i], c0[i] / t if t else np.eye(shp[-1])[0]))


@contract('C21', M + '.first_tpm_change')
def first_matrix(S):
    t, n = S.dim('times', 1, 4), S.dim('states', 1, 3)
    x = S.arr('matrices', (t, n, n))
    x0 = S.copy(x)
    algo = S.choice('algorithm', ['last', 'nothing', 'other'])
    if algo == 'other':
        S.ensure('an unknown algorithm is rejected', S.raises(TypeError, lambda: f(S, 'first_tpm_change')(x, algo=algo)) is not None)
        return
    y = f(S, 'first_tpm_change')(x, algo=algo)
    S.ensure('the first matrix', S.forall((n, n), lambda i, j: S.eq(S.at(y, 0, i, j), S.at(x0, t - 1 if algo == 'last' else 0, i, j))))
    S.ensure('the others are kept', S.forall((t, n, n), lambda k, i, j: S.Implies(k > 0, lambda: S.eq(S.at(y, k, i, j), S.at(x0, k, i, j)))))


def runs(row, t, cyclic):
    """duration of the state that begins at t, and whether it ends inside the diary"""
    n = len(row)
    for d in range(1, n + 1):
        if t + d == n and not cyclic:
            return None
        if row[(t + d) % n] != row[t]:
            return d
    return n


@contract('C21', M + '.states_to_transitions', proof=False, quick_runs=400, runs=10000)
def transitions(S):
    """all changes of state, at their time and of their person"""
    x, n, m, k = diaries(S)
    ignore, same, durations = S.flag('ignore end start'), S.flag('same state'), S.flag('durations')
    durations = durations and not same
    if S.flag('names'):
        x = np.array(['sleep', 'away', 'cook'])[x] if not same else x
    x0 = x.copy()
    d = f(S, 'states_to_transitions')(x, return_duration=durations, include_same_state=same, ignore_end_start_transitions=ignore)
    got = list(zip(d['times'], d['persons'], d['old_states'], d['new_states']))
    want = []
    for t in range(m):
        for i in range(n):
            old = x[i, t - 1] if t or not ignore else x[i, 0]
            if same or old != x[i, t]:
                want.append((t, i, old, x[i, t]))
    S.ensure('exactly the changes, in order of time and person', got == want)
    if durations:
        S.ensure('one duration per change', len(d['durations']) == len(want))
        for (t, i, old, new), got in zip(want, d['durations']):
            wrap = not ignore or x[i, -1] == x[i, 0]
            r = runs(x[i], t, True) if wrap else runs(x[i], t, False)
            last = all(x[i, s] == x[i, t] for s in range(t, m))
            if last and not wrap:
                S.ensure('a last state that does not continue at the start is not counted', got == 0)
            elif last and x[i, 0] != x[i, -1]:
                S.ensure('until the end', got == m - t)
            else:
                S.ensure('duration until the next change', got == r)
    S.ensure('the states are unchanged', np.array_equal(x, x0))


@contract('C21', M + '.states_to_transitions_secondary', proof=False, quick_runs=400, runs=10000)
def secondary_transitions(S):
    """changes of a main or a secondary activity: the old one is neither main nor secondary any more"""
    x, n, m, k = diaries(S, 4)
    y = S.arr('secondary', (n, m), 'i', lo=0, hi=3)
    if S.rng.random() < .3:
        y = np.where(S.nrng.random_sample((n, m)) < S.choice('repeated', [.5, 1.1]), x, y)
    d = f(S, 'states_to_transitions_secondary')(x, y)
    got = sorted(zip(d['times'], d['persons'], d['old_states'], d['new_states']))
    want = []
    for t in range(1, m):
        for i in range(n):
            for old, new in ((x[i, t - 1], x[i, t]), (y[i, t - 1], y[i, t])):
                if old != x[i, t] and old != y[i, t]:
                    want.append((t, i, old, new))
    S.ensure('exactly the changes, of their person', got == sorted(want))


@contract('C21', M + '.group_hh_transitions', proof=False, quick_runs=400, runs=10000)
def household_transitions(S):
    x, n, m, k = diaries(S)
    # identifiers of any size: numbers, dates or codes
    hh = S.choice('kind of households', [1, 1, 7, 1000003]) * S.arr('households', (n,), 'i', lo=1, hi=12, gen=lambda r, s: r.randint(1, r.choice([3, 13]), s))
    day = S.choice('kind of days', [1, 1, 10, 10000019]) * S.arr('days', (n,), 'i', lo=1, hi=31, gen=lambda r, s: r.randint(1, r.choice([3, 32]), s))
    y = S.arr('secondary', (n, m), 'i', lo=0, hi=2) if S.flag('with secondary') else None
    if y is not None and S.rng.random() < .3:       # where there is no secondary activity, the diary often repeats the main one
        y = np.where(S.nrng.random_sample((n, m)) < S.choice('repeated', [.5, 1.1]), x, y)
    d = f(S, 'group_hh_transitions')(x, hh, day, y) if y is not None else f(S, 'group_hh_transitions')(x, hh, day)
    got = {z[:-1]: z[-1] for z in zip(d['times'], d['households'], d['old_states'], d['new_states'], d['day_nrs'], d['counts'])}
    want = {}
    for t in range(1 if y is not None else 0, m):
        for i in range(n):
            for old, new in ((x[i, t - 1], x[i, t]),) + (((y[i, t - 1], y[i, t]),) if y is not None else ()):
                if old != x[i, t] and (y is None or old != y[i, t]):
                    key = t, hh[i], old, new, day[i]
                    want[key] = want.get(key, 0) + 1
    S.ensure('the number of persons of every change of a household and day', got == want)
    S.ensure('each listed once', len(d['counts']) == len(got))


@contract('C21', M + '.states_to_tpms', proof=False, quick_runs=400, runs=10000)
def transition_tables(S):
    x, n, m, k = diaries(S)
    labels = np.arange(k + S.dim('unseen', 0, 2)) if S.flag('labels') else None
    s = len(labels) if labels is not None else x.max() + 1
    algo = S.choice('algorithm', ['last', 'nothing'])
    x0 = x.copy()
    p = f(S, 'states_to_tpms')(x, algo, labels)
    S.ensure('a table per time', p.shape == (m, s, s))
    for t in range(m):
        u = m - 1 if t == 0 and algo == 'last' else t
        for a in range(s):
            at_a = x[:, u - 1] == a
            want = [np.mean(x[at_a, u] == b) for b in range(s)] if at_a.any() else np.eye(s)[a]
            S.ensure('the relative frequencies of the next states', np.allclose(p[t, a], want))
    S.ensure('the states are unchanged', np.array_equal(x, x0))


@contract('C21', M + '.states_to_tpms_with_durations', proof=False, quick_runs=400, runs=10000)
def duration_tables(S):
    x, n, m, k = diaries(S, all_states=True)
    labels = np.arange(k + S.dim('unseen', 0, 2)) if S.flag('labels') else None
    s = len(labels) if labels is not None else k
    algo = S.choice('algorithm', ['last', 'nothing'])
    ignore = S.flag('ignore end start')
    p, du, dp = f(S, 'states_to_tpms_with_durations')(x, algo, labels, ignore)
    S.ensure('shapes', p.shape == (m, s, s) and du.shape == (m, s, m + 1) and dp.shape == (m, s, s, m + 1))
    tp, td, tdp = np.zeros((m, s, s)), np.zeros((m, s, m + 1)), np.zeros((m, s, s, m + 1))
    tr = f(S, 'states_to_transitions')(x, return_duration=True, ignore_end_start_transitions=ignore)
    for t, a, b, d in zip(tr['times'], tr['old_states'], tr['new_states'], tr['durations']):
        tp[t, a, b] += 1
        td[t, b, d] += 1
        tdp[t, a, b, d] += 1
    if algo == 'last':
        tp[0], td[0], tdp[0] = tp[-1], td[-1], tdp[-1]
    for a in range(s):
        tp[0, a, a] = td[0, a, m] = tdp[0, a, a, m] = (x == a).all(axis=1).sum()
    for t in range(m):
        for a in range(s):
            c = tp[t, a]
            S.ensure('the relative frequencies of the changes', np.allclose(p[t, a], c / c.sum() if c.sum() else np.eye(s)[a]))
            c = td[t, a]
            S.ensure('the relative frequencies of the durations', np.allclose(du[t, a], c / c.sum() if c.sum() else np.eye(m + 1)[0]))
            for b in range(s):
                c = tdp[t, a, b]
                S.ensure('and of those after every change', np.allclose(dp[t, a, b], c / c.sum() if c.sum() else np.eye(m + 1)[0]))


@contract('C21', M + '.get_initial_durations_pdfs', proof=False, quick_runs=400, runs=10000)
def initial_durations(S):
    x, n, m, k = diaries(S, all_states=True)
    p = f(S, 'get_initial_durations_pdfs')(x)
    S.ensure('a distribution per state', p.shape == (k, m + 1))
    first = np.array([next((t for t in range(m) if r[t] != r[0]), m) for r in x])
    for a in range(k):
        own = first[x[:, 0] == a]
        want = [np.mean(own == d) for d in range(m + 1)] if len(own) else np.eye(m + 1)[0]
        S.ensure('the relative frequencies of the first durations', np.allclose(p[a], want))


@contract('C21', M + '.convert_states', proof=False, quick_runs=300, runs=5000)
def conversion(S):
    n, m = S.dim('n', 1, 3), S.dim('m', 1, 4)
    codes = np.array([110, 20, 3, 410])
    raw = codes[S.arr('raw', (n, m), 'i', lo=0, hi=3)]
    merge = {c: S.choice('label %d' % c, S.choice('names', [['sleeping', 'cooking', 'away'], ['watching TV', 'washing', 'washing and dressing', 'washing the dishes', '']])) for c in codes} if S.flag('merge') else None
    raw0 = raw.copy()
    states, labels = f(S, 'convert_states')(raw, merge)
    S.ensure('every state keeps its label', states.shape == raw.shape and all(
        labels[states[i]] == (merge[raw[i]] if merge else raw[i]) for i in np.ndindex(n, m)))
    S.ensure('labels are distinct and sorted', list(labels) == sorted(set(labels)))
    S.ensure('every label occurs', set(states.ravel()) == set(range(len(labels))))
    S.ensure('the states are unchanged', np.array_equal(raw, raw0))


@contract('C21', M + '.bulbs_stats_from_config', proof=False)
def bulbs(S):
    n, m = S.dim('n', 1, 4), S.dim('m', 1, 5)
    c = S.arr('config', (n, m), 'f', gen=lambda r, s: r.choice([0., 5., 40., 60., np.nan], s))
    if not (c > 0).any():
        c[0, 0] = 40.
    (mean, std), (watt, share) = f(S, 'bulbs_stats_from_config')(c)
    k = np.array([(row > 0).sum() for row in c])
    S.ensure('mean and deviation of the numbers of bulbs', np.isclose(mean, k.mean()) and np.isclose(std, k.std()))
    all_ = [v for v in c.ravel() if v > 0]
    S.ensure('every consumption once', list(watt) == sorted(set(all_)))
    S.ensure('its share of the bulbs', np.allclose(share, [all_.count(w) / len(all_) for w in watt]) and np.isclose(share.sum(), 1))


@contract('C21', M + '.translate_1d')
def translation(S):
    n = S.dim('n', 0, 4)
    x = S.arr('x', (n,), 'i', lo=0, hi=2)
    vals = [S.int('v%d' % i, -5, 5) for i in range(3)]
    table = S.np.array(vals)
    y = f(S, 'translate_1d')(x, table)
    S.ensure('one per element', S.len(y) == n)
    S.for_all(n, lambda i: S.ensure('the translation of every element', S.eq(S.item(y, i), S.at(table, S.at(x, i)))))
