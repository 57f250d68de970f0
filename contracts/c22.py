"""C22  Metrics of simulation results."""
import datetime

import numpy as np

from dv.harness import contract

L, ST, E = 'demod.metrics.loads', 'demod.metrics.states', 'demod.metrics.errors'


def f(S, mod, name):
    return getattr(S.mod(mod), name)


def load(S, name='load', lo=0, kinds='f'):
    n, m = S.dim('profiles', 1, 4), S.dim('times', 1, 5)
    x = S.arr(name, (n, m), 'f', lo=lo, gen=lambda r, s: np.where(r.random_sample(s) < .3, 0., r.randint(0, 4, s) * 10.))
    return x, n, m


@contract('C22', L + '.total_energy_consumed')
def energy(S):
    x, n, m = load(S)
    x0 = S.copy(x)
    if S.flag('default step'):
        e, sec = f(S, L, 'total_energy_consumed')(x), 60
    else:
        sec = S.int('seconds', 1, 86400)
        e = f(S, L, 'total_energy_consumed')(x, step_size=S.dt.timedelta(seconds=sec))
    t = S.sum(x0, 1)
    S.ensure('one energy per profile', S.shape_is(e, n))
    S.ensure('power times duration of the step, summed', S.forall(n, lambda i: S.eq(S.at(e, i), S.at(t, i) * sec)))
    S.ensure('the load is unchanged', S.same(x, x0))


@contract('C22', [L + '.diversity_factor', L + '.coincidence_factor', L + '.simultaneity_factor'])
def diversity(S):
    x, n, m = load(S)
    total = S.sum(x, 0)
    S.assume(S.exists(m, lambda t: S.at(total, t) > 0))
    peaks = S.np.max(x, axis=1)
    peak = S.np.max(total)
    d = f(S, L, 'diversity_factor')(x)
    S.ensure('sum of the peaks over the peak of the sum', S.eq(d * peak, S.sum(peaks)))
    S.ensure('never below one', S.le(1, d))
    S.ensure('coincidence is the inverse', S.eq(f(S, L, 'coincidence_factor')(x) * d, 1))
    S.ensure('simultaneity is coincidence', S.eq(f(S, L, 'simultaneity_factor')(x), f(S, L, 'coincidence_factor')(x)))


@contract('C22', L + '.time_coincident_demand')
def coincident(S):
    x, n, m = load(S)
    d = f(S, L, 'time_coincident_demand')(x)
    total = S.sum(x, 0)
    S.ensure('never below the mean demand of any time', S.forall(m, lambda t: S.le(S.at(total, t), d * n)))
    S.ensure('the mean demand of some time', S.exists(m, lambda t: S.eq(S.at(total, t), d * n)))


@contract('C22', L + '.load_duration')
def durations_of_loads(S):
    x, n, m = load(S)
    k = S.dim('loads', 1, 3)
    loads = S.arr('thresholds', (k,), gen=lambda r, s: r.choice([0., 5., 10., 20., 30.], s))
    l, d = f(S, L, 'load_duration')(x, loads)
    S.ensure('in order', S.forall((k, k), lambda a, b: S.Implies(a < b, lambda: S.at(l, a) <= S.at(l, b))))
    S.ensure('the given loads', S.And(S.shape_is(l, k), S.forall(k, lambda a: S.exists(k, lambda b: S.eq(S.at(l, b), S.at(loads, a)))),
                                      S.forall(k, lambda a: S.exists(k, lambda b: S.eq(S.at(l, a), S.at(loads, b))))))
    S.ensure('one duration per profile and load', S.shape_is(d, n, k))
    S.for_all((n, k), lambda i, j: S.ensure('number of steps at or above the load', S.eq(
        S.at(d, i, j), S.count(x[i] >= S.at(l, j)))))


@contract('C22', L + '.load_duration', proof=False, quick_runs=300, runs=6000)
def load_duration_curve(S):
    x, n, m = load(S, lo=None)
    x0 = x.copy()
    one = S.flag('one dimension')
    given = S.flag('given')
    arg = x[0] if one else x
    loads = S.arr('thresholds', (S.dim('loads', 1, 4),), gen=lambda r, s: r.choice([0., 5., 10., 20., 30.], s)) if given else None
    l, d = f(S, L, 'load_duration')(arg, loads) if given else f(S, L, 'load_duration')(arg)
    rows = x0[:1] if one else x0
    S.ensure('sorted loads', list(l) == (sorted(loads) if given else sorted(set(rows.ravel()))))
    S.ensure('number of steps at or above every load', d.shape == (len(rows), len(l)) and all(
        d[i, j] == (rows[i] >= l[j]).sum() for i in range(len(rows)) for j in range(len(l))))
    S.ensure('the load is unchanged', np.array_equal(x, x0))


@contract('C22', L + '.cumulative_changes_in_demand', proof=False, quick_runs=500, runs=10000)
def changes(S):
    n, m = S.dim('profiles', 1, 4), S.dim('times', 2, 6)
    x = S.arr('load', (n, m), S.choice('kind', 'fi'), gen=lambda r, s: np.where(r.random_sample(s) < .3, 0, r.randint(0, 9, s)) * (
        1 if S.log['kind'] == 'i' else r.choice([.125, .5, 10.])))
    x0 = x.copy()
    normalize = S.flag('normalize')
    ch = np.abs(np.diff(x.astype(float), axis=1)).ravel()
    peak = ch.max()
    if normalize and peak > 0:
        ch = ch / peak
    kw = {}
    top = ch.max()
    mode = S.choice('edges', ['default', 'bins', 'given', 'low', 'high'])
    if mode == 'bins':
        kw['bins'] = S.int('bins', 1, 8)
    elif mode == 'given':
        kw['bin_edges'] = np.array(sorted({0., top} | {float(v) for v in ch if S.flag('edge')} | {top * .3} | (
            {top + 1} if S.flag('above') or top == 0 else set())))
    elif mode == 'low':
        kw['bin_edges'] = np.array([0., top / 2 - .01, top - .01] if top > .02 else [-2., -1.])
    elif mode == 'high':
        kw['bin_edges'] = np.array([ch.min() + .01, top + 1, top + 2])
    if not normalize or not S.flag('by default'):
        kw['normalize'] = normalize
    run = lambda: f(S, L, 'cumulative_changes_in_demand')(x, **kw)
    if mode in ('low', 'high'):
        S.ensure('edges that do not hold all changes are rejected', S.raises(ValueError, run) is not None)
        return
    c, e = run()
    S.ensure('the edges', len(e) == len(c) + 1 and (len(c) == kw.get('bins', 100) if mode != 'given' else np.array_equal(e, kw['bin_edges'])))
    if mode != 'given' and top > 0:
        S.ensure('evenly spaced up to the largest change', np.allclose(e, np.linspace(0, top, len(e))))
    near = np.abs(ch[None, :] - np.asarray(e)[1:, None]) < 1e-9
    below = np.array([(ch < v).mean() for v in e[1:]])
    upto = np.array([(ch <= v).mean() for v in e[1:]])
    exact = not near[:-1].any() or mode == 'given'
    if exact:
        below[-1] = 1
        S.ensure('share of the changes below every edge', np.allclose(c, below))
    S.ensure('between the shares below and up to every edge', (c >= below - 1 - 1e-9 + np.where(near.any(axis=1), 0, 1)).all() and
             (c <= upto + 1e-9 + near.any(axis=1)).all())
    S.ensure('non-decreasing up to one', (np.diff(c) >= -1e-12).all() and np.isclose(c[-1], 1))
    S.ensure('the load is unchanged', np.array_equal(x, x0))


@contract('C22', E + '.RMSE')
def rmse(S):
    n = S.dim('n', 1, 4)
    x, y = S.arr('x', (n,)), S.arr('y', (n,))
    r = f(S, E, 'RMSE')(x, y)
    S.positive((x - y) * (x - y))
    S.ensure('not negative', r >= 0)
    S.ensure('root of the mean squared difference', S.eq(r * r * n, S.sum((x - y) * (x - y))))
    S.ensure('symmetric', S.eq(f(S, E, 'RMSE')(y, x), r))
    S.ensure('zero for equal arrays', S.eq(f(S, E, 'RMSE')(x, S.copy(x)), 0))


@contract('C22', E + '.RMSE')
def rmse_2d(S):
    n, m = S.dim('n', 1, 3), S.dim('m', 1, 3)
    x, y = S.arr('x', (n, m)), S.arr('y', (n, m))
    r = f(S, E, 'RMSE')(x, y)
    S.positive((x - y) * (x - y))
    S.ensure('not negative', r >= 0)
    S.ensure('root of the mean squared difference', S.eq(r * r * n * m, S.sum((x - y) * (x - y))))


@contract('C22', ST + '.sparsity')
def zeros(S):
    n, m = S.dim('n', 1, 4), S.dim('m', 1, 4)
    x = S.arr('tpm', (n, m), lo=0, gen=lambda r, s: r.choice([0., 0., .5, 1.], s))
    s = f(S, ST, 'sparsity')(x)
    S.ensure('the share of zeros', S.eq((1 - s) * n * m, S.count(x > 0)))
    S.positive(S.np.where(x > 0, 1, 0))
    S.positive(1 - S.np.where(x > 0, 1, 0))
    S.ensure('between zero and one', S.And(S.le(0, s), S.le(s, 1)))


@contract('C22', ST + '.average_state_metric')
def average_states(S):
    n, k, m = S.dim('n', 1, 3), S.dim('k', 1, 3), S.dim('m', 1, 4)
    x = S.arr('simulated', (n, m), 'i', lo=0, hi=3)
    y = S.arr('measured', (k, m), 'i', lo=0, hi=3)
    a = f(S, ST, 'average_state_metric')(x, y, average_over_timestep=False)
    b = f(S, ST, 'average_state_metric')(x, y)
    p, q = S.sum(x, 0), S.sum(y, 0)
    diff = lambda t: S.to_real(S.at(p, t)) / n - S.to_real(S.at(q, t)) / k
    S.ensure('one error per time', S.shape_is(a, m))
    S.ensure('difference of the means of every time', S.forall(m, lambda t: S.And(
        S.le(0, S.at(a, t)), S.Or(S.eq(S.at(a, t), diff(t)), S.eq(S.at(a, t), -diff(t))))))
    S.ensure('averaged over time', S.eq(b * m, S.sum(a)))
    S.ensure('symmetric', S.same(f(S, ST, 'average_state_metric')(y, x, average_over_timestep=False), a))
    z = f(S, ST, 'average_state_metric')(x, S.copy(x), average_over_timestep=False)
    S.ensure('zero for equal states', S.forall(m, lambda t: S.eq(S.at(z, t), 0)))


def states(S, name, n, m, k=3):
    return S.arr(name, (n, m), 'i', lo=0, hi=k - 1, gen=lambda r, s: r.randint(0, k, s) if r.random_sample() < .5 else np.repeat(
        r.randint(0, k, (n, m)), 3, axis=1)[:, r.randint(0, 3):][:, :m])


def cyclic_runs(row):
    """runs of a diary whose end continues at its start"""
    n = len(row)
    starts = [t for t in range(n) if row[t] != row[t - 1]]
    if not starts:
        return [(row[0], n)]
    return [(row[t], (starts[(i + 1) % len(starts)] - t) % n or n) for i, t in enumerate(starts)]


@contract('C22', [ST + '.get_states_durations', ST + '.get_durations_by_states'], proof=False, quick_runs=400, runs=10000)
def durations_of_states(S):
    n, m = S.dim('n', 1, 4), S.dim('m', 1, 6)
    x = states(S, 'states', n, m)
    x0 = x.copy()
    d, lab = f(S, ST, 'get_states_durations')(x)
    want = [r for row in x0 for r in cyclic_runs(row)]
    S.ensure('the runs of all states, end and start merged', sorted(zip(lab, d)) == sorted(want))
    S.ensure('add up to the time', d.sum() == n * m)
    by = f(S, ST, 'get_durations_by_states')(x)
    S.ensure('by state', {s: sorted(v) for s, v in by.items()} == {s: sorted(dd for ss, dd in want if ss == s) for s, _ in want})
    S.ensure('the states are unchanged', np.array_equal(x, x0))


@contract('C22', ST + '.state_duration_distribution_metric', proof=False, quick_runs=300, runs=6000)
def duration_distance(S):
    n, k, m = S.dim('n', 1, 4), S.dim('k', 1, 4), S.dim('m', 1, 6)
    x, y = states(S, 'x', n, m), states(S, 'y', k, m, S.int('kinds', 1, 4))
    go = f(S, ST, 'state_duration_distribution_metric')
    a, b = go(x, y, average_over_timestep=False), go(x, y)
    cdf = lambda z, s: np.array([np.mean([d <= t for ss, d in z if ss == s] or [False]) for t in range(m + 1)])
    rx, ry = ([r for row in z for r in cyclic_runs(row)] for z in (x, y))
    S.ensure('all states of both sides', set(a) == set(b) == set(x.ravel()) | set(y.ravel()))
    for s in a:
        S.ensure('difference of the duration distributions', np.allclose(a[s], np.abs(cdf(rx, s) - cdf(ry, s))))
        S.ensure('averaged', np.isclose(b[s], a[s].mean()))
    S.ensure('symmetric', {s: round(v, 9) for s, v in go(y, x).items()} == {s: round(v, 9) for s, v in b.items()})
    S.ensure('zero for equal states', all(v == 0 for v in go(x, x.copy()).values()))


@contract('C22', ST + '.count', proof=False)
def counts(S):
    x = S.arr('x', (S.dim('n', 0, 4), S.dim('m', 1, 4)), 'i', lo=0, hi=3)
    c = f(S, ST, 'count')(x)
    S.ensure('every value once with its number', dict(c) == {v: (x == v).sum() for v in set(x.ravel())} and len(c) == len(set(x.ravel())))


@contract('C22', [L + '.profiles_similarity', L + '.profiles_variety'], proof=False)
def similarity(S):
    n, k, m = S.dim('n', 2, 4), S.dim('k', 1, 4), S.dim('m', 1, 5)
    x = S.arr('x', (n, m), 'f', lo=-5, hi=5)
    y = S.arr('y', (k, m), 'f', lo=-5, hi=5)
    d = f(S, L, 'profiles_similarity')(x, y)
    S.ensure('distance of every pair', np.allclose(d, [[np.sqrt(((a - b)**2).sum()) for b in y] for a in x]))
    d = f(S, L, 'profiles_similarity')(x, y, metric='cityblock')
    S.ensure('with the given distance', np.allclose(d, [[np.abs(a - b).sum() for b in y] for a in x]))
    pairs = [np.sqrt(((x[i] - x[j])**2).sum()) for i in range(n) for j in range(i + 1, n)]
    S.ensure('distances of the different pairs', np.allclose(f(S, L, 'profiles_variety')(x, False), pairs))
    S.ensure('their mean', np.isclose(f(S, L, 'profiles_variety')(x), np.mean(pairs)))
