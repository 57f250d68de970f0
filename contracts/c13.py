"""C13  Appliance ownership and appliance tables."""
import warnings
import numpy as np
from dv.harness import contract
from contracts.common import frequencies
from contracts.c12 import AP, AC, PR, AppData, ALGOS, TYPES

U = 'demod.utils.appliances.'
KINDS = ['hob', 'electric_hob', 'big_electric_hob', 'kettle', 'washing_machine', 'machine', 'old_kettle', 'tv_box', 'box', 'hob_2']


def fleet(S):
    """a simulator without its appliances sampled"""
    n, k = S.dim('n', 1, 4), S.dim('k', 1, 4)
    p = S.arr('equipped_prob', (k,), lo=0, hi=1, gen=lambda r, s: r.choice([0., .25, .5, 1.], size=s))
    return S.new(AP, n_households=n, appliances={'number': k, 'equipped_prob': p}, _cache={}), n, k, p


def ownership(S, out, prob, n, k):
    S.ensure('one value per household and appliance', S.shape_is(out, n, k))
    S.ensure('the appliance is owned exactly when the draw of the household is below its probability', S.forall(
        (n, k), lambda i, j: S.Iff(S.at(out, i, j), S.at(S.drawn(0, n, k), i, j) < prob(i, j))))
    S.ensure('ownership of probability one is certain', S.forall((n, k), lambda i, j: S.Or(prob(i, j) < 1, S.at(out, i, j))))
    S.ensure('ownership of probability zero is excluded', S.forall((n, k), lambda i, j: S.Not(
        S.And(prob(i, j) <= 0, S.at(out, i, j)))))


@contract('C13', AP + '.sample_available_appliances')
def basic_ownership(S):
    sim, n, k, p = fleet(S)
    before = S.copy(p)
    out = sim.sample_available_appliances('basic')
    ownership(S, out, lambda i, j: S.at(before, j), n, k)
    S.ensure('the probabilities are unchanged', S.same(before, p))


@contract('C13', AP + '.sample_available_appliances')
def all_ownership(S):
    sim, n, k, p = fleet(S)
    out = sim.sample_available_appliances(S.choice('algo', ['all']))
    S.ensure('one value per household and appliance', S.shape_is(out, n, k))
    S.ensure('every household owns every appliance', S.forall((n, k), lambda i, j: S.at(out, i, j)))


@contract('C13', AP + '.sample_available_appliances')
def unknown_ownership(S):
    sim, n, k, p = fleet(S)
    algo = S.choice('algo', ['Basic', '', 'correlated'])
    e = S.raises((ValueError, NotImplementedError), lambda: sim.sample_available_appliances(algo))
    S.ensure('unknown algorithms are rejected', e is not None)


@contract('C13', [AP + '._sample_from_subgroup', AP + '.sample_available_appliances'])
def subgroup_ownership(S):
    """probabilities of the subgroup of the household (get_ownership_from_dict by its contract, see lookup)"""
    sim, n, k, p = fleet(S)
    g = S.dim('groups', 1, 3)
    table = S.arr('ownership', (g, k), lo=0, hi=1, gen=lambda r, s: r.choice([0., .25, .5, 1.], size=s))
    sim.subgroups_list = S.seq(g, lambda q: {'id': q})
    sim.hh_types = S.arr('types', (n,), 'i', lo=0, hi=g - 1)

    class D:
        def load_appliance_ownership_dict(self, subgroup):
            return subgroup['id']
    sim.data = D()
    S.stub(S.mod('demod.simulators.appliance_simulators'), 'get_ownership_from_dict', lambda a, d: table[d])
    out = sim.sample_available_appliances('subgroup')
    ownership(S, out, lambda i, j: S.at(table, S.at(sim.hh_types, i), j), n, k)


@contract('C13', AP + '._appliance_set', proof=False)
def set_ownership(S):
    r = S.rng
    g = S.dim('groups', 1, 3)
    d = AppData(S, S.dim('k', 1, 5), ['cook'])
    names = d.table['name']
    sets = [[x for x in names if r.random() < .5] + (['other'] if r.random() < .3 else []) for _ in range(g)]
    types = np.array([r.randrange(g) for _ in range(S.dim('n', 1, 4))])
    sim = S.new(AP, appliances=d.table, subgroups_list=[{}] * g, hh_types=types, n_households=len(types))
    out = sim.sample_available_appliances('set_defined', sets)
    S.ensure('one value per household and appliance', out.shape == (len(types), len(names)))
    for i, t in enumerate(types):
        for j, x in enumerate(names):
            S.ensure('exactly the set of the subgroup', bool(out[i, j]) == (x in sets[t]))


def closest(t, known):
    parts = t.split('_')
    for i in range(len(parts)):
        if '_'.join(parts[i:]) in known:
            return '_'.join(parts[i:])
    return False


@contract('C13', [U + 'find_closest_type', U + 'remove_start'], proof=False)
def closest_type(S):
    r = S.rng
    known = r.sample(KINDS, r.randint(0, 6))
    t = '_'.join(r.choice(['a', 'big', 'hob', 'electric', '', '2']) for _ in range(r.randint(1, 4))) if r.random() < .5 else r.choice(KINDS)
    m = S.mod(U[:-1])
    parts = t.split('_')
    S.ensure('the parent has no first part', m.remove_start(t) == ('_'.join(parts[1:]) if len(parts) > 1 else False))
    for where in (known, {x: 0 for x in known}):
        out = m.find_closest_type(t, where)
        S.ensure('the longest known end of the name', out == closest(t, known) or (not out and not closest(t, known)))


@contract('C13', [U + 'get_ownership_from_dict', U + 'get_target_from_dict'], proof=False)
def lookup(S):
    r = S.rng
    k = S.dim('k', 0, 7)
    types = np.array([r.choice(KINDS) for _ in range(k)], dtype=object)
    known = {}
    for t in r.sample(KINDS, r.randint(1, 6)):
        known[t] = r.random()
        for q in range(2, r.randint(2, 5)):
            if r.random() < .9:
                known['%s_%d' % (t, q)] = r.random()
    m = S.mod(U[:-1])
    for f, key in ((m.get_ownership_from_dict, 'equipped_prob'), (m.get_target_from_dict, 'target_switchons')):
        a = {'number': k, 'type': types, key: S.nrng.uniform(size=k)}
        copy = dict(known)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            out = f(a, known)
        S.ensure('one value per appliance', out.shape == (k,))
        seen, missing = {}, 0
        for i, t in enumerate(types):
            c = closest(t, known)
            if not c:
                missing += 1
                S.ensure('unknown types take the value of the appliance table', out[i] == a[key][i])
                continue
            seen[c] = seen.get(c, 0) + 1
            name = c if seen[c] == 1 else '%s_%d' % (c, seen[c])
            S.ensure('value of the closest type, counting the appliances of that type', out[i] == known.get(name, 0.))
        S.ensure('unknown types are reported', len(w) == missing)
        S.ensure('the table is unchanged', copy == known)


@contract('C13', U + 'assign_ownership_from_prob1_and_number', proof=False)
def numbers(S):
    p, n = S.rng.choice([0., .25, .5, 1., S.rng.random()]), S.rng.choice([0., .5, 1., 1.5, 2., 3.25, 5 * S.rng.random()])
    f = S.mod(U[:-1]).assign_ownership_from_prob1_and_number
    if p > n:
        S.ensure('impossible numbers are rejected', S.raises(ValueError, lambda: f(p, n)) is not None)
        return
    out = f(p, n)
    S.ensure('the first is owned with the given probability', out[0] == p)
    S.ensure('probabilities', all(0 <= x <= 1 for x in out))
    S.ensure('the expected number is the number of appliances', abs(sum(out) - n) < 1e-9)
    S.ensure('further ones are less likely', all(out[i] >= out[i + 1] for i in range(1, len(out) - 1)))
    S.ensure('missing number', f(p, np.nan)[0] == p and sum(f(p, np.nan)) == p)
    for bad in ((-.1, 1), (1.1, 2), (.5, -1)):
        S.ensure('impossible values are rejected', S.raises(ValueError, lambda: f(*bad)) is not None)
    S.ensure('unknown algorithms are rejected', S.raises(ValueError, lambda: f(p, n, 'x')) is not None)


@contract('C13', U + 'merge_appliance_dict', proof=True)
def merge(S):
    """the appliances of the first table, then those of the second"""
    a, b = S.dim('a', 0, 4), S.dim('b', 0, 4)
    x = {'power': S.arr('p1', (a,)), 'number': a, 'kind': S.arr('k1', (a,), 'i'), 'only first': S.arr('o1', (a,))}
    y = {'kind': S.arr('k2', (b,), 'i'), 'power': S.arr('p2', (b,)), 'only second': S.arr('o2', (b,)), 'number': b}
    keep = {q: S.copy(v) for q, v in (('p1', x['power']), ('k1', x['kind']), ('p2', y['power']), ('k2', y['kind']))}
    m = S.mod(U[:-1]).merge_appliance_dict(x, y)
    S.ensure('attributes known for all appliances', sorted(m) == ['kind', 'number', 'power'])
    S.ensure('number of appliances', S.eq(m['number'], a + b))
    for key, p, q in (('power', 'p1', 'p2'), ('kind', 'k1', 'k2')):
        S.ensure(key + ' of every appliance', S.shape_is(m[key], a + b))
        S.ensure(key + ' of the first appliances', S.forall(a, lambda i: S.eq(S.at(m[key], i), S.at(keep[p], i))))
        S.ensure(key + ' of the second appliances', S.forall(b, lambda i: S.eq(S.at(m[key], a + i), S.at(keep[q], i))))
    S.ensure('the tables are unchanged', S.And(S.same(keep['p1'], x['power']), S.same(keep['p2'], y['power']),
                                              S.eq(x['number'], a), S.eq(y['number'], b)))


@contract('C13', [AC + '._remove_non_compatible_appliances', PR + '._remove_non_compatible_appliances'], proof=False)
def filtering(S):
    r = S.rng
    acts = ['cook', 'clean', 'wash']
    given = {a: np.zeros(2) for a in r.sample(acts, r.randint(0, 3))}
    d = AppData(S, S.dim('k', 1, 6), acts, level=True)
    t = d.table
    t['probabilistic'] = S.nrng.uniform(size=t['number']) < .5
    with_key = r.random() < .7
    if not with_key:
        del t['probabilistic']
    before = {a: (b.copy() if hasattr(b, 'copy') else b) for a, b in t.items()}
    prob = S.choice('simulator', [0, 1])
    sim = S.new([AC, PR][prob], data=d)
    ok = [x in given or x in ('level', 'constant') for x in t['related_activity']]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = sim._remove_non_compatible_appliances(t, given)
    if with_key:
        keep = [i for i in range(t['number']) if ok[i] and bool(t['probabilistic'][i]) == bool(prob)]
    else:
        keep = [i for i in range(t['number']) if ok[i]]
    S.ensure('number of the appliances', out['number'] == len(keep))
    S.ensure('appliances of a missing activity are reported', bool(w) or all(ok))
    if prob and not with_key:
        new = out.pop('probabilistic', None)
        t.pop('probabilistic', None)
        S.ensure('assumed probabilistic', new is None or (len(new) == len(keep) and np.all(new == False) or np.all(new)))
    S.ensure('the same attributes', sorted(out) == sorted(before))
    for key, v in before.items():
        if key not in ('number', 'probabilistic'):
            S.ensure('every attribute keeps the value of the appliance', list(out[key]) == [v[i] for i in keep])
        if key != 'probabilistic' or with_key:
            S.ensure('the table is unchanged', np.array_equal(t[key], v))


@contract('C13', [AP + '.sample_real_load_profiles', AP + '._sample_switched_on_load_profiles',
                  AP + '._sample_always_on_load_profiles', AP + '.__init__'], proof=False)
def profiles(S):
    """which load profile every owned appliance follows"""
    r = S.nrng
    k = S.dim('k', 1, 6)
    d = AppData(S, k, ['cook'], level=True)
    full = {t: {'F%d' % i: r.uniform(1, 50, size=r.randint(2, 5)) for i in range(r.randint(1, 3))} for t in TYPES if r.uniform() < .5}
    level = {t: r.uniform() < .4 for t in TYPES}          # a type is always on or it is not
    d.table['related_activity'] = np.array(['level' if level[t] else 'cook' for t in d.table['type']])
    d.load_real_profiles_dict = lambda kind: {'switchedON': d.loads, 'full': full}[kind]
    algo = S.choice('algo', ALGOS)
    sim = S.new(AP, n_households=S.dim('n', 1, 4), appliances=d.load_appliance_dict(), data=d, _cache={})
    sim.available_appliances = sim.sample_available_appliances('basic')
    sim.sample_real_load_profiles(algo)
    a = sim.appliances
    for j, t in enumerate(a['type']):
        src = full if level[t] else d.loads
        var = t in src and algo in (['uniform', 'only_always_on'] if level[t] else ['uniform', 'only_switched_on'])
        S.ensure('variable loads are those with profiles', bool(a['use_variable_loads'][j]) == var)
        for i in range(sim.n_households):
            q, L = sim.corresponding_load_id[i, j], sim.load_duration[i, j]
            if not (var and sim.available_appliances[i, j]):
                S.ensure('no profile otherwise', q == 0 and L == 0)
                continue
            loads = list(src[t].values())
            S.ensure('a profile of the type of the appliance', 0 <= q < len(loads))
            S.ensure('its duration', L == len(loads[q]))
            S.ensure('its values', np.array_equal(sim.loads_dict[t][q, :L], loads[q]))
    S.ensure('unknown algorithms are rejected', S.raises(ValueError, lambda: sim.sample_real_load_profiles('x')) is not None)


@contract('C13', [AP + '.sample_available_appliances', AP + '._sample_from_subgroup'], proof=False, quick_runs=12, runs=150)
def frequency(S):
    """whatever the source of the random numbers: every appliance of every household is drawn independently"""
    n, k = S.dim('n', 1, 3), S.dim('k', 1, 3)
    p = S.arr('equipped_prob', (k,), lo=0, hi=1)
    sim = S.new(AP, n_households=n, appliances={'number': k, 'equipped_prob': p}, _cache={})
    algo = S.choice('algo', ['basic', 'subgroup'])
    probs = np.array([p] * n)
    if algo == 'subgroup':
        table = S.arr('ownership', (2, k), lo=0, hi=1)
        sim.subgroups_list = [{'id': 0}, {'id': 1}]
        sim.hh_types = S.arr('types', (n,), 'i', lo=0, hi=1)
        probs = table[sim.hh_types]

        class D:
            def load_appliance_ownership_dict(self, subgroup):
                return subgroup['id']
        sim.data = D()
        S.stub(S.mod('demod.simulators.appliance_simulators'), 'get_ownership_from_dict', lambda a, d: table[d])
    S.natural(S.dim('seed', 0, 10**6))
    p = probs.ravel()
    frequencies(S, lambda: np.ravel(sim.sample_available_appliances(algo)).astype(int), np.stack([1 - p, p], -1), runs=1000)
