"""C20  Subgroups of the population."""
import numpy as np

from dv.harness import contract

M = 'demod.utils.subgroup_handling'
KEYS = ['a', 'b', 'c']
OTHER = ['country', 'geography', 'age']


def f(S, name):
    return getattr(S.mod(M), name)


def group(S, name, cls):
    """a subgroup with any of three keys and any values"""
    return cls({k: S.int(name + ' ' + k, gen=lambda r: r.randint(-2, 3)) for k in KEYS if S.flag(name + ' has ' + k)})


def greater(S, x, y):
    """the documented order"""
    if len(x) != len(y):
        return len(x) > len(y)
    out = False
    for k in reversed(KEYS):
        if (k in x) != (k in y):
            out = k in x
        elif k in x:
            out = S.Or(x[k] > y[k], S.And(x[k] == y[k], out))
    return out


@contract('C20', [M + '.Subgroup.__gt__'], note='subgroups of up to three keys; any values', max_paths=2000)
def order(S):
    """the order of subgroups is the documented one, and a total order"""
    cls = S.cls(M + '.Subgroup')
    x, y = group(S, 'x', cls), group(S, 'y', cls)
    x0, y0 = dict(x), dict(y)
    gt = bool(x > y)
    lt = bool(x < y)
    S.ensure('greater as documented', S.Iff(gt, greater(S, x, y)))
    S.ensure('smaller as documented', S.Iff(lt, greater(S, y, x)))
    same = set(x) == set(y) and S.And(*[x[k] == y[k] for k in x])
    S.ensure('exactly one of greater, smaller and equal', S.And(
        S.Or(gt, lt, same), S.Not(S.And(gt, lt)), S.Implies(same, not gt and not lt)))
    S.ensure('the subgroups are unchanged', dict(x) == x0 and dict(y) == y0 if not S.symbolic else
             list(x) == list(x0) and list(y) == list(y0))


@contract('C20', [M + '.Subgroup.__gt__', M + '.Subgroup.copy'])
def kinds(S):
    cls = S.cls(M + '.Subgroup')
    x = group(S, 'x', cls)
    S.ensure('only subgroups are ordered', S.raises(TypeError, lambda: x > S.choice('other', [3, 'a', (1,), [1, 2], None])) is not None)
    y = x.copy()
    S.ensure('the copy is a subgroup', type(y) is cls and y is not x)
    S.ensure('of the same keys and values', S.And(list(y) == list(x), *[y[k] == x[k] for k in x]))
    y['z'] = 1
    S.ensure('independent of the original', 'z' not in x)


@contract('C20', M + '.Subgroup.__gt__', proof=False, quick_runs=400, runs=8000)
def ordering(S):
    """sorting subgroups, and listing the different ones, as the sampling of populations does"""
    cls = S.cls(M + '.Subgroup')
    keys = ['n_residents', 'age', 'weekday', 'z']
    gs = []
    for i in range(S.int('groups', 1, 7)):
        ks = S.choice('keys %d' % i, [keys[:0], keys[:1], keys[1:2], keys[:2], keys[1:3], keys[:3], keys])
        gs.append(cls({k: S.int('%s %d' % (k, i), 0, 2) if k != 'weekday' else S.choice('days %d' % i, [[1, 2, 3, 4, 5], [6, 7]])
                       for k in ks}))
    s = sorted(gs)
    S.ensure('sorted', not any(a > b for i, a in enumerate(s) for b in s[i:]))
    S.ensure('the same subgroups', sorted(map(id, s)) == sorted(map(id, gs)))
    u, inv, n = np.unique(np.array(gs + [None])[:-1], return_inverse=True, return_counts=True)
    S.ensure('every subgroup is found once', all(sum(g == v for v in u) == 1 for g in gs) and
             all(sum(v == w for w in u) == 1 for v in u))
    S.ensure('counted', all(n[j] == sum(g == v for g in gs) for j, v in enumerate(u)) and all(u[j] == g for j, g in zip(inv, gs)))


def attributes(S, cls=dict, extra=()):
    """a subgroup of any attributes"""
    d = cls()
    for k in list(OTHER) + list(extra):
        if S.flag('has ' + k):
            d[k] = S.int(k, 0, 90)
    return d


def kept(S, new, old, keys):
    return S.And(*[(new[k] == old[k] if k in new else False) if k in old else k not in new for k in keys])


@contract('C20', [M + '.sort_subgroup', M + '.remove_time_attributues'])
def attribute_handling(S):
    cls = S.cls(M + '.Subgroup')
    d = attributes(S, cls if S.flag('subgroup') else dict, ['weekday', 'quarter'])
    if 'weekday' in d and S.flag('days'):
        d['weekday'] = [1, 2, 3, 4, 5]
    d0 = dict(d)
    s = f(S, 'sort_subgroup')(d)
    S.ensure('sorted by key', list(s) == sorted(d0))
    S.ensure('same values', kept(S, s, d0, d0))
    r = f(S, 'remove_time_attributues')(d)
    S.ensure('no time attribute', 'weekday' not in r and 'quarter' not in r)
    S.ensure('the other attributes', S.And(kept(S, r, d0, OTHER), len(r) == len(set(d0) - {'weekday', 'quarter'})))
    S.ensure('another object of the same kind', r is not d and type(r) is type(d))
    S.ensure('the subgroup is unchanged', S.And(list(d) == list(d0), *[d[k] is d0[k] for k in d0]))


@contract('C20', [M + '.check_weekend_day_format', M + '.is_weekend', M + '.is_weekday'])
def day_types(S):
    day = S.int('day', 0, 8)
    v = S.choice('weekday', ['week', 'end', 'day', 'list', 'part'])
    v = {'week': [1, 2, 3, 4, 5], 'end': [6, 7], 'day': day, 'list': [6, 7, 1], 'part': [1, 2, 3, 4]}[v]
    sg = {'weekday': v, 'age': 1}
    week, end = v == [1, 2, 3, 4, 5], v == [6, 7]
    S.ensure('weekend', f(S, 'is_weekend')(sg) == end)
    S.ensure('weekday', f(S, 'is_weekday')(sg) == week)
    r = S.raises(ValueError, lambda: f(S, 'check_weekend_day_format')(sg))
    S.ensure('only the two types of days are accepted', (r is None) == (week or end))


@contract('C20', M + '.add_time', max_paths=4000)
def time_attributes(S):
    """the attributes added for a date"""
    cls = S.cls(M + '.Subgroup')
    d = attributes(S, cls if S.flag('subgroup') else dict, ['weekday', 'quarter'])
    d0 = dict(d)
    t = S.datetime('date')
    ends, sat, seven, quarters = (S.flag(k) for k in ('weekends', 'sat sun', 'seven days', 'quarters'))
    run = lambda: f(S, 'add_time')(d, t, use_week_ends_days=ends, use_week_sat_sun=sat, use_7days=seven, use_quarters=quarters)
    if ends + sat + seven > 1:
        S.ensure('more than one definition of days is rejected', S.raises(ValueError, run) is not None)
        S.ensure('nothing changes', S.And(list(d) == list(d0), *[d[k] is d0[k] for k in d0]))
        return
    out = run()
    w = t.isoweekday()
    if ends or sat or seven:
        S.ensure('a type of day', 'weekday' in out)
        v = out['weekday']
        if seven:
            ok = isinstance(v, list) is False and v == w
        elif isinstance(v, list):
            ok = S.Or(S.And(v == [1, 2, 3, 4, 5], w <= 5), S.And(ends and v == [6, 7], w >= 6))
        else:
            ok = S.And(sat, lambda: v == w, lambda: w >= 6)
        S.ensure('the type of the day of the date', ok)
    else:
        S.ensure('no type of day', 'weekday' not in out)
    if quarters:
        S.ensure('the quarter of the date', S.And(3 * out['quarter'] - 2 <= t.month, t.month <= 3 * out['quarter']))
    else:
        S.ensure('no quarter', 'quarter' not in out)
    S.ensure('the other attributes are kept', kept(S, out, d0, OTHER))
    S.ensure('and none is added', set(out) - {'weekday', 'quarter'} == set(d0) - {'weekday', 'quarter'})


@contract('C20', M + '.add_time')
def time_default(S):
    d = {}
    t = S.datetime('date')
    out = f(S, 'add_time')(d, t)
    S.ensure('weekdays and weekends by default', S.And(list(out) == ['weekday'], lambda: S.Or(
        S.And(out['weekday'] == [1, 2, 3, 4, 5], t.isoweekday() <= 5), S.And(out['weekday'] == [6, 7], t.isoweekday() >= 6))))


def household(S):
    """any household of a known kind, with the residents of that kind"""
    cls = S.cls(M + '.Subgroup')
    d = attributes(S, cls if S.flag('subgroup') else dict, ['hh_mean_age'])
    kind = S.choice('kind', ['one', 'single', 'couple', 'parent', 'family', 'other', 'number'])
    typ = {'single': 1, 'couple': 2, 'parent': 3, 'family': 4, 'other': 5, 'number': None, 'one': None}[kind]
    n = {'one': 1, 'single': 1, 'couple': 2}.get(kind)
    if n is None:
        n = S.int('residents', {'parent': 2, 'family': 3, 'other': 2, 'number': 1}[kind], 7)
    if typ is not None:
        d['household_type'] = typ
    if kind not in ('single', 'couple') or S.flag('has residents'):
        d['n_residents'] = n
    return d, kind, n


def person(S, p, d0, pos, single):
    want = {k: d0[k] for k in OTHER + ['hh_mean_age'] if k in d0}
    if single and 'age' not in want and 'hh_mean_age' in want:
        want['age'] = want.pop('hh_mean_age')
    if pos is not None:
        want['household_position'] = pos
    return set(p) == set(want) and S.And(*[p[k] == v for k, v in want.items()])


@contract('C20', M + '.subgroup_households_to_persons', max_paths=4000)
def persons(S):
    """the persons of a household"""
    d, kind, n = household(S)
    d0 = dict(d)
    ps = f(S, 'subgroup_households_to_persons')(d)
    S.ensure('one subgroup per resident', S.len(ps) == n)
    S.ensure('the household is unchanged', S.And(list(d) == list(d0), *[d[k] is d0[k] for k in d0]))

    def resident(i):
        pos = {'couple': [1, 2], 'parent': [1, 3], 'family': [1, 2, 3]}.get(kind)
        if pos:
            pos = pos[0] if S.branch(i == 0) else pos[1] if len(pos) == 2 or S.branch(i == 1) else pos[2]
        S.ensure('the attributes and the position of every resident', person(S, S.item(ps, i), d0, pos, S.branch(n == 1)))
    S.for_all(n, resident)


@contract('C20', M + '.subgroup_households_to_persons', proof=False)
def households(S):
    """several households at once"""
    go = f(S, 'subgroup_households_to_persons')
    hhs = []
    for i in range(S.int('households', 0, 4)):
        t = S.int('type %d' % i, 1, 5)
        d = {'household_type': t, 'n_residents': {1: 1, 2: 2}.get(t) or S.int('residents %d' % i, 3, 6)}
        if S.flag('age %d' % i):
            d['hh_mean_age'] = S.int('mean age %d' % i, 18, 90)
        hhs.append(d)
    out = go(hhs)
    S.ensure('the persons of every household, in order', out == [go(d) for d in hhs])


def members(S, name):
    d = {}
    for k in ['n_residents', 'weekday', 'age', 'household_type']:
        t = S.choice(name + k, ['no', 'int', 'list'])
        if t == 'int':
            d[k] = S.int(name + k + ' value', 0, 12)
        elif t == 'list':
            d[k] = [S.int(name + k + str(i), 0, 12) for i in range(S.int(name + k + ' len', 2, 4))]
    return d


@contract('C20', [M + '.subgroup_string', M + '.sort_subgroup'], proof=False, quick_runs=400, runs=8000)
def names(S):
    """the name of a subgroup identifies it"""
    name = f(S, 'subgroup_string')
    x = members(S, 'x')
    digits = ''.join(map(str, x['age'])) if isinstance(x.get('age'), list) else ''
    how = S.choice('how', ['other', 'changed', 'regrouped'])
    if how == 'regrouped' and len(digits) > 2:
        # the digits of the list, separated elsewhere
        c = S.int('cut', 1, len(digits) - 1)
        y = dict(x, age=[int(digits[:c]), int(digits[c:])])
    else:
        y = members(S, 'y') if how == 'other' else {k: (v if S.flag('same ' + k) else S.int('new ' + k, 0, 12)) for k, v in x.items()}
    perm = list(x)[::-1] if S.flag('reverse') else sorted(x)
    S.ensure('independent of the order of the keys', name(x) == name({k: x[k] for k in perm}))
    S.ensure('different subgroups have different names', (name(x) == name(y)) == (x == y))
