"""C09  Simulators composed of sub-simulators."""
import numpy as np
from dv.harness import contract

B = 'demod.simulators.base_simulators'
M = B + '.MultiSimulator'


def sub_class(S):
    B_ = S.mod(B)

    class Sub(B_.Simulator):
        def __init__(self, n, state):
            super().__init__(n)
            self.n_households = n
            self.current_time_step = 0
            self.state = state
            self.calls = []

        def step(self, *args, **kwargs):
            self.calls.append((args, kwargs))
            if args:
                self.state = args[0]
            super().step()

        def get_state(self):
            """the state"""
            return self.state

        @B_.cached_getter
        def get_double(self):
            return self.state * 2

        def other(self):
            return self.state
    return Sub


class Stub:
    """sub-simulator: only the contract of a sub-simulator is assumed"""

    def __init__(self, n, check):
        self.n_households = n
        self.check = check
        self.calls = 0

    def step(self, *a, **k):
        self.check(self, a, k)
        self.calls = self.calls + 1


@contract('C09', M + '.step')
def step_any_number(S):
    """any number of sub-simulators of any sizes"""
    m = S.dim('m', 1, 4)
    sizes = S.arr('sizes', (m,), 'i', lo=1, hi=3)
    P = S.prefix(sizes, m)
    total = S.at(P, m)
    S.induct('running totals do not decrease', m, lambda q: S.at(P, q) <= total, down=True)
    S.induct('running totals are not negative', m, lambda q: S.at(P, q) >= 0)
    x, y = S.arr('x', (total,)), S.arr('y', (total,), 'i')
    z = S.arr('z', (total,), 'b')
    cur = {'n': None}

    def make(k):
        n = S.at(sizes, k)
        S.lemma('the households lie within the total', S.And(
            S.at(P, k + 1) == S.at(P, k) + n, S.at(P, k + 1) <= total, S.at(P, k) >= 0))

        def check(sim, a, kw):
            S.ensure('all positional arguments are passed', len(a) == 2)
            S.ensure('all keyword arguments are passed', set(kw) == {'z'})
            for given, whole in ((a[0], x), (a[1], y), (kw['z'], z)):
                S.ensure('one value per household of the sub-simulator', S.shape_is(given, n))
                S.ensure('the values of its own households', S.forall((n,), lambda i: S.at(given, i) == S.at(
                    whole, S.at(P, k) + i)))
        s = Stub(n, check)
        cur['n'] = s
        return s
    subs = S.seq(m, make)
    sim = S.new(M, simulators=subs, current_time_step=4, _cache={'x': 1}, logger=None)
    start = {'s': None}

    def inv(k, env):
        off = S.And(S.eq(env['hh_offset'], S.at(P, k)))
        if cur['n'] is not None and cur['n'].calls != 0:
            return S.And(off, cur['n'].calls == 1)
        return off
    S.loop('MultiSimulator.step', inv, modifies={'hh_offset': lambda k: S.at(P, k)})
    sim.step(x, y, z=z)
    S.ensure('one step of the whole', sim.current_time_step == 5)
    S.ensure('cached values are dropped', len(sim._cache) == 0)
    if not S.symbolic:
        S.ensure('every sub-simulator is stepped once', all(s.calls == 1 for s in subs))
    elif cur['n'] is not None and cur['n'].calls == 0:
        pass


def composed(S, k_max=3):
    k = S.choice('number of sub-simulators', list(range(1, k_max + 1)))
    Sub = sub_class(S)
    ns = [S.dim('n%d' % i, 1, 3) for i in range(k)]
    states = [S.arr('state%d' % i, (ns[i],)) for i in range(k)]
    subs = [Sub(n, s) for n, s in zip(ns, states)] if not S.symbolic else [make_sub(Sub, n, s) for n, s in zip(ns, states)]
    return k, ns, states, subs


def make_sub(Sub, n, s):
    x = Sub(1, s)
    x.n_households = n
    return x


def multi(S, subs, ns):
    """MultiSimulator over the given sub-simulators"""
    return S.cls(M)(subs)


@contract('C09', [M + '.__init__', M + '.step'])
def composition(S):
    k, ns, states, subs = composed(S)
    sim = S.cls(M)(subs)
    sim.current_time_step = 0
    total = sum(ns[1:], ns[0])
    S.ensure('the sum of the households', sim.n_households == total)
    S.ensure('the sub-simulators are kept in order', list(sim.simulators) == subs)
    x, z = S.arr('x', (total,)), S.arr('z', (total,), 'i')
    before = S.copy(x)
    sim.step(x, z=z)
    off = 0
    for s, n in zip(subs, ns):
        S.ensure('every sub-simulator is stepped exactly once', len(s.calls) == 1)
        a, kw = s.calls[0]
        S.ensure('with all arguments', len(a) == 1 and set(kw) == {'z'})
        S.ensure('one value per household', S.And(S.shape_is(a[0], n), S.shape_is(kw['z'], n)))
        S.ensure('the values of its households', S.forall((n,), lambda i: S.And(
            S.at(a[0], i) == S.at(before, off + i), S.at(kw['z'], i) == S.at(z, off + i))))
        off = off + n
    S.ensure('one step of the whole', sim.current_time_step == 1)


def is_concat(S, got, parts, ns):
    """got is the concatenation of the parts"""
    total = sum(ns[1:], ns[0])
    S.ensure('one value per household', S.shape_is(got, total))
    off = 0
    for p, n in zip(parts, ns):
        S.ensure('values of the sub-simulators in order', S.forall((n,), lambda i, p=p, off=off: S.at(
            got, off + i) == S.at(p, i)))
        off = off + n


@contract('C09', [M + '._create_multi_getter', M + '._assign_getters', M + '.step'])
def getters(S):
    k, ns, states, subs = composed(S)
    sim = S.cls(M)(subs)
    sim.current_time_step = 0
    total = sum(ns[1:], ns[0])
    S.ensure('all getters of the sub-simulators', {a for a in dir(sim) if a.startswith('get_')} == {
        'get_state', 'get_double', 'get_mask_subgroup'})
    is_concat(S, sim.get_state(), states, ns)
    is_concat(S, sim.get_double(), [s * 2 for s in states], ns)
    i = S.int('i', 0, 8)
    S.assume(i < total)
    S.ensure('one household: its entry', S.eq(sim.get_double(i), S.at(sim.get_double(), i)))
    S.ensure('also as keyword', S.eq(sim.get_state(n_ieth_hh=i), S.at(sim.get_state(), i)))
    new = S.arr('new', (total,))
    sim.step(new)
    S.ensure('current values after a step', S.same(sim.get_state(), new))
    S.ensure('current values after a step (computed)', S.forall((total,), lambda j: S.at(
        sim.get_double(), j) == S.at(new, j) * 2))


@contract('C09', [M + '.get_mask_subgroup'])
def mask(S):
    k = S.choice('number of sub-simulators', [1, 2, 3])
    ns = [S.dim('n%d' % i, 1, 3) for i in range(k)]
    groups = [{'a': S.int('a%d' % i, 1, 2), 'b': S.int('b%d' % i, 1, 2)} for i in range(k)]
    if S.flag('first without b'):
        del groups[0]['b']
    req = S.choice('request', [{}, {'b': 1}, {'a': 2, 'b': 1}, {'a': 1, 'c': 0}])

    subs = []
    for n, g in zip(ns, groups):
        s = Stub(n, None)
        s.subgroup = dict(g)
        subs.append(s)
    sim = S.new(M, simulators=subs, _cache={})
    given = dict(req)
    got = sim.get_mask_subgroup(given)
    total = sum(ns[1:], ns[0])
    S.ensure('one value per household', S.shape_is(got, total))
    off = 0
    for n, g in zip(ns, groups):
        want = S.And(*[q in g and g[q] == v for q, v in req.items()])
        S.ensure('exactly the households whose subgroup matches all keys', S.forall((n,), lambda i, off=off, want=want: S.Iff(
            S.at(got, off + i), want)))
        off = off + n
    S.ensure('the request is not modified', given == req)


@contract('C09', [M + '.__init__', M + '.step', M + '._create_multi_getter', B + '.cached_getter'], proof=False)
def histories(S):
    """interleaved steps and getters of composed simulators, nested once"""
    Sub = sub_class(S)
    m = S.dim('m', 1, 4)
    ns = [S.dim('n%d' % i, 1, 3) for i in range(m)]
    subs = [Sub(n, np.zeros(n)) for n in ns]
    top = S.cls(M)(subs)
    if S.flag('nested'):
        extra = Sub(2, np.zeros(2))
        inner = S.cls(M)(subs)
        inner.initialize_starting_state()
        for s in subs:
            s.initialize_starting_state()
        extra.initialize_starting_state()
        top = S.cls(M)([inner, extra])
        ns = ns + [2]
    top.initialize_starting_state()
    N = sum(ns)
    S.ensure('households', top.n_households == N)
    cur = np.zeros(N)
    steps = 0
    for j in range(S.dim('length', 1, 8)):
        op = S.choice('op%d' % j, ['step', 'get', 'one', 'double'])
        if op == 'step':
            cur = S.arr('x%d' % j, (N,))
            top.step(S.copy(cur))
            steps += 1
        elif op == 'get':
            S.ensure('current', S.same(top.get_state(), cur))
        elif op == 'one':
            q = S.nrng.randint(N)
            S.ensure('one household', S.eq(top.get_state(int(q)), cur[q]))
        else:
            S.ensure('current', S.same(top.get_double(), cur * 2))
    S.ensure('steps', top.current_time_step == steps and all(s.current_time_step == steps for s in subs))
