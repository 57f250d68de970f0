"""C08  SimLogger."""
import datetime
import numpy as np
from dv.harness import contract

B = 'demod.simulators.base_simulators'
L = B + '.SimLogger'


class Sim:
    """any object with loggable attributes and methods"""

    def method(self):
        return self.m

    def dictionary(self):
        return {'a': self.da, 'b': self.db}


def visited(S, n):
    sim = Sim()
    sim.vector = S.arr('vector', (n,))
    sim.m = S.arr('m', (n,))
    sim.da, sim.db = S.arr('da', (n,)), S.arr('db', (n,))
    sim.scalar = S.int('scalar', 0, 100)
    sim.matrix = S.arr('matrix', (n, 3))
    sim.current_time = S.datetime('now')
    return sim


def entry(S, value, expect, aggregate):
    """one recorded value against the value of the simulator at the visit"""
    if not aggregate:
        return S.same(value, expect)
    return S.same(value, S.sum(expect))


def earlier(S, name, k):
    """what earlier visits left (opaque: only the list matters)"""
    return ['%s %d' % (name, i) for i in range(k)]


@contract('C08', [L + '.visit_simulator', L + '.__init__'])
def one_visit(S):
    n = S.dim('n', 1, 4)
    sim = visited(S, n)
    agg = [S.flag('aggregate vector'), S.flag('aggregate method'), S.flag('aggregate matrix')]
    names = ['vector', 'method', 'matrix', 'scalar', 'current_time']
    log = S.cls(L)(names, aggregated=agg + [False, False])
    k = S.choice('earlier visits', [0, 1, 2])
    for a in names:
        log.dic_results[a] = earlier(S, a, k)
    log.length = k
    before = (S.copy(sim.vector), S.copy(sim.m), S.copy(sim.matrix))
    log.visit_simulator(sim)
    for a in names:
        S.ensure('one entry is added for %s' % a, len(log.dic_results[a]) == k + 1)
        S.ensure('earlier entries of %s are kept' % a, log.dic_results[a][:k] == earlier(S, a, k))
    last = {a: log.dic_results[a][k] for a in names}
    S.ensure('value of an attribute', entry(S, last['vector'], before[0], agg[0]))
    S.ensure('value returned by a method', entry(S, last['method'], before[1], agg[1]))
    S.ensure('value of a matrix', entry(S, last['matrix'], before[2], agg[2]))
    S.ensure('value of a number', S.same(last['scalar'], sim.scalar))
    S.ensure('the time', last['current_time'] == sim.current_time)
    S.ensure('the visit is counted', log.length == k + 1)
    S.ensure('the simulator is only read', S.And(
        S.same(sim.vector, before[0]), S.same(sim.m, before[1]), S.same(sim.matrix, before[2])))
    # what is recorded does not change with the simulator
    sim.vector[0] = S.real('later')
    S.ensure('the recorded value is a copy', entry(S, log.dic_results['vector'][k], before[0], agg[0]))


@contract('C08', [L + '.visit_simulator'])
def visit_with_dictionary(S):
    n = S.dim('n', 1, 4)
    sim = visited(S, n)
    agg = S.flag('aggregate')
    log = S.cls(L)('dictionary', aggregated=agg)
    k = S.choice('earlier visits', [0, 1, 2])
    if k:
        log.dic_results['dictionary'] = {'a': earlier(S, 'a', k), 'b': earlier(S, 'b', k)}
    log.visit_simulator(sim)
    d = log.dic_results['dictionary']
    S.ensure('one list per key', set(d) == {'a', 'b'})
    for key, v in (('a', sim.da), ('b', sim.db)):
        S.ensure('one entry is added', len(d[key]) == k + 1)
        S.ensure('earlier entries are kept', d[key][:k] == earlier(S, key, k))
        S.ensure('value of the key', entry(S, d[key][k], v, agg))
    # what is recorded does not change with the simulator
    before = S.copy(sim.da)
    sim.da[0] = S.real('later')
    S.ensure('the recorded value is a copy', entry(S, d['a'][k], before, agg))


@contract('C08', [L + '.__init__'])
def options(S):
    C = S.cls(L)
    form = S.choice('form', ['list', 'names', 'single'])
    names = ['x', 'current_time', 'y'] if form != 'single' else ['x']
    agg = S.choice('aggregated', [True, False, 'list'])
    given = agg
    if agg == 'list':
        given = [True, False, False][:len(names)]
        expect = list(given)
    else:
        expect = [agg and a != 'current_time' for a in names]
    mine = list(names)
    log = C(mine, aggregated=given) if form == 'list' else C(*names, aggregated=given)
    S.ensure('attributes in the given order', log.attributes_list == names)
    S.ensure('which ones are aggregated', log.aggregated == expect)
    S.ensure('nothing is recorded', log.length == 0 and all(log.dic_results[a] == [] for a in names))
    mine.append('z')
    if agg == 'list':
        given.append(True)
    S.ensure('later changes of the given lists have no effect',
             log.attributes_list == names and log.aggregated == expect)
    S.ensure('lists of different lengths are rejected', S.raises(
        ValueError, lambda: C(names, aggregated=[True] * (len(names) + 1))) is not None)
    S.ensure('attributes of another type are rejected', S.raises(TypeError, lambda: C(3)) is not None)
    S.ensure('aggregation of another type is rejected', S.raises(
        TypeError, lambda: C(names, aggregated='yes')) is not None)
    S.ensure('an unknown attribute is rejected', S.raises(ValueError, lambda: log.get('unknown')) is not None)
    S.ensure('an unknown attribute cannot be cleared', S.raises(
        ValueError, lambda: log.clear('unknown')) is not None)
    if len(names) > 1:
        S.ensure('the attribute must be given when there are several', S.raises(
            ValueError, lambda: log.get()) is not None)


@contract('C08', [L + '.copy', L + '.clear', L + '.__add__'])
def copies(S):
    C = S.cls(L)
    n = S.dim('n', 1, 4)
    sim = visited(S, n)
    log = C('vector', 'scalar', aggregated=[S.flag('aggregate'), False])
    visits = S.choice('visits', [0, 1, 2])
    for _ in range(visits):
        log.visit_simulator(sim)
    c = log.copy()
    S.ensure('same attributes and options', c.attributes_list == log.attributes_list and
             c.aggregated == log.aggregated)
    S.ensure('the copy is empty', c.length == 0 and all(len(c.dic_results[a]) == 0 for a in c.attributes_list))
    S.ensure('the original keeps its entries', log.length == visits and
             all(len(log.dic_results[a]) == visits for a in log.attributes_list))
    c.visit_simulator(sim)
    S.ensure('the original does not record the visits of the copy', len(log.dic_results['vector']) == visits)
    c.attributes_list.append('m')
    c.aggregated.append(True)
    S.ensure('the lists of the copy are its own', log.attributes_list == ['vector', 'scalar'] and
             len(log.aggregated) == 2)
    log.clear()
    S.ensure('clearing empties the recordings', log.length == 0 and all(
        len(log.dic_results[a]) == 0 for a in log.attributes_list))


@contract('C08', [B + '.Simulator.__init__', B + '.Simulator.step', B + '.Simulator.initialize_starting_state'])
def attached(S):
    """the logger of a simulator is its own copy, visited after initialisation and once per step"""
    n = S.dim('n', 1, 4)
    x, y = S.arr('x', (n,)), S.arr('y', (n,))

    class My(S.cls(B + '.Simulator')):
        def step(self, v):
            self.state = v
            super().step()
    log = S.cls(L)('state', aggregated=False)
    sim = My(n if not S.symbolic else 2, logger=log)
    S.ensure('own copy', sim.logger is not log)
    sim.state = x
    sim.initialize_starting_state(S.choice('preliminary steps', [0, 1, 2]), x)
    r = sim.logger.dic_results['state']
    S.ensure('one entry after initialisation', len(r) == 1 and sim.logger.length == 1)
    S.ensure('the initial state', S.same(r[0], sim.state))
    sim.step(y)
    r = sim.logger.dic_results['state']
    S.ensure('one entry per step', len(r) == 2 and sim.logger.length == 2)
    S.ensure('the state reached by the step', S.same(r[1], y))
    S.ensure('the given logger stays empty', log.length == 0 and len(log.dic_results['state']) == 0)


@contract('C08', [L + '.visit_simulator', L + '.get', L + '.clear', L + '.copy'], proof=False)
def histories(S):
    """get() after any history of steps, clears and copies against an independent record"""
    n = S.dim('n', 1, 3)
    B_ = S.mod(B)

    class My(B_.TimeAwareSimulator):
        def step(self):
            self.fresh()
            super().step()

        def fresh(self):
            if hasattr(self, 'state') and S.rng.random() < .5:
                # in place, as many simulators do
                self.state += 1
                self.flags ^= True
            else:
                self.state = S.nrng.randint(0, 9, n).astype(float)
                self.flags = S.nrng.randint(0, 2, n).astype(bool)
            self.k = int(S.nrng.randint(0, 99))

        @B_.cached_getter
        def get_power(self):
            return self.state * 2

        def get_parts(self):
            return {'u': self.state + 1, 'v': self.flags}
    names = ['state', 'flags', 'k', 'get_power', 'get_parts', 'current_time']
    names = [a for a in names if S.rng.random() < .6] or ['state']
    if S.rng.random() < .2:
        names = [S.rng.choice(names)]
    S.rng.shuffle(names)
    if S.flag('aggregated as list'):
        agg = [a != 'current_time' and S.flag('agg ' + a) for a in names]
        given = agg
    else:
        given = S.flag('aggregated')
        agg = [given and a != 'current_time' for a in names]
    log = B_.SimLogger(names, aggregated=given)
    sim = My(n, logger=log, step_size=datetime.timedelta(minutes=S.int('minutes', 1, 90)))
    sim.fresh()
    sim.initialize_starting_state(initialization_time=S.choice('init', [None, datetime.time(3, 30)]))

    def snap():
        out = {}
        for a, g in zip(names, agg):
            v = getattr(sim, a)
            v = v() if callable(v) else v
            f = (lambda q: sum(np.asarray(q).ravel().tolist())) if g else (lambda q: np.array(q))
            out[a] = {k: f(w) for k, w in v.items()} if isinstance(v, dict) else (v if a == 'current_time' else f(v))
        return out
    rec = [snap()]
    for j in range(S.dim('events', 0, 10)):
        op = S.choice('op%d' % j, ['step', 'step', 'step', 'clear', 'copy', 'clear one by one'])
        if op == 'step':
            sim.step()
            rec.append(snap())
        elif op == 'clear':
            sim.logger.clear()
            rec = []
        elif op == 'clear one by one':
            sim.logger.clear(list(names))
            rec = []
        else:
            c = sim.logger.copy()
            S.ensure('a copy is empty', all(len(c.dic_results[a]) == 0 for a in names))
    S.ensure('number of visits', sim.logger.length == len(rec))
    for a in names:
        got = sim.logger.get(a)
        if isinstance(getattr(sim, a)() if a == 'get_parts' else None, dict) and rec:
            S.ensure('keys', set(got) == {'u', 'v'})
            for key in got:
                S.ensure('all entries but the last, per key', S.same(got[key], np.array([r[a][key] for r in rec[:-1]])
                         if len(rec) > 1 else got[key][:0]))
        elif a == 'current_time':
            S.ensure('all times but the last', list(got) == [r[a] for r in rec[:-1]])
        elif len(rec) > 1:
            S.ensure('all entries but the last', S.same(got, np.array([r[a] for r in rec[:-1]])))
        else:
            S.ensure('nothing to return', len(got) == 0)
    if len(names) == 1:
        S.ensure('the only attribute needs no name', repr(sim.logger.get()) == repr(sim.logger.get(names[0])))
    else:
        S.ensure('one of several attributes must be named', S.raises(ValueError, lambda: sim.logger.get()) is not None)


@contract('C08', [L + '.__add__'], proof=False)
def addition(S):
    n = S.dim('n', 1, 3)
    sim = visited(S, n)
    C = S.cls(L)
    a, b = C('vector', aggregated=S.flag('agg a')), C('m', 'scalar', aggregated=S.flag('agg b'))
    ka, kb = S.int('visits a', 0, 3), S.int('visits b', 0, 3)
    for _ in range(ka):
        a.visit_simulator(sim)
    for _ in range(kb):
        b.visit_simulator(sim)
    va, vb, vs = a.get('vector'), b.get('m'), b.get('scalar')
    e = S.raises(ValueError, lambda: a + b)
    if ka != kb:
        S.ensure('loggers of different lengths are rejected', e is not None)
    else:
        S.ensure('loggers of the same length are merged', e is None)
        r = S.result
        S.ensure('the values of both', S.same(r.get('vector'), va) and S.same(r.get('m'), vb) and S.same(r.get('scalar'), vs))
        S.ensure('options of both', len(r.aggregated) == 3 and r.attributes_list == ['vector', 'm', 'scalar'])
    S.ensure('anything else is rejected', S.raises(TypeError, lambda: a + 3) is not None)
